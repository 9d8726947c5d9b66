#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "runner.hpp"

inline std::vector<std::string> split(const std::string& s, char d = ',')
{
    std::vector<std::string> r;
    size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find(d, p);
        if (e == std::string::npos) e = s.size();
        r.push_back(s.substr(p, e - p));
        p = e + 1;
    }
    return r;
}
