#pragma once
#include <fmt/format.h>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
#include <optional>
#include <functional>
#include <ranges>
