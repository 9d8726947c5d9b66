// Stand-in for expected-lite (not installed here).
#pragma once
#include <exception>
#include <optional>
#include <stdexcept>
#include <utility>
#include <variant>
namespace nonstd {
template <class E> class unexpected_type {
public:
    explicit unexpected_type(E e) : e_(std::move(e)) {}
    const E& value() const { return e_; }
    const E& error() const { return e_; }
private: E e_;
};
template <class E> using unexpected = unexpected_type<E>;
template <class E> unexpected_type<std::decay_t<E>> make_unexpected(E&& e) { return unexpected_type<std::decay_t<E>>(std::forward<E>(e)); }
struct bad_expected_access : std::exception { const char* what() const noexcept override { return "bad expected access"; } };
template <class T, class E> class expected {
public:
    using value_type = T; using error_type = E;
    expected() : v_(std::in_place_index<0>) {}
    expected(const T& t) : v_(std::in_place_index<0>, t) {}
    expected(T&& t) : v_(std::in_place_index<0>, std::move(t)) {}
    template <class G> expected(const unexpected_type<G>& u) : v_(std::in_place_index<1>, u.value()) {}
    bool has_value() const { return v_.index() == 0; }
    explicit operator bool() const { return has_value(); }
    T& value() { if (!has_value()) throw bad_expected_access{}; return std::get<0>(v_); }
    const T& value() const { if (!has_value()) throw bad_expected_access{}; return std::get<0>(v_); }
    T& operator*() { return std::get<0>(v_); }
    const T& operator*() const { return std::get<0>(v_); }
    T* operator->() { return &std::get<0>(v_); }
    const T* operator->() const { return &std::get<0>(v_); }
    const E& error() const { return std::get<1>(v_); }
    template <class U> T value_or(U&& u) const { return has_value() ? std::get<0>(v_) : static_cast<T>(std::forward<U>(u)); }
private: std::variant<T, E> v_;
};
}
