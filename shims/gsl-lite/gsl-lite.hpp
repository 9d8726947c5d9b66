// Stand-in for gsl-lite (not installed in this sandbox). Only what a contract-checking user
// of the library can observe: Expects/Ensures terminate the process on violation.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <exception>
#include <functional>
#include <memory>
#include <span>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

extern "C" void simrt_contract_violation(const char* kind, const char* expr, const char* file, int line) noexcept
        __attribute__((weak));

namespace gsl_lite {
namespace detail {
[[noreturn]] inline void fail_fast_terminate(const char* kind, const char* expr, const char* file, int line) noexcept
{
    if (simrt_contract_violation) simrt_contract_violation(kind, expr, file, line);
    std::terminate();
}
}
using std::span;
using std::byte;
using index = std::ptrdiff_t;
using dim = std::ptrdiff_t;
using stride = std::ptrdiff_t;
using diff = std::ptrdiff_t;
template <class T> using owner = T;
using zstring = char*;
using czstring = const char*;

struct fail_fast : std::logic_error { using std::logic_error::logic_error; };
struct narrowing_error : std::exception { const char* what() const noexcept override { return "narrowing_error"; } };

template <class T, class U> constexpr T narrow_cast(U u) noexcept { return static_cast<T>(u); }
template <class T, class U> constexpr T narrow(U u)
{
    T t = static_cast<T>(u);
    if (static_cast<U>(t) != u || ((t < T{}) != (u < U{}))) throw narrowing_error{};
    return t;
}
template <class T, class U> constexpr T narrow_failfast(U u)
{
    T t = static_cast<T>(u);
    if (static_cast<U>(t) != u || ((t < T{}) != (u < U{}))) std::terminate();
    return t;
}
template <class F> class final_action {
public:
    explicit final_action(F f) : f_(std::move(f)) {}
    final_action(final_action&& o) : f_(std::move(o.f_)), on_(std::exchange(o.on_, false)) {}
    final_action(const final_action&) = delete;
    ~final_action() { if (on_) f_(); }
    void dismiss() noexcept { on_ = false; }
private:
    F f_; bool on_ = true;
};
template <class F> final_action<std::decay_t<F>> finally(F&& f) { return final_action<std::decay_t<F>>(std::forward<F>(f)); }

template <class T> class not_null {
public:
    constexpr not_null(T p) : p_(std::move(p)) { if (p_ == nullptr) std::terminate(); }
    constexpr decltype(auto) get() const { return (p_); }
    constexpr operator T() const { return p_; }
    constexpr decltype(auto) operator->() const { return p_; }
    constexpr decltype(auto) operator*() const { return *p_; }
private:
    T p_;
};
template <class C> constexpr decltype(auto) at(C& c, std::size_t i) { if (i >= std::size(c)) std::terminate(); return c[i]; }
} // namespace gsl_lite

namespace gsl { using namespace gsl_lite; }

#define gsl_SHIM_CHECK(KIND, ...) \
    ((__VA_ARGS__) ? static_cast<void>(0) \
                   : ::gsl_lite::detail::fail_fast_terminate(KIND, #__VA_ARGS__, __FILE__, __LINE__))
#define gsl_Expects(...)       gsl_SHIM_CHECK("Expects", __VA_ARGS__)
#define gsl_Ensures(...)       gsl_SHIM_CHECK("Ensures", __VA_ARGS__)
#define gsl_Assert(...)        gsl_SHIM_CHECK("Assert", __VA_ARGS__)
#define gsl_ExpectsDebug(...)  gsl_SHIM_CHECK("Expects", __VA_ARGS__)
#define gsl_EnsuresDebug(...)  gsl_SHIM_CHECK("Ensures", __VA_ARGS__)
#define gsl_AssertDebug(...)   gsl_SHIM_CHECK("Assert", __VA_ARGS__)
#define gsl_ExpectsAudit(...)  static_cast<void>(0)
#define gsl_EnsuresAudit(...)  static_cast<void>(0)
#define gsl_FailFast()         ::gsl_lite::detail::fail_fast_terminate("FailFast", "", __FILE__, __LINE__)
#define gsl_NODISCARD [[nodiscard]]
#ifndef Expects
#define Expects(...) gsl_Expects(__VA_ARGS__)
#endif
#ifndef Ensures
#define Ensures(...) gsl_Ensures(__VA_ARGS__)
#endif
#ifndef ExpectsAudit
#define ExpectsAudit(...) static_cast<void>(0)
#define EnsuresAudit(...) static_cast<void>(0)
#endif
