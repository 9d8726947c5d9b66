// Stand-in for fbdtemme/bencode (not installed here): the part of its interface dottorrent uses.
// Values own their strings (bvalue) or point into the decoded buffer (bview).
#pragma once
#include <fmt/format.h>
#include <cstddef>
#include <cstdint>
#include <concepts>
#include <filesystem>
#include <istream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <ranges>
#include <set>
#include <span>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace bencode {

enum class btype { uninitialized, integer, string, list, dict };

class exception : public std::runtime_error { using std::runtime_error::runtime_error; };
class bad_access : public exception { using exception::exception; };
class bad_conversion : public exception { using exception::exception; };
class parsing_error : public exception { using exception::exception; };
using syntax_error = parsing_error;
using decoding_error = parsing_error;
class encoding_error : public exception { using exception::exception; };

template <typename T> struct customization_point_type {};
template <typename T> struct serialization_traits { static constexpr btype type = btype::uninitialized; };
template <btype V> struct serializes_to { static constexpr btype type = V; };

#define BENCODE_SERIALIZES_TO(T, K) template <> struct bencode::serialization_traits<T> : bencode::serializes_to<bencode::btype::K> {};
#define BENCODE_SERIALIZES_TO_LIST(...) BENCODE_SERIALIZES_TO(__VA_ARGS__, list)
#define BENCODE_SERIALIZES_TO_STRING(...) BENCODE_SERIALIZES_TO(__VA_ARGS__, string)
#define BENCODE_SERIALIZES_TO_INTEGER(...) BENCODE_SERIALIZES_TO(__VA_ARGS__, integer)
#define BENCODE_SERIALIZES_TO_DICT(...) BENCODE_SERIALIZES_TO(__VA_ARGS__, dict)

template <typename EC>
concept event_consumer = requires(EC& c, std::int64_t i, std::string_view s) {
    c.integer(i); c.string(s); c.list_begin(); c.list_item(); c.list_end();
    c.dict_begin(); c.dict_key(); c.dict_value(); c.dict_end();
};

class bvalue;
class bview;

template <typename T>
concept bvalue_or_bview = std::same_as<std::remove_cvref_t<T>, bvalue> || std::same_as<std::remove_cvref_t<T>, bview>;

namespace detail {

template <typename T> concept stringish = std::convertible_to<const T&, std::string_view> && !std::same_as<T, std::filesystem::path>;
template <typename T> concept byte_range = std::ranges::contiguous_range<const T> && (std::same_as<std::ranges::range_value_t<const T>, std::byte>);
template <typename T> concept custom = serialization_traits<std::remove_cvref_t<T>>::type != btype::uninitialized;
template <typename T> concept maplike = requires { typename T::mapped_type; };

template <typename S> class basic_value;

template <event_consumer EC, typename T> void emit(EC& c, const T& v);

} // namespace detail

/// Owned value.
class bvalue {
public:
    using integer_type = std::int64_t;
    using string_type = std::string;
    using list_type = std::vector<bvalue>;
    using dict_type = std::map<std::string, bvalue, std::less<>>;

    bvalue() = default;
    bvalue(btype t);
    bvalue(const bvalue&);
    bvalue(bvalue&&) noexcept;
    bvalue& operator=(const bvalue&);
    bvalue& operator=(bvalue&&) noexcept;
    ~bvalue();
    bvalue(const dict_type& d);
    bvalue(dict_type&& d);
    bvalue(const list_type& l);
    bvalue(list_type&& l);
    bvalue(const bview& v);

    template <typename T>
        requires (!std::same_as<std::remove_cvref_t<T>, bvalue> && !std::same_as<std::remove_cvref_t<T>, bview>
                  && !std::same_as<std::remove_cvref_t<T>, btype> && !std::same_as<std::remove_cvref_t<T>, dict_type>
                  && !std::same_as<std::remove_cvref_t<T>, list_type>)
    bvalue(const T& v);

    bvalue& operator[](std::string_view key);
    btype type() const noexcept { return type_; }
    bool operator==(const bvalue& o) const;
    bool operator!=(const bvalue& o) const { return !(*this == o); }

    btype type_ = btype::uninitialized;
    integer_type i_ = 0;
    string_type s_;
    std::unique_ptr<list_type> l_;
    std::unique_ptr<dict_type> d_;
};

/// Non-owning value: strings point into the buffer it was decoded from.
class bview {
public:
    using integer_type = std::int64_t;
    using string_type = std::string_view;
    using list_type = std::vector<bview>;
    using dict_type = std::map<std::string_view, bview, std::less<>>;
    btype type() const noexcept { return type_; }
    btype type_ = btype::uninitialized;
    integer_type i_ = 0;
    string_type s_;
    std::shared_ptr<list_type> l_;
    std::shared_ptr<dict_type> d_;
};

inline bvalue::bvalue(btype t) : type_(t)
{
    if (t == btype::list) l_ = std::make_unique<list_type>();
    if (t == btype::dict) d_ = std::make_unique<dict_type>();
}
inline bvalue::~bvalue() = default;
inline bvalue::bvalue(const bvalue& o) : type_(o.type_), i_(o.i_), s_(o.s_)
{
    if (o.l_) l_ = std::make_unique<list_type>(*o.l_);
    if (o.d_) d_ = std::make_unique<dict_type>(*o.d_);
}
inline bvalue::bvalue(bvalue&& o) noexcept : type_(o.type_), i_(o.i_), s_(std::move(o.s_)), l_(std::move(o.l_)), d_(std::move(o.d_)) { o.type_ = btype::uninitialized; }
inline bvalue& bvalue::operator=(const bvalue& o) { if (this != &o) { bvalue t(o); *this = std::move(t); } return *this; }
inline bvalue& bvalue::operator=(bvalue&& o) noexcept
{
    if (this == &o) return *this;
    type_ = o.type_; i_ = o.i_; s_ = std::move(o.s_);
    auto l = std::move(o.l_);
    auto d = std::move(o.d_);
    o.type_ = btype::uninitialized;
    l_ = std::move(l);
    d_ = std::move(d);
    return *this;
}
inline bvalue::bvalue(const dict_type& d) : type_(btype::dict), d_(std::make_unique<dict_type>(d)) {}
inline bvalue::bvalue(dict_type&& d) : type_(btype::dict), d_(std::make_unique<dict_type>(std::move(d))) {}
inline bvalue::bvalue(const list_type& l) : type_(btype::list), l_(std::make_unique<list_type>(l)) {}
inline bvalue::bvalue(list_type&& l) : type_(btype::list), l_(std::make_unique<list_type>(std::move(l))) {}
inline bvalue::bvalue(const bview& v) : bvalue(v.type_)
{
    i_ = v.i_;
    s_ = std::string(v.s_);
    if (v.l_) for (auto& e : *v.l_) l_->emplace_back(e);
    if (v.d_) for (auto& [k, e] : *v.d_) d_->emplace(std::string(k), e);
}
inline bool bvalue::operator==(const bvalue& o) const
{
    if (type_ != o.type_) return false;
    switch (type_) {
    case btype::integer: return i_ == o.i_;
    case btype::string: return s_ == o.s_;
    case btype::list: return *l_ == *o.l_;
    case btype::dict: return *d_ == *o.d_;
    default: return true;
    }
}
inline bvalue& bvalue::operator[](std::string_view key)
{
    if (type_ == btype::uninitialized) *this = bvalue(btype::dict);
    if (type_ != btype::dict) throw bad_access("value is not a dict");
    auto it = d_->find(key);
    if (it == d_->end()) it = d_->emplace(std::string(key), bvalue()).first;
    return it->second;
}

// ---- access
#define BENCODE_STANDIN_ACCESS(V)                                                                                   \
    inline bool holds_integer(const V& v) noexcept { return v.type_ == btype::integer; }                             \
    inline bool holds_string(const V& v) noexcept { return v.type_ == btype::string; }                               \
    inline bool holds_list(const V& v) noexcept { return v.type_ == btype::list; }                                   \
    inline bool holds_dict(const V& v) noexcept { return v.type_ == btype::dict; }                                   \
    inline bool is_integer(const V& v) noexcept { return v.type_ == btype::integer; }                                \
    inline bool is_string(const V& v) noexcept { return v.type_ == btype::string; }                                  \
    inline bool is_list(const V& v) noexcept { return v.type_ == btype::list; }                                      \
    inline bool is_dict(const V& v) noexcept { return v.type_ == btype::dict; }                                      \
    inline V::integer_type get_integer(const V& v) { if (v.type_ != btype::integer) throw bad_access("value is not an integer"); return v.i_; } \
    inline const V::string_type& get_string(const V& v) { if (v.type_ != btype::string) throw bad_access("value is not a string"); return v.s_; } \
    inline const V::list_type& get_list(const V& v) { if (v.type_ != btype::list) throw bad_access("value is not a list"); return *v.l_; } \
    inline const V::dict_type& get_dict(const V& v) { if (v.type_ != btype::dict) throw bad_access("value is not a dict"); return *v.d_; }
BENCODE_STANDIN_ACCESS(bvalue)
BENCODE_STANDIN_ACCESS(bview)
inline bvalue::list_type& get_list(bvalue& v) { if (v.type_ != btype::list) throw bad_access("value is not a list"); return *v.l_; }
inline bvalue::dict_type& get_dict(bvalue& v) { if (v.type_ != btype::dict) throw bad_access("value is not a dict"); return *v.d_; }
inline std::string& get_string(bvalue& v) { if (v.type_ != btype::string) throw bad_access("value is not a string"); return v.s_; }

template <typename T, bvalue_or_bview V> T get_as(const V& v)
{
    if constexpr (std::integral<T>) return static_cast<T>(get_integer(v));
    else if constexpr (std::constructible_from<T, std::string_view>) return T(std::string_view(get_string(v)));
    else {
        T r;
        for (auto& e : get_list(v)) r.insert(r.end(), get_as<typename T::value_type>(e));
        return r;
    }
}

// ---- events
namespace detail {

class value_builder {
public:
    bvalue result;
    void integer(std::int64_t v) { bvalue b(btype::integer); b.i_ = v; value(std::move(b)); }
    void string(std::string_view v) { bvalue b(btype::string); b.s_ = std::string(v); value(std::move(b)); }
    template <typename C> requires std::convertible_to<C, std::string_view> void string(const C& v) { string(std::string_view(v)); }
    void list_begin(std::optional<std::size_t> = std::nullopt) { stack_.push_back({bvalue(btype::list), {}}); }
    void list_item() { flush_item(); }
    void list_end(std::optional<std::size_t> = std::nullopt) { close(); }
    void dict_begin(std::optional<std::size_t> = std::nullopt) { stack_.push_back({bvalue(btype::dict), {}}); }
    void dict_key() { key_.push_back(take().s_); }
    void dict_value() { auto v = take(); get_dict(stack_.back().v).insert_or_assign(key_.back(), std::move(v)); key_.pop_back(); }
    void dict_end(std::optional<std::size_t> = std::nullopt) { close(); }

private:
    struct frame { bvalue v; std::optional<bvalue> pending; };
    void value(bvalue b) { if (stack_.empty()) result = std::move(b); else stack_.back().pending = std::move(b); }
    bvalue take() { if (!stack_.back().pending) throw encoding_error("no value"); bvalue b = std::move(*stack_.back().pending); stack_.back().pending.reset(); return b; }
    void flush_item() { auto b = take(); get_list(stack_.back().v).push_back(std::move(b)); }
    void close() { bvalue b = std::move(stack_.back().v); stack_.pop_back(); value(std::move(b)); }
    std::vector<frame> stack_;
    std::vector<std::string> key_;
};

template <event_consumer EC> void emit_value(EC& c, const bvalue& v)
{
    switch (v.type_) {
    case btype::integer: c.integer(v.i_); break;
    case btype::string: c.string(std::string_view(v.s_)); break;
    case btype::list:
        c.list_begin();
        for (auto& e : *v.l_) { emit_value(c, e); c.list_item(); }
        c.list_end();
        break;
    case btype::dict:
        c.dict_begin();
        for (auto& [k, e] : *v.d_) { c.string(std::string_view(k)); c.dict_key(); emit_value(c, e); c.dict_value(); }
        c.dict_end();
        break;
    default: throw encoding_error("uninitialized value");
    }
}

template <typename> inline constexpr bool always_false = false;

template <event_consumer EC, typename T> void emit(EC& c, const T& v)
{
    if constexpr (std::same_as<T, bvalue>) emit_value(c, v);
    else if constexpr (custom<T>) bencode_connect(customization_point_type<T>{}, c, v);
    else if constexpr (std::integral<T>) c.integer(static_cast<std::int64_t>(v));
    else if constexpr (stringish<T>) c.string(std::string_view(v));
    else if constexpr (byte_range<T>) c.string(std::string_view(reinterpret_cast<const char*>(std::ranges::data(v)), std::ranges::size(v)));
    else if constexpr (maplike<T>) {
        c.dict_begin();
        for (const auto& [k, e] : v) { emit(c, k); c.dict_key(); emit(c, e); c.dict_value(); }
        c.dict_end();
    }
    else if constexpr (std::ranges::input_range<const T>) {
        c.list_begin();
        for (const auto& e : v) { emit(c, e); c.list_item(); }
        c.list_end();
    }
    else static_assert(always_false<T>, "type is not serializable");
}

template <typename Out> class text_encoder {
public:
    explicit text_encoder(Out o) : out_(o) {}
    void integer(std::int64_t v) { put("i" + std::to_string(v) + "e"); }
    void string(std::string_view v) { put(std::to_string(v.size()) + ":"); put(v); }
    template <typename C> requires std::convertible_to<C, std::string_view> void string(const C& v) { string(std::string_view(v)); }
    void list_begin(std::optional<std::size_t> = std::nullopt) { put("l"); }
    void list_item() {}
    void list_end(std::optional<std::size_t> = std::nullopt) { put("e"); }
    void dict_begin(std::optional<std::size_t> = std::nullopt) { put("d"); }
    void dict_key() {}
    void dict_value() {}
    void dict_end(std::optional<std::size_t> = std::nullopt) { put("e"); }
    Out out_;
private:
    void put(std::string_view s) { for (char ch : s) { *out_ = ch; ++out_; } }
};

template <typename V> class parser {
public:
    explicit parser(std::string_view s) : s_(s) {}
    V parse()
    {
        V v = value(0);
        if (p_ != s_.size()) throw parsing_error("trailing characters");
        return v;
    }
private:
    V value(int depth)
    {
        if (depth > 2000) throw parsing_error("nested too deeply");
        V v;
        char c = peek();
        if (c == 'i') { ++p_; v.type_ = btype::integer; v.i_ = number(true); need('e'); }
        else if (c >= '0' && c <= '9') { v.type_ = btype::string; v.s_ = typename V::string_type(str()); }
        else if (c == 'l') {
            ++p_;
            v.type_ = btype::list;
            auto l = typename V::list_type{};
            while (peek() != 'e') l.push_back(value(depth + 1));
            ++p_;
            set(v.l_, std::move(l));
        } else if (c == 'd') {
            ++p_;
            v.type_ = btype::dict;
            auto d = typename V::dict_type{};
            while (peek() != 'e') {
                auto k = str();
                auto e = value(depth + 1);
                if (!d.emplace(typename V::dict_type::key_type(k), std::move(e)).second) throw parsing_error("duplicate key");
            }
            ++p_;
            set(v.d_, std::move(d));
        } else throw parsing_error("unexpected character");
        return v;
    }
    template <typename P, typename X> static void set(std::unique_ptr<P>& p, X&& x) { p = std::make_unique<P>(std::move(x)); }
    template <typename P, typename X> static void set(std::shared_ptr<P>& p, X&& x) { p = std::make_shared<P>(std::move(x)); }
    char peek() const { if (p_ >= s_.size()) throw parsing_error("unexpected end of input"); return s_[p_]; }
    void need(char c) { if (peek() != c) throw parsing_error("unexpected character"); ++p_; }
    std::int64_t number(bool neg)
    {
        bool m = false;
        if (neg && peek() == '-') { m = true; ++p_; }
        if (peek() < '0' || peek() > '9') throw parsing_error("expected digit");
        std::uint64_t v = 0;
        while (peek() >= '0' && peek() <= '9') { v = v * 10 + (s_[p_] - '0'); if (v > (1ull << 62)) throw parsing_error("integer out of range"); ++p_; }
        return m ? -(std::int64_t)v : (std::int64_t)v;
    }
    std::string_view str()
    {
        auto n = (std::size_t)number(false);
        need(':');
        if (n > s_.size() - p_) throw parsing_error("unexpected end of input");
        auto r = s_.substr(p_, n);
        p_ += n;
        return r;
    }
    std::string_view s_;
    std::size_t p_ = 0;
};

} // namespace detail

template <typename T>
    requires (!std::same_as<std::remove_cvref_t<T>, bvalue> && !std::same_as<std::remove_cvref_t<T>, bview>
              && !std::same_as<std::remove_cvref_t<T>, btype> && !std::same_as<std::remove_cvref_t<T>, bvalue::dict_type>
              && !std::same_as<std::remove_cvref_t<T>, bvalue::list_type>)
bvalue::bvalue(const T& v)
{
    detail::value_builder b;
    if constexpr (std::is_array_v<T>) detail::emit(b, std::string_view(v));
    else detail::emit(b, v);
    *this = std::move(b.result);
}

template <event_consumer EC, typename T> void connect(EC& c, const T& v) { detail::emit(c, v); }

template <std::output_iterator<char> Out, typename T> void encode_to(Out out, const T& v)
{
    detail::text_encoder<Out> e(out);
    detail::emit(e, v);
}
template <typename T> void encode_to(std::ostream& os, const T& v) { encode_to(std::ostreambuf_iterator<char>(os), v); }
template <typename T> std::string encode(const T& v)
{
    std::string s;
    encode_to(std::back_inserter(s), v);
    return s;
}

inline bvalue decode_value(std::string_view s) { return detail::parser<bvalue>(s).parse(); }
inline bvalue decode_value(std::istream& is)
{
    std::string s{std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()};
    return decode_value(std::string_view(s));
}

class descriptor_table {
public:
    explicit descriptor_table(bview v) : root_(std::move(v)) {}
    const bview& get_root() const { return root_; }
private:
    bview root_;
};
inline descriptor_table decode_view(std::string_view s) { return descriptor_table(detail::parser<bview>(s).parse()); }

namespace events {

class encode_json_to {
public:
    explicit encode_json_to(std::ostream& os) : os_(os) {}
    void integer(std::int64_t v) { sep(); os_ << v; }
    void string(std::string_view v)
    {
        sep();
        os_ << '"';
        for (char c : v) { if (c == '"' || c == '\\') os_ << '\\'; os_ << c; }
        os_ << '"';
    }
    template <typename C> requires std::convertible_to<C, std::string_view> void string(const C& v) { string(std::string_view(v)); }
    void list_begin(std::optional<std::size_t> = std::nullopt) { sep(); os_ << '['; comma_ = false; }
    void list_item() { comma_ = true; }
    void list_end(std::optional<std::size_t> = std::nullopt) { os_ << ']'; comma_ = false; }
    void dict_begin(std::optional<std::size_t> = std::nullopt) { sep(); os_ << '{'; comma_ = false; }
    void dict_key() { os_ << ':'; comma_ = false; }
    void dict_value() { comma_ = true; }
    void dict_end(std::optional<std::size_t> = std::nullopt) { os_ << '}'; comma_ = false; }
private:
    void sep() { if (comma_) os_ << ','; comma_ = false; }
    std::ostream& os_;
    bool comma_ = false;
};

} // namespace events
} // namespace bencode
