// Stand-in for the parts of simdjson's DOM API this code base uses (simdjson itself is not
// installed in the sandbox). Strict RFC 8259 parsing, same value tags as simdjson: a number without
// fraction or exponent is INT64 when it fits, else UINT64 when it fits, else an error; other numbers are DOUBLE.
//
// simio::g_load lets the simulator put file loading behind its own fault-injecting storage.
#pragma once
#include <cctype>
#include <charconv>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace simdjson {

enum error_code
{
    SUCCESS = 0,
    CAPACITY,
    MEMALLOC,
    TAPE_ERROR,
    DEPTH_ERROR,
    STRING_ERROR,
    T_ATOM_ERROR,
    F_ATOM_ERROR,
    N_ATOM_ERROR,
    NUMBER_ERROR,
    BIGINT_ERROR,
    UTF8_ERROR,
    UNINITIALIZED,
    EMPTY,
    UNESCAPED_CHARS,
    UNCLOSED_STRING,
    UNSUPPORTED_ARCHITECTURE,
    INCORRECT_TYPE,
    NUMBER_OUT_OF_RANGE,
    INDEX_OUT_OF_BOUNDS,
    NO_SUCH_FIELD,
    IO_ERROR,
    INVALID_JSON_POINTER,
    NUM_ERROR_CODES
};
inline const char* error_message(error_code e)
{
    switch (e)
    {
    case SUCCESS: return "No error";
    case IO_ERROR: return "Error reading the file.";
    case EMPTY: return "Empty: no JSON found";
    case INCORRECT_TYPE: return "The JSON element does not have the requested type.";
    case NO_SUCH_FIELD: return "The JSON field referenced does not exist in this object.";
    default: return "JSON error";
    }
}
class simdjson_error : public std::exception
{
  public:
    explicit simdjson_error(error_code e) : e_(e) {}
    const char* what() const noexcept override { return error_message(e_); }
    error_code error() const noexcept { return e_; }

  private:
    error_code e_;
};
inline std::ostream& operator<<(std::ostream& o, error_code e) { return o << error_message(e); }

constexpr size_t SIMDJSON_PADDING = 64;

template <typename T> struct simdjson_result
{
    T v{};
    error_code e = UNINITIALIZED;
    simdjson_result() = default;
    simdjson_result(error_code e_) : e(e_) {}
    simdjson_result(T&& v_) : v(std::move(v_)), e(SUCCESS) {}
    simdjson_result(const T& v_) : v(v_), e(SUCCESS) {}
    error_code error() const { return e; }
    error_code get(T& out) &&
    {
        if (e == SUCCESS) { out = std::move(v); }
        return e;
    }
    error_code get(T& out) &
    {
        if (e == SUCCESS) { out = v; }
        return e;
    }
    T& value()
    {
        if (e != SUCCESS) { throw simdjson_error(e); }
        return v;
    }
    const T& value_unsafe() const { return v; }
    template <typename U, typename = std::enable_if_t<!std::is_same_v<U, T>>> error_code get(U& out)
    {
        if (e != SUCCESS) { return e; }
        return v.get(out);
    }
    template <typename U> auto get()
    {
        using R = simdjson_result<U>;
        if (e != SUCCESS) { return R(e); }
        return v.template get<U>();
    }
    template <typename K> auto operator[](const K& k) const -> decltype(v[k])
    {
        if (e != SUCCESS) { return e; }
        return v[k];
    }
    template <typename U = T> auto is_null() const -> decltype(std::declval<U>().is_null()) { return e == SUCCESS && v.is_null(); }
    operator T() const
    {
        if (e != SUCCESS) { throw simdjson_error(e); }
        return v;
    }
};

} // namespace simdjson

namespace simio {
// Storage seam: when set, padded_string::load goes through it.
using LoadFn = std::function<bool(const std::string& path, std::string& out)>;
inline LoadFn g_load;
} // namespace simio

namespace simdjson {

class padded_string
{
    std::string s_;

  public:
    padded_string() = default;
    padded_string(const char* d, size_t n) : s_(d ? std::string(d, n) : std::string()) {}
    padded_string(const std::string& s) : s_(s) {}
    padded_string(std::string_view s) : s_(s) {}
    padded_string(padded_string&&) noexcept = default;
    padded_string& operator=(padded_string&&) noexcept = default;
    padded_string(const padded_string&) = default; // needed by simdjson_result; simdjson itself is move-only
    padded_string& operator=(const padded_string&) = default;
    size_t size() const { return s_.size(); }
    size_t length() const { return s_.size(); }
    const char* data() const { return s_.data(); }
    char* data() { return s_.data(); }
    operator std::string_view() const { return s_; }
    static simdjson_result<padded_string> load(std::string_view path_)
    {
        const std::string path(path_);
        std::string out;
        if (simio::g_load)
        {
            if (!simio::g_load(path, out)) { return IO_ERROR; }
            return padded_string(out);
        }
        FILE* f = std::fopen(path.c_str(), "rb");
        if (f == nullptr) { return IO_ERROR; }
        char buf[65536];
        size_t n;
        while ((n = std::fread(buf, 1, sizeof buf, f)) > 0) { out.append(buf, n); }
        const bool bad = std::ferror(f) != 0;
        std::fclose(f);
        if (bad) { return IO_ERROR; }
        return padded_string(out);
    }
};

namespace dom {

enum class element_type
{
    ARRAY = '[',
    OBJECT = '{',
    INT64 = 'l',
    UINT64 = 'u',
    DOUBLE = 'd',
    STRING = '"',
    BOOL = 't',
    NULL_VALUE = 'n'
};

struct Node
{
    element_type type = element_type::NULL_VALUE;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    bool b = false;
    std::string s;
    std::vector<Node> a;                            // array elements
    std::vector<std::pair<std::string, Node>> o;    // object members
};

class element;
class array
{
    const Node* n_ = nullptr;

  public:
    array() = default;
    explicit array(const Node* n) : n_(n) {}
    class iterator
    {
        const Node* p_;

      public:
        using value_type = element;
        using difference_type = std::ptrdiff_t;
        explicit iterator(const Node* p) : p_(p) {}
        inline element operator*() const;
        iterator& operator++()
        {
            ++p_;
            return *this;
        }
        iterator operator++(int)
        {
            auto t = *this;
            ++p_;
            return t;
        }
        bool operator!=(const iterator& o) const { return p_ != o.p_; }
        bool operator==(const iterator& o) const { return p_ == o.p_; }
    };
    iterator begin() const { return iterator(n_->a.data()); }
    iterator end() const { return iterator(n_->a.data() + n_->a.size()); }
    size_t size() const { return n_->a.size(); }
    inline simdjson_result<element> at(size_t i) const;
};

struct key_value_pair;
class object
{
    const Node* n_ = nullptr;

  public:
    object() = default;
    explicit object(const Node* n) : n_(n) {}
    class iterator
    {
        const std::pair<std::string, Node>* p_;

      public:
        explicit iterator(const std::pair<std::string, Node>* p) : p_(p) {}
        inline key_value_pair operator*() const;
        iterator& operator++()
        {
            ++p_;
            return *this;
        }
        bool operator!=(const iterator& o) const { return p_ != o.p_; }
        bool operator==(const iterator& o) const { return p_ == o.p_; }
    };
    iterator begin() const { return iterator(n_->o.data()); }
    iterator end() const { return iterator(n_->o.data() + n_->o.size()); }
    size_t size() const { return n_->o.size(); }
    inline simdjson_result<element> operator[](std::string_view k) const;
    inline simdjson_result<element> at_key(std::string_view k) const;
};

class element
{
    const Node* n_ = nullptr;

  public:
    element() = default;
    explicit element(const Node* n) : n_(n) {}
    element_type type() const { return n_->type; }
    bool is_null() const { return n_->type == element_type::NULL_VALUE; }
    bool is_string() const { return n_->type == element_type::STRING; }
    bool is_object() const { return n_->type == element_type::OBJECT; }
    bool is_array() const { return n_->type == element_type::ARRAY; }
    bool is_bool() const { return n_->type == element_type::BOOL; }
    bool is_int64() const { return n_->type == element_type::INT64; }
    bool is_uint64() const { return n_->type == element_type::UINT64; }
    bool is_double() const { return n_->type == element_type::DOUBLE; }
    bool is_number() const { return is_int64() || is_uint64() || is_double(); }

    error_code get(element& out) const
    {
        out = *this;
        return SUCCESS;
    }
    error_code get(array& out) const
    {
        if (!is_array()) { return INCORRECT_TYPE; }
        out = array(n_);
        return SUCCESS;
    }
    error_code get(object& out) const
    {
        if (!is_object()) { return INCORRECT_TYPE; }
        out = object(n_);
        return SUCCESS;
    }
    error_code get(std::string_view& out) const
    {
        if (!is_string()) { return INCORRECT_TYPE; }
        out = n_->s;
        return SUCCESS;
    }
    error_code get(bool& out) const
    {
        if (!is_bool()) { return INCORRECT_TYPE; }
        out = n_->b;
        return SUCCESS;
    }
    error_code get(int64_t& out) const
    {
        if (is_int64())
        {
            out = n_->i;
            return SUCCESS;
        }
        return is_uint64() ? NUMBER_OUT_OF_RANGE : INCORRECT_TYPE;
    }
    error_code get(uint64_t& out) const
    {
        if (is_uint64())
        {
            out = n_->u;
            return SUCCESS;
        }
        if (is_int64())
        {
            if (n_->i < 0) { return NUMBER_OUT_OF_RANGE; }
            out = static_cast<uint64_t>(n_->i);
            return SUCCESS;
        }
        return INCORRECT_TYPE;
    }
    error_code get(double& out) const
    {
        if (is_double()) { out = n_->d; }
        else if (is_int64()) { out = static_cast<double>(n_->i); }
        else if (is_uint64()) { out = static_cast<double>(n_->u); }
        else { return INCORRECT_TYPE; }
        return SUCCESS;
    }
    template <typename T> simdjson_result<T> get() const
    {
        T t{};
        const error_code e = get(t);
        if (e) { return e; }
        return t;
    }
    template <typename T> bool is() const
    {
        T t{};
        return get(t) == SUCCESS;
    }
    simdjson_result<std::string_view> get_string() const { return get<std::string_view>(); }
    simdjson_result<array> get_array() const { return get<array>(); }
    simdjson_result<object> get_object() const { return get<object>(); }
    simdjson_result<int64_t> get_int64() const { return get<int64_t>(); }
    simdjson_result<uint64_t> get_uint64() const { return get<uint64_t>(); }
    simdjson_result<double> get_double() const { return get<double>(); }
    simdjson_result<bool> get_bool() const { return get<bool>(); }
    simdjson_result<element> operator[](std::string_view k) const
    {
        if (!is_object()) { return INCORRECT_TYPE; }
        for (const auto& m : n_->o)
        {
            if (m.first == k) { return element(&m.second); }
        }
        return NO_SUCH_FIELD;
    }
    simdjson_result<element> operator[](const char* k) const { return (*this)[std::string_view(k)]; }
    simdjson_result<element> operator[](const std::string& k) const { return (*this)[std::string_view(k)]; }
    simdjson_result<element> at_key(std::string_view k) const { return (*this)[k]; }
};

struct key_value_pair
{
    std::string_view key;
    element value;
};

inline element array::iterator::operator*() const { return element(p_); }
inline simdjson_result<element> array::at(size_t i) const
{
    if (i >= n_->a.size()) { return INDEX_OUT_OF_BOUNDS; }
    return element(&n_->a[i]);
}
inline key_value_pair object::iterator::operator*() const { return key_value_pair{p_->first, element(&p_->second)}; }
inline simdjson_result<element> object::operator[](std::string_view k) const { return element(n_)[k]; }
inline simdjson_result<element> object::at_key(std::string_view k) const { return element(n_)[k]; }

namespace detail {
struct Parser
{
    const char* p;
    const char* e;
    error_code err = SUCCESS;
    bool fail(error_code c)
    {
        if (err == SUCCESS) { err = c; }
        return false;
    }
    void ws()
    {
        while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) { ++p; }
    }
    bool lit(const char* w, error_code c)
    {
        const size_t n = std::strlen(w);
        if (static_cast<size_t>(e - p) < n || std::memcmp(p, w, n) != 0) { return fail(c); }
        p += n;
        return true;
    }
    static void utf8(std::string& o, uint32_t c)
    {
        if (c < 0x80) { o += static_cast<char>(c); }
        else if (c < 0x800)
        {
            o += static_cast<char>(0xC0 | (c >> 6));
            o += static_cast<char>(0x80 | (c & 63));
        }
        else if (c < 0x10000)
        {
            o += static_cast<char>(0xE0 | (c >> 12));
            o += static_cast<char>(0x80 | ((c >> 6) & 63));
            o += static_cast<char>(0x80 | (c & 63));
        }
        else
        {
            o += static_cast<char>(0xF0 | (c >> 18));
            o += static_cast<char>(0x80 | ((c >> 12) & 63));
            o += static_cast<char>(0x80 | ((c >> 6) & 63));
            o += static_cast<char>(0x80 | (c & 63));
        }
    }
    bool hex4(uint32_t& v)
    {
        if (e - p < 4) { return fail(STRING_ERROR); }
        v = 0;
        for (int k = 0; k < 4; ++k)
        {
            const char c = *p++;
            v <<= 4;
            if (c >= '0' && c <= '9') { v |= static_cast<uint32_t>(c - '0'); }
            else if (c >= 'a' && c <= 'f') { v |= static_cast<uint32_t>(c - 'a' + 10); }
            else if (c >= 'A' && c <= 'F') { v |= static_cast<uint32_t>(c - 'A' + 10); }
            else { return fail(STRING_ERROR); }
        }
        return true;
    }
    bool str(std::string& o)
    {
        ++p; // opening quote
        while (p < e)
        {
            const unsigned char c = static_cast<unsigned char>(*p++);
            if (c == '"') { return true; }
            if (c < 0x20) { return fail(UNESCAPED_CHARS); }
            if (c != '\\')
            {
                o += static_cast<char>(c);
                continue;
            }
            if (p >= e) { break; }
            switch (*p++)
            {
            case '"': o += '"'; break;
            case '\\': o += '\\'; break;
            case '/': o += '/'; break;
            case 'b': o += '\b'; break;
            case 'f': o += '\f'; break;
            case 'n': o += '\n'; break;
            case 'r': o += '\r'; break;
            case 't': o += '\t'; break;
            case 'u': {
                uint32_t v;
                if (!hex4(v)) { return false; }
                if (v >= 0xD800 && v < 0xDC00)
                {
                    uint32_t w;
                    if (e - p < 2 || p[0] != '\\' || p[1] != 'u') { return fail(STRING_ERROR); }
                    p += 2;
                    if (!hex4(w)) { return false; }
                    if (w < 0xDC00 || w > 0xDFFF) { return fail(STRING_ERROR); }
                    v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                }
                else if (v >= 0xDC00 && v <= 0xDFFF) { return fail(STRING_ERROR); }
                utf8(o, v);
                break;
            }
            default: return fail(STRING_ERROR);
            }
        }
        return fail(UNCLOSED_STRING);
    }
    bool num(Node& n)
    {
        const char* s = p;
        if (p < e && *p == '-') { ++p; }
        if (p >= e || *p < '0' || *p > '9') { return fail(NUMBER_ERROR); }
        if (*p == '0') { ++p; }
        else
        {
            while (p < e && *p >= '0' && *p <= '9') { ++p; }
        }
        bool flt = false;
        if (p < e && *p == '.')
        {
            flt = true;
            ++p;
            if (p >= e || *p < '0' || *p > '9') { return fail(NUMBER_ERROR); }
            while (p < e && *p >= '0' && *p <= '9') { ++p; }
        }
        if (p < e && (*p == 'e' || *p == 'E'))
        {
            flt = true;
            ++p;
            if (p < e && (*p == '+' || *p == '-')) { ++p; }
            if (p >= e || *p < '0' || *p > '9') { return fail(NUMBER_ERROR); }
            while (p < e && *p >= '0' && *p <= '9') { ++p; }
        }
        if (p < e && *p != ' ' && *p != '\t' && *p != '\n' && *p != '\r' && *p != ',' && *p != ']' && *p != '}') { return fail(NUMBER_ERROR); }
        if (!flt)
        {
            auto r = std::from_chars(s, p, n.i);
            if (r.ec == std::errc() && r.ptr == p)
            {
                n.type = element_type::INT64;
                return true;
            }
            auto r2 = std::from_chars(s, p, n.u);
            if (r2.ec == std::errc() && r2.ptr == p)
            {
                n.type = element_type::UINT64;
                return true;
            }
            return fail(BIGINT_ERROR);
        }
        auto r = std::from_chars(s, p, n.d);
        if (r.ec == std::errc::result_out_of_range)
        {
            n.d = std::strtod(std::string(s, p).c_str(), nullptr);
            if (n.d > 1.7976931348623157e308 || n.d < -1.7976931348623157e308) { return fail(NUMBER_ERROR); }
        }
        n.type = element_type::DOUBLE;
        return true;
    }
    bool val(Node& n, int depth)
    {
        if (depth > 1024) { return fail(DEPTH_ERROR); }
        ws();
        if (p >= e) { return fail(TAPE_ERROR); }
        switch (*p)
        {
        case '{':
            n.type = element_type::OBJECT;
            ++p;
            ws();
            if (p < e && *p == '}')
            {
                ++p;
                return true;
            }
            for (;;)
            {
                ws();
                if (p >= e || *p != '"') { return fail(TAPE_ERROR); }
                n.o.emplace_back();
                if (!str(n.o.back().first)) { return false; }
                ws();
                if (p >= e || *p != ':') { return fail(TAPE_ERROR); }
                ++p;
                Node child;
                if (!val(child, depth + 1)) { return false; }
                n.o.back().second = std::move(child);
                ws();
                if (p < e && *p == ',')
                {
                    ++p;
                    continue;
                }
                if (p < e && *p == '}')
                {
                    ++p;
                    return true;
                }
                return fail(TAPE_ERROR);
            }
        case '[':
            n.type = element_type::ARRAY;
            ++p;
            ws();
            if (p < e && *p == ']')
            {
                ++p;
                return true;
            }
            for (;;)
            {
                Node child;
                if (!val(child, depth + 1)) { return false; }
                n.a.push_back(std::move(child));
                ws();
                if (p < e && *p == ',')
                {
                    ++p;
                    continue;
                }
                if (p < e && *p == ']')
                {
                    ++p;
                    return true;
                }
                return fail(TAPE_ERROR);
            }
        case '"': n.type = element_type::STRING; return str(n.s);
        case 't':
            n.type = element_type::BOOL;
            n.b = true;
            return lit("true", T_ATOM_ERROR);
        case 'f': n.type = element_type::BOOL; return lit("false", F_ATOM_ERROR);
        case 'n': n.type = element_type::NULL_VALUE; return lit("null", N_ATOM_ERROR);
        default: return num(n);
        }
    }
};
} // namespace detail

class parser
{
    std::unique_ptr<Node> root_;
    std::string copy_;

  public:
    parser() = default;
    explicit parser(size_t) {}
    parser(parser&&) = default;
    simdjson_result<element> parse(const char* d, size_t n, bool = true)
    {
        root_ = std::make_unique<Node>();
        detail::Parser ps{d, d + n};
        ps.ws();
        if (ps.p >= ps.e) { return EMPTY; }
        if (!ps.val(*root_, 0)) { return ps.err; }
        ps.ws();
        if (ps.p != ps.e) { return TAPE_ERROR; }
        return element(root_.get());
    }
    simdjson_result<element> parse(std::string_view s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(const std::string& s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(const char* s) { return parse(s, std::strlen(s)); }
    simdjson_result<element> parse(const padded_string& s) { return parse(s.data(), s.size()); }
    simdjson_result<element> load(const std::string& path)
    {
        padded_string s;
        const error_code e = padded_string::load(path).get(s);
        if (e) { return e; }
        return parse(s);
    }
};
} // namespace dom

using padded_string_view = std::string_view;
} // namespace simdjson
