// Stand-in for cpp-netlib/uri, which this sandbox does not have: lets the language server's sources compile.
// Only "scheme://authority/path" with percent encoding; no property is decided on it.
#pragma once
#include <stdexcept>
#include <string>
#include <string_view>
namespace network {
struct string_view : std::string_view
{
    using std::string_view::string_view;
    string_view(std::string_view v) : std::string_view(v) {}
    std::string to_string() const { return std::string(begin(), end()); }
};
struct uri_syntax_error : std::runtime_error { uri_syntax_error() : std::runtime_error("uri") {} };
class uri
{
    std::string s, sch, auth, pth;
    bool ha = false;
public:
    explicit uri(std::string v) : s(std::move(v))
    {
        auto c = s.find(':');
        if (c == s.npos) throw uri_syntax_error();
        sch = s.substr(0, c);
        std::string r = s.substr(c + 1);
        if (r.substr(0, 2) == "//")
        {
            ha = true;
            r = r.substr(2);
            auto p = r.find('/');
            auth = r.substr(0, p);
            r = p == r.npos ? std::string() : r.substr(p);
        }
        pth = r.substr(0, r.find_first_of("?#"));
    }
    string_view scheme() const { return std::string_view(sch); }
    string_view path() const { return std::string_view(pth); }
    string_view authority() const { return std::string_view(auth); }
    bool has_path() const { return !pth.empty(); }
    bool has_authority() const { return ha; }
    std::string string() const { return s; }
};
namespace detail {
inline int hexv(char c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
inline std::string decode(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0)
            r += (char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2])), i += 2;
        else
            r += s[i];
    return r;
}
template<class O>
void encode_char(char c, O& out, const char* ignore)
{
    if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || std::string_view("-._~").find(c) != std::string_view::npos
        || std::string_view(ignore).find(c) != std::string_view::npos)
        *out++ = c;
    else
    {
        *out++ = '%';
        *out++ = "0123456789ABCDEF"[(unsigned char)c >> 4];
        *out++ = "0123456789ABCDEF"[c & 15];
    }
}
} // namespace detail
} // namespace network
