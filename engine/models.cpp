// Library code that the project hands its text to and that exists here only as a binary without the pass: the UTF-8
// conversions of libstdc++ (std::codecvt_utf8<char32_t>) and of the ANTLR runtime, and ANTLR's character stream.
// Written after the libraries' documented behaviour, compared with the binaries by selftest/models_native.cpp, compiled
// with the pass and interposed over the library's symbols.
#ifndef SX_MODELS_NATIVE
#    include <codecvt>
#    include <istream>
#    include <locale>
#    include <ostream>
#    include <sstream>
#    include <cstring>

#    include "ANTLRInputStream.h"
#    include "Exceptions.h"
#    include "support/Utf8.h"
#endif
#include <optional>
#include <string>
#include <string_view>

namespace sxm {
constexpr char32_t incomplete = char32_t(-2), invalid = char32_t(-1);
inline char32_t read_cp(const char*& from, const char* end, char32_t maxcode)
{
    size_t avail = end - from;
    if (avail == 0)
        return incomplete;
    unsigned char c1 = from[0];
    if (c1 < 0x80)
    {
        ++from;
        return c1;
    }
    if (c1 < 0xC2)
        return invalid;
    if (c1 < 0xE0)
    {
        if (avail < 2)
            return incomplete;
        unsigned char c2 = from[1];
        if ((c2 & 0xC0) != 0x80)
            return invalid;
        char32_t c = (c1 << 6) + c2 - 0x3080;
        if (c <= maxcode)
            from += 2;
        return c;
    }
    if (c1 < 0xF0)
    {
        if (avail < 2)
            return incomplete;
        unsigned char c2 = from[1];
        if ((c2 & 0xC0) != 0x80)
            return invalid;
        if (c1 == 0xE0 && c2 < 0xA0)
            return invalid;
        if (c1 == 0xED && c2 >= 0xA0)
            return invalid;
        if (avail < 3)
            return incomplete;
        unsigned char c3 = from[2];
        if ((c3 & 0xC0) != 0x80)
            return invalid;
        char32_t c = (c1 << 12) + (c2 << 6) + c3 - 0xE2080;
        if (c <= maxcode)
            from += 3;
        return c;
    }
    if (c1 < 0xF5 && maxcode > 0xFFFF)
    {
        if (avail < 2)
            return incomplete;
        unsigned char c2 = from[1];
        if ((c2 & 0xC0) != 0x80)
            return invalid;
        if (c1 == 0xF0 && c2 < 0x90)
            return invalid;
        if (c1 == 0xF4 && c2 >= 0x90)
            return invalid;
        if (avail < 3)
            return incomplete;
        unsigned char c3 = from[2];
        if ((c3 & 0xC0) != 0x80)
            return invalid;
        if (avail < 4)
            return incomplete;
        unsigned char c4 = from[3];
        if ((c4 & 0xC0) != 0x80)
            return invalid;
        char32_t c = (c1 << 18) + (c2 << 12) + (c3 << 6) + c4 - 0x3C82080;
        if (c <= maxcode)
            from += 4;
        return c;
    }
    return invalid;
}
inline bool write_cp(char*& to, char* end, char32_t c)
{
    size_t room = end - to;
    if (c < 0x80)
    {
        if (room < 1)
            return false;
        *to++ = (char)c;
    }
    else if (c <= 0x7FF)
    {
        if (room < 2)
            return false;
        *to++ = (char)((c >> 6) + 0xC0);
        *to++ = (char)((c & 0x3F) + 0x80);
    }
    else if (c <= 0xFFFF)
    {
        if (room < 3)
            return false;
        *to++ = (char)((c >> 12) + 0xE0);
        *to++ = (char)(((c >> 6) & 0x3F) + 0x80);
        *to++ = (char)((c & 0x3F) + 0x80);
    }
    else if (c <= 0x10FFFF)
    {
        if (room < 4)
            return false;
        *to++ = (char)((c >> 18) + 0xF0);
        *to++ = (char)(((c >> 12) & 0x3F) + 0x80);
        *to++ = (char)(((c >> 6) & 0x3F) + 0x80);
        *to++ = (char)((c & 0x3F) + 0x80);
    }
    else
        return false;
    return true;
}
// 0 ok, 1 partial, 2 error
inline int ucs4_in(const char*& from, const char* fend, char32_t*& to, char32_t* tend, char32_t maxcode)
{
    while (from != fend && to != tend)
    {
        char32_t c = read_cp(from, fend, maxcode);
        if (c == incomplete)
            return 1;
        if (c > maxcode)
            return 2;
        *to++ = c;
    }
    return from != fend ? 1 : 0;
}
inline int ucs4_out(const char32_t*& from, const char32_t* fend, char*& to, char* tend, char32_t maxcode)
{
    while (from != fend)
    {
        char32_t c = *from;
        if (0xD800 <= c && c <= 0xDFFF)
            return 2;
        if (c > maxcode)
            return 2;
        if (!write_cp(to, tend, c))
            return 1;
        ++from;
    }
    return 0;
}
// antlrcpp::Utf8::decode
inline std::pair<char32_t, size_t> decode(std::string_view in)
{
    const char* b = in.data();
    char32_t c = read_cp(b, in.data() + in.size(), 0x10FFFF);
    if (c == incomplete || c == invalid || c > 0x10FFFF)
        return { 0xFFFD, 1 };
    return { c, (size_t)(b - in.data()) };
}
} // namespace sxm

#ifndef SX_MODELS_NATIVE
// integers written to a stream ("C" locale): the number facet of libstdc++'s locale object is the library's own, without the pass
namespace sxm {
inline std::ostream& put_int(std::ostream& os, unsigned long v, bool isSigned)
{
    using std::ios_base;
    const auto base = os.flags() & ios_base::basefield;
    const bool neg = isSigned && base != ios_base::hex && base != ios_base::oct && (long)v < 0;
    if (neg)
        v = 0 - v;
    char buf[72];
    int n = 0;
    if (base == ios_base::hex)
        do
        {
            unsigned d = v & 15;
            buf[n++] = (char)('0' + d + (d > 9) * ((os.flags() & ios_base::uppercase) ? 7 : 39));
            v >>= 4;
        } while (v);
    else if (base == ios_base::oct)
        do
        {
            buf[n++] = (char)('0' + (v & 7));
            v >>= 3;
        } while (v);
    else if (v <= 0xffffffffu)
    {
        unsigned x = (unsigned)v;
        do
        {
            buf[n++] = (char)('0' + x % 10);
            x /= 10;
        } while (x);
    }
    else
        do
        {
            buf[n++] = (char)('0' + v % 10);
            v /= 10;
        } while (v);
    std::string r;
    if (neg)
        r.push_back('-');
    else if (isSigned && (os.flags() & ios_base::showpos) && base != ios_base::hex && base != ios_base::oct)
        r.push_back('+');
    while (n)
        r.push_back(buf[--n]);
    if ((os.flags() & ios_base::adjustfield) == ios_base::internal && os.width() > (long)r.size() && (r[0] == '-' || r[0] == '+'))
    {
        r.insert(1, (size_t)os.width() - r.size(), os.fill());
        os.width(0);
    }
    return std::__ostream_insert(os, r.data(), (std::streamsize)r.size());
}
}
extern "C" { // std::ostream::_M_insert<long>, <unsigned long>
std::ostream& _ZNSo9_M_insertIlEERSoT_(std::ostream* os, long v) { return sxm::put_int(*os, (unsigned long)v, true); }
std::ostream& _ZNSo9_M_insertImEERSoT_(std::ostream* os, unsigned long v) { return sxm::put_int(*os, v, false); }
}
// streams over strings and their number formatting, compiled with the pass from libstdc++'s headers
template class std::basic_string<char>;
template class std::basic_streambuf<char>;
template class std::basic_stringbuf<char>;
template class std::basic_ostream<char>;
template class std::basic_istream<char>;
template class std::basic_iostream<char>;
template class std::basic_ostringstream<char>;
template class std::basic_istringstream<char>;
template class std::basic_stringstream<char>;
template class std::num_put<char>;
template class std::num_get<char>;
template std::ostream& std::__ostream_insert<char, std::char_traits<char>>(std::ostream&, const char*, std::streamsize);
template std::ostream& std::endl<char, std::char_traits<char>>(std::ostream&);
template std::istream& std::getline<char, std::char_traits<char>, std::allocator<char>>(std::istream&, std::string&, char);
template std::istream& std::operator>><char, std::char_traits<char>, std::allocator<char>>(std::istream&, std::string&);

extern "C" {
int __sx_rt_main(int, char**, void (*)(), void (*)());
void sx_setup();
void sx_main();
}
int main(int argc, char** argv) { return __sx_rt_main(argc, argv, sx_setup, sx_main); }

namespace std {
codecvt_base::result __codecvt_utf8_base<char32_t>::do_in(mbstate_t&,
    const char* from,
    const char* from_end,
    const char*& from_next,
    char32_t* to,
    char32_t* to_end,
    char32_t*& to_next) const
{
    from_next = from;
    to_next = to;
    int r = sxm::ucs4_in(from_next, from_end, to_next, to_end, 0x10FFFF);
    return r == 0 ? ok : r == 1 ? partial : error;
}
codecvt_base::result __codecvt_utf8_base<char32_t>::do_out(mbstate_t&,
    const char32_t* from,
    const char32_t* from_end,
    const char32_t*& from_next,
    char* to,
    char* to_end,
    char*& to_next) const
{
    from_next = from;
    to_next = to;
    int r = sxm::ucs4_out(from_next, from_end, to_next, to_end, 0x10FFFF);
    return r == 0 ? ok : r == 1 ? partial : error;
}
} // namespace std

namespace antlrcpp {
std::pair<char32_t, size_t> Utf8::decode(std::string_view in) { return sxm::decode(in); }
std::optional<std::u32string> Utf8::strictDecode(std::string_view in)
{
    std::u32string r;
    while (!in.empty())
    {
        auto [c, n] = sxm::decode(in);
        if (c == 0xFFFD && n == 1)
            return std::nullopt;
        r.push_back(c);
        in.remove_prefix(n);
    }
    return r;
}
std::u32string Utf8::lenientDecode(std::string_view in)
{
    std::u32string r;
    while (!in.empty())
    {
        auto [c, n] = sxm::decode(in);
        r.push_back(c);
        in.remove_prefix(n);
    }
    return r;
}
std::string& Utf8::encode(std::string* b, char32_t c)
{
    if ((c >= 0xD800 && c <= 0xDFFF) || c > 0x10FFFF)
        c = 0xFFFD;
    char t[4], *p = t;
    sxm::write_cp(p, t + 4, c);
    return b->append(t, p - t);
}
std::optional<std::string> Utf8::strictEncode(std::u32string_view in)
{
    std::string r;
    for (char32_t c : in)
    {
        if ((c >= 0xD800 && c <= 0xDFFF) || c > 0x10FFFF)
            return std::nullopt;
        encode(&r, c);
    }
    return r;
}
std::string Utf8::lenientEncode(std::u32string_view in)
{
    std::string r;
    for (char32_t c : in)
        encode(&r, c);
    return r;
}
} // namespace antlrcpp

namespace antlr4 {
ANTLRInputStream::ANTLRInputStream() { p = 0; }
ANTLRInputStream::ANTLRInputStream(std::string_view in)
{
    p = 0;
    ANTLRInputStream::load(in.data(), in.size(), false);
}
ANTLRInputStream::ANTLRInputStream(const char* data, size_t length)
{
    p = 0;
    ANTLRInputStream::load(data, length, false);
}
void ANTLRInputStream::reset() { p = 0; }
size_t ANTLRInputStream::index() { return p; }
void ANTLRInputStream::load(const std::string& in, bool lenient) { load(in.data(), in.size(), lenient); }
void ANTLRInputStream::load(const char* data, size_t length, bool lenient)
{
    if (length >= 3 && data[0] == '\xef' && data[1] == '\xbb' && data[2] == '\xbf')
    {
        data += 3;
        length -= 3;
    }
    if (lenient)
        _data = antlrcpp::Utf8::lenientDecode({ data, length });
    else
    {
        auto m = antlrcpp::Utf8::strictDecode({ data, length });
        if (!m)
            throw IllegalArgumentException("UTF-8 string contains an illegal byte sequence");
        _data = std::move(*m);
    }
    p = 0;
}
size_t ANTLRInputStream::LA(ssize_t i)
{
    if (i == 0)
        return 0;
    ssize_t pos = (ssize_t)p;
    if (i < 0)
    {
        ++i;
        if (pos + i - 1 < 0)
            return (size_t)-1;
    }
    if (pos + i - 1 >= (ssize_t)_data.size())
        return (size_t)-1;
    return _data[(size_t)(pos + i - 1)];
}
size_t ANTLRInputStream::LT(ssize_t i) { return LA(i); }
void ANTLRInputStream::consume()
{
    if (p >= _data.size())
        throw IllegalStateException("cannot consume EOF");
    ++p;
}
size_t ANTLRInputStream::size() { return _data.size(); }
void ANTLRInputStream::seek(size_t index)
{
    if (index <= p)
    {
        p = index;
        return;
    }
    index = std::min(index, _data.size());
    while (p < index)
        consume();
}
std::string ANTLRInputStream::getText(const misc::Interval& interval)
{
    if (interval.a < 0 || interval.b < 0)
        return "";
    size_t start = interval.a, stop = interval.b;
    if (stop >= _data.size())
        stop = _data.size() - 1;
    size_t count = stop - start + 1;
    if (start >= _data.size())
        return "";
    auto m = antlrcpp::Utf8::strictEncode(std::u32string_view(_data).substr(start, count));
    if (!m)
        throw IllegalArgumentException("Input stream contains invalid Unicode code points");
    return std::move(*m);
}
} // namespace antlr4
#endif
