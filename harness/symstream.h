// operator>> and getline of libstdc++ are compiled into the shared library; these are their definitions (istream-string.cc),
// compiled here so that they are executed symbolically.
#pragma once
#include <istream>
#include <string>
namespace std {
template<>
basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& str)
{
    size_t extracted = 0;
    ios_base::iostate err = ios_base::goodbit;
    basic_istream<char>::sentry cerb(in, false);
    if (cerb)
    {
        str.erase();
        const streamsize w = in.width();
        const size_t n = w > 0 ? (size_t)w : str.max_size();
        const auto& ct = use_facet<ctype<char>>(in.getloc());
        auto* sb = in.rdbuf();
        int c = sb->sgetc();
        while (extracted < n && c != -1 && !ct.is(ctype_base::space, (char)c))
        {
            str += (char)c;
            ++extracted;
            c = sb->snextc();
        }
        if (extracted < n && c == -1)
            err |= ios_base::eofbit;
        in.width(0);
    }
    if (!extracted)
        err |= ios_base::failbit;
    if (err)
        in.setstate(err);
    return in;
}
template<>
basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& str, char delim)
{
    size_t extracted = 0;
    ios_base::iostate err = ios_base::goodbit;
    basic_istream<char>::sentry cerb(in, true);
    if (cerb)
    {
        str.erase();
        auto* sb = in.rdbuf();
        int c = sb->sgetc();
        while (c != -1 && (char)c != delim)
        {
            str += (char)c;
            ++extracted;
            c = sb->snextc();
        }
        if (c == -1)
            err |= ios_base::eofbit;
        else
        {
            ++extracted;
            sb->sbumpc();
        }
    }
    if (!extracted)
        err |= ios_base::failbit;
    if (err)
        in.setstate(err);
    return in;
}
} // namespace std
