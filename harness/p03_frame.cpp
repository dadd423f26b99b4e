// P03: framing of messages.  write -> read round trips, other headers, chunked and truncated input, ill-formed bodies.
#include <sstream>

#include "base_protocol_channel.h"
#include "nolog.h"
#include "stream_helper.h"
#include "symstream.h"
#include "sx.h"
using namespace hlasm_plugin::language_server;
using json = nlohmann::json;

#ifndef NB
#    define NB 3
#endif
// a stream buffer that hands the bytes out in chunks, as a pipe does
struct chunked : std::streambuf
{
    std::string d;
    size_t pos = 0, chunk;
    chunked(std::string s, size_t c) : d(std::move(s)), chunk(c) {}
    int_type underflow() override
    {
        if (pos >= d.size())
            return traits_type::eof();
        size_t n = std::min(chunk, d.size() - pos);
        setg(d.data() + pos, d.data() + pos, d.data() + pos + n);
        pos += n;
        return traits_type::to_int_type(*gptr());
    }
};
struct reader
{
    chunked b;
    std::istream in;
    std::ostringstream out;
    base_protocol_channel ch;
    reader(std::string s, size_t c = 1000) : b(std::move(s), c), in(&b), ch(in, out) { newline_is_space::imbue_stream(in); }
};
static bool utf8(const std::string& s)
{
    size_t i = 0;
    while (i < s.size())
    {
        unsigned char c = s[i];
        int n;
        if (c < 0x80) n = 0;
        else if (c >= 0xc2 && c <= 0xdf) n = 1;
        else if (c >= 0xe1 && c <= 0xec) n = 2;
        else return false;
        if (i + n >= s.size()) return false;
        for (int k = 1; k <= n; ++k)
            if (((unsigned char)s[i + k] & 0xc0) != 0x80) return false;
        i += n + 1;
    }
    return true;
}
static std::string frame(const std::string& body) { return "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; }

extern "C" void sx_setup()
{
    json::parse("{\"a\":[1,\"x\",true,null,1.5]}").dump();
    reader r(frame("{}"));
    r.ch.read();
}
// two messages written by one channel are read by another
static void roundtrip()
{
    std::string s = sx::str("s", NB);
    sx::assume(utf8(s));
    unsigned sh = sx::choose("shape", 3);
    json m = sh == 0 ? json(s) : sh == 1 ? json { { "method", s }, { "id", 7 } } : json { { s, json::array({ 1, s }) } };
    std::ostringstream o;
    std::istringstream none;
    base_protocol_channel w(none, o);
    w.write(m);
    json m2 = { { "method", "x\ny" }, { "params", { { "text", "Content-Length: 3\r\n\r\n" } } } };
    w.write(json(m2));
    reader r(o.str(), sx::choose("chunk", 2) ? 1000 : 3);
    auto a = r.ch.read();
    auto b = r.ch.read();
    sx::check(a && *a == m, "the first message arrives as written");
    sx::check(b && *b == m2, "the second message arrives as written");
    sx::check(!r.ch.read(), "nothing else arrives");
    sx::cover("round trip");
}
// other headers before and after the length
static void headers()
{
    std::string h = sx::str("header", NB);
    for (char c : h)
        sx::assume((c != '\n') & (c != '\r'));
    unsigned where = sx::choose("where", 3);
    unsigned kind = sx::choose("kind", 3);
    std::string hd = (kind == 0 ? "X: " + h : kind == 1 ? h + "Content-Length: 1" : "Content-Type" + h) + "\r\n";
    if (kind == 1)
    { // another name that ends like it
        sx::assume(h.size() > 0);
    }
    std::string body = "{\"k\":\"\n\r\n\"}";
    body = "[1,\n 2,\r\n\r\n3]";
    std::string text = (where & 1 ? "" : hd) + "Content-Length: " + std::to_string(body.size()) + "\r\n" + (where ? hd : "") + "\r\n" + body + frame("true");
    reader r(text, sx::choose("chunk", 2) ? 1000 : 4);
    auto a = r.ch.read();
    auto b = r.ch.read();
    sx::check(a && *a == json::parse(body), "a message with other headers is read");
    sx::check(b && *b == json(true), "and the one behind it");
    sx::cover("other headers");
}
// a body that is not JSON is skipped, the next message is read
static void bad_body()
{
    std::string bd = sx::str("body", NB);
    unsigned pre = sx::choose("pre", 4);
    static const char* const P[] = { "", "{\"a\":", "[\"", "-1" };
    std::string body = P[pre] + bd;
    bool ok = json::accept(body);
    reader r(frame(body) + frame("{\"id\":1}"));
    auto a = r.ch.read();
    json next = { { "id", 1 } };
    if (ok)
    {
        sx::check(a && *a == json::parse(body), "a JSON body is read as it is");
        a = r.ch.read();
        sx::cover("JSON body");
    }
    else
        sx::cover("not JSON");
    sx::check(a && *a == next, "the message behind a body that is not JSON is read");
    sx::check(!r.ch.read(), "nothing else arrives");
}
// the input ends anywhere
static void truncated()
{
    std::string bd = sx::str("body", 2);
    for (char c : bd)
        sx::assume((c >= ' ') & (c < 127) & (c != '"') & (c != '\\'));
    std::string t = frame("\"" + bd + "\"");
    unsigned cut = sx::choose("cut", t.size() - 1);
    reader r(frame("1") + t.substr(0, cut), 1000);
    auto a = r.ch.read();
    sx::check(a && *a == json(1), "the complete message is read");
    sx::check(!r.ch.read(), "a truncated message is not delivered");
    sx::cover("truncated");
}
// any bytes at all: reading ends, nothing is invented
static void garbage()
{
    std::string g = sx::str("bytes", NB + 1);
    unsigned k = sx::choose("form", 4);
    std::string t = k == 0 ? g : k == 1 ? "Content-Length: " + g : k == 2 ? "Content-Length: 2" + g + "[]" : "Content-Length: 5\r\n" + g + "12345";
    if (k == 2)
        for (int i = 0; i < 1; ++i)
            sx::assume((g[0] < '0') | (g[0] > '9'));
    reader r(t);
    int n = 0;
    while (n < 10 && r.ch.read())
        ++n;
    sx::check(n <= 1, "no more messages than there can be");
    sx::check(k != 0 || n == 0, "a few bytes are no message");
    sx::cover("any bytes");
}
extern "C" void sx_main()
{
    switch (sx::choose("case", 5))
    {
        case 0: return roundtrip();
        case 1: return headers();
        case 2: return bad_body();
        case 3: return truncated();
        case 4: return garbage();
    }
}
