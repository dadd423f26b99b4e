// P04: the request queue, the message queue and the channel under every interleaving (bounded preemptions).
#include "fib_impl.h"

#include "base_protocol_channel.h"
#include "dispatcher.h"
#include "json_queue_channel.h"
#include "nolog.h"
#include "request_manager.h"
#include "server.h"
using namespace hlasm_plugin;
using namespace hlasm_plugin::language_server;
#ifndef NREQ
#    define NREQ 2
#endif

// a server that records what it is given
struct rec : server
{
    struct run
    {
        int msg;
        bool cancelled;
    };
    std::vector<run> done;
    int running = 0;
    bool alive = true;
    std::atomic<bool>* cancel;
    std::vector<int>* exits = nullptr;
    rec(std::atomic<bool>* c) : server(*reinterpret_cast<parser_library::workspace_manager*>(64)), cancel(c) {}
    void message_received(const json& m) override
    {
        sx::check(alive, "a server that is gone gets no message");
        sx::check(running == 0, "a server handles one message at a time");
        ++running;
        bool c = cancel && *cancel;
        fib::point("handling");
        c = c || (cancel && *cancel);
        sx::check(alive, "a server exists as long as it handles a message");
        --running;
        int n = -1;
        if (m.is_object() && m.count("n"))
            n = m["n"].get<int>();
        done.push_back({ n, c });
    }
    void request(const json&, const std::string&, const json&, method) override {}
    void respond(const json&, const std::string&, const json&) override {}
    void notify(const std::string&, const json&) override {}
    void respond_error(const json&, const std::string&, int, const std::string&, const json&) override {}
};
struct kind
{
    const char* text;
    char file;
    bool parse;
};
static const kind K[] = {
    { "{\"method\":\"textDocument/didChange\",\"params\":{\"textDocument\":{\"uri\":\"X\"}}}", 'X', true },
    { "{\"method\":\"textDocument/hover\",\"params\":{\"textDocument\":{\"uri\":\"X\"}}}", 'X', false },
    { "{\"method\":\"textDocument/didOpen\",\"params\":{\"textDocument\":{\"uri\":\"Y\"}}}", 'Y', true },
    { "{\"id\":1,\"result\":{}}", 0, false },
};
// messages a client should not send; the queue has to pass them on all the same
static const char* const BAD[] = { "{\"method\":5}", "{\"method\":\"textDocument/x\"}", "{\"method\":\"textDocument/x\",\"params\":[]}",
    "{\"method\":\"textDocument/x\",\"params\":{\"textDocument\":3}}", "{\"method\":\"textDocument/x\",\"params\":{\"textDocument\":{\"uri\":{}}}}", "[]", "7",
    "{\"method\":\"textDocument/x\",\"params\":null}", "{}" };
static json make(unsigned k, int n)
{
    json j = json::parse(K[k].text);
    j["n"] = n;
    return j;
}
static void in_order(const rec& s, const std::vector<int>& want, const char* what)
{
    bool ok = s.done.size() == want.size();
    for (size_t i = 0; ok && i < want.size(); ++i)
        ok = s.done[i].msg == want[i];
    sx::check(ok, what);
}

extern "C" void sx_setup()
{
    for (auto& k : K)
        json::parse(k.text).dump();
}
// one client, one server: everything is handled once and in order; after finishing, the server may go away
static void one_server()
{
    std::atomic<bool> cancel = false;
    auto* s = new rec(&cancel);
    {
        request_manager rm(&cancel);
        std::vector<int> want;
        unsigned ks[NREQ];
        for (int i = 0; i < NREQ; ++i)
        {
            ks[i] = sx::choose("request", 4);
            rm.add_request(s, make(ks[i], i));
            want.push_back(i);
        }
        bool drained = sx::choose("wait until idle", 2);
        if (drained)
        {
            for (int i = 0; i < 30 && s->done.size() < NREQ; ++i)
                std::this_thread::sleep_for(std::chrono::milliseconds(1));
            sx::check(s->done.size() == NREQ, "every request is handled without further events");
            sx::check(!rm.is_running(), "the queue is empty when every request is handled");
            // what was abandoned was superseded
            for (int i = 0; i < NREQ; ++i)
                if (K[ks[i]].parse && s->done[i].cancelled)
                {
                    bool later = false;
                    for (int j = i + 1; j < NREQ; ++j)
                        later = later || (K[ks[j]].parse && K[ks[j]].file == K[ks[i]].file);
                    sx::check(later, "the analysis of a file is abandoned only when a newer version of it was received");
                    sx::cover("superseded");
                }
        }
        rm.finish_server_requests(s);
        in_order(*s, want, "after finishing, every request was handled exactly once and in order");
        sx::check(!rm.is_running(), "after finishing nothing is queued");
        s->alive = false;
        rm.end_worker();
        in_order(*s, want, "ending the worker handles nothing again");
    }
    sx::cover("one server");
}
// two servers share the queue: finishing one leaves the requests of the other alone
static void two_servers()
{
    std::atomic<bool> cancel = false;
    auto *a = new rec(&cancel), *b = new rec(&cancel);
    request_manager rm(&cancel);
    std::vector<int> wa, wb;
    for (int i = 0; i < NREQ + 1; ++i)
    {
        bool to_a = sx::choose("server", 2);
        rm.add_request(to_a ? a : b, make(3, i));
        (to_a ? wa : wb).push_back(i);
    }
    rm.finish_server_requests(a);
    in_order(*a, wa, "after finishing a server, each of its requests was handled exactly once and in order");
    a->alive = false;
    for (int i = 0; i < 30 && b->done.size() < wb.size(); ++i)
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
    in_order(*b, wb, "requests of other servers are not lost when a server finishes");
    rm.finish_server_requests(b);
    b->alive = false;
    rm.end_worker();
    sx::cover("two servers");
}
// the worker ends whatever is queued
static void end_only()
{
    std::atomic<bool> cancel = false;
    auto* s = new rec(&cancel);
    request_manager rm(&cancel);
    int n = sx::choose("n", NREQ + 1);
    for (int i = 0; i < n; ++i)
        rm.add_request(s, make(3, i));
    rm.end_worker();
    s->alive = false;
    bool ok = (int)s->done.size() <= n;
    for (size_t i = 0; i < s->done.size(); ++i)
        ok = ok && s->done[i].msg == (int)i;
    sx::check(ok, "what was handled before the end is a prefix of what was sent");
    sx::cover("end");
}
static void malformed()
{
    std::atomic<bool> cancel = false;
    auto* s = new rec(&cancel);
    request_manager rm(sx::choose("token", 2) ? &cancel : nullptr);
    if (sx::choose("first", 2))
        rm.add_request(s, make(0, 0));
    rm.add_request(s, json::parse(BAD[sx::choose("bad", 9)]));
    rm.add_request(s, make(0, 9));
    rm.finish_server_requests(s);
    sx::check(s->done.size() >= 2 && s->done.back().msg == 9, "malformed messages are passed on and the next ones are handled");
    s->alive = false;
    rm.end_worker();
    sx::cover("malformed");
}
// the dispatcher between the reading thread and the queue, as the program connects them
static void program()
{
    std::atomic<bool> cancel = false;
    json_queue_channel q;
    struct sink : json_sink
    {
        void write(const json&) override {}
        void write(json&&) override {}
    } out;
    auto* s = new rec(&cancel);
    int ret = -1;
    std::thread t([&] {
        request_manager rm(&cancel);
        dispatcher d(json_channel_adapter(q, out), *s, rm);
        ret = d.run_server_loop();
        s->alive = false;
        rm.end_worker();
    });
    int n = NREQ;
    for (int i = 0; i < n; ++i)
        q.write(make(sx::choose("request", 2) * 3, i));
    bool drained = sx::choose("wait until idle", 2);
    if (drained)
    {
        for (int i = 0; i < 30 && (int)s->done.size() < n; ++i)
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        sx::check((int)s->done.size() == n, "every message that was read is handled");
    }
    q.terminate();
    t.join();
    bool ok = (int)s->done.size() <= n;
    for (size_t i = 0; i < s->done.size(); ++i)
        ok = ok && s->done[i].msg == (int)i;
    sx::check(ok, "messages are handled once and in order");
    sx::check(ret == 1, "the end of the input ends the server");
    sx::cover("program");
}
// responses written by two threads do not mix
static void writers()
{
    struct buf : std::streambuf
    {
        std::string s;
        std::streamsize xsputn(const char* p, std::streamsize n) override
        {
            s.append(p, n);
            fib::point("write");
            return n;
        }
        int overflow(int c) override
        {
            s += (char)c;
            return c;
        }
    } b;
    std::ostream o(&b);
    std::istringstream none;
    base_protocol_channel ch(none, o);
    std::thread t([&] { ch.write(json("a")); ch.write(json("c")); });
    ch.write(json(12));
    ch.write(json("d"));
    t.join();
    auto at = [&](const char* x) { return b.s.find(x); };
    size_t x = at("Content-Length: 3\r\n\r\n\"a\""), y = at("Content-Length: 3\r\n\r\n\"c\""), z = at("Content-Length: 2\r\n\r\n12"), w = at("Content-Length: 3\r\n\r\n\"d\"");
    sx::check(x != b.s.npos && y != b.s.npos && z != b.s.npos && w != b.s.npos, "every response is written in one piece");
    sx::check(x < y && z < w, "responses of one thread keep their order");
    sx::check(b.s.size() == 4 * 24 - 1, "nothing else is written");
    sx::cover("writers");
}
extern "C" void sx_main()
{
    unsigned c = sx::choose("case", 6);
    fib::start();
    switch (c)
    {
        case 0: one_server(); break;
        case 1: two_servers(); break;
        case 2: end_only(); break;
        case 3: malformed(); break;
        case 4: program(); break;
        case 5: writers(); break;
    }
    fib::active = false;
}
