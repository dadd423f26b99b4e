// P24 (1): the language server's side of the protocol: every request is answered once, whatever is received.
#include <map>

#include "asm.h"
#include "lsp/lsp_server.h"
#include "nolog.h"
#include "lib_config.h"
#include "workspace_manager.h"
using namespace hlasm_plugin;
using namespace hlasm_plugin::language_server;
namespace pl = hlasm_plugin::parser_library;
#ifndef ND
#    define ND 1
#endif
struct wsm : pl::workspace_manager
{
    std::string uri;
    pl::position pos { 0, 0 };
    int calls = 0, configs = 0, changes = 0, opens = 0;
    int64_t limit = -1;
    char trigger = 0;
    std::string text;
    std::vector<std::pair<std::string, pl::range>> ch;
    std::vector<bool> whole;
    pl::position_uri definition(const char* u, pl::position p) override
    {
        ++calls, uri = u, pos = p;
        return pl::workspace_manager::definition(u, p);
    }
    pl::position_uri_list references(const char* u, pl::position p) override
    {
        ++calls, uri = u, pos = p;
        return pl::workspace_manager::references(u, p);
    }
    std::string_view hover(const char* u, pl::position p) override
    {
        ++calls, uri = u, pos = p;
        return "text";
    }
    pl::completion_list completion(const char* u, pl::position p, char t, pl::completion_trigger_kind k) override
    {
        ++calls, uri = u, pos = p, trigger = t;
        return pl::workspace_manager::completion(u, p, t, k);
    }
    void did_open_file(const char* u, pl::version_t, const char* t, size_t n) override { ++opens, uri = u, text.assign(t, n); }
    void did_change_file(const char* u, pl::version_t, const pl::document_change* c, size_t n) override
    {
        ++changes, uri = u;
        for (size_t i = 0; i < n; ++i)
            ch.emplace_back(std::string(c[i].text, c[i].text_length), c[i].change_range), whole.push_back(c[i].whole);
    }
    void did_close_file(const char*) override {}
    void configuration_changed(const pl::lib_config& c) override
    {
        ++configs;
        limit = c.diag_supress_limit.value_or(-1);
    }
};
struct out : send_message_provider
{
    std::vector<json> sent;
    std::map<std::string, json> shown; // what the client shows per document
    void reply(const json& j) override
    {
        sent.push_back(j);
        if (j.count("method") && j["method"] == "textDocument/publishDiagnostics")
            shown[j["params"]["uri"].get<std::string>()] = j["params"]["diagnostics"];
    }
    std::vector<json> answers() const
    {
        std::vector<json> r;
        for (auto& j : sent)
            if (!j.count("method"))
                r.push_back(j);
        return r;
    }
};
static wsm* W;
static out* O;
static lsp::server* S;
static const char POS[] = "\"textDocument\":{\"uri\":\"file:///w/f\"},\"position\":{\"line\":1,\"character\":2}";
static std::string request(const char* m, const std::string& params) { return std::string("{\"jsonrpc\":\"2.0\",\"id\":7,\"method\":\"") + m + "\",\"params\":{" + params + "}}"; }
static std::string notification(const char* m, const std::string& params) { return std::string("{\"jsonrpc\":\"2.0\",\"method\":\"") + m + "\",\"params\":{" + params + "}}"; }
static std::vector<json>* M;
static std::vector<std::vector<json::json_pointer>>* PATHS;
static std::vector<json>* BAD;
static void walk(const json& j, const json::json_pointer& at, std::vector<json::json_pointer>& r)
{
    if (j.is_object())
        for (auto& [k, v] : j.items())
            r.push_back(at / k), walk(v, at / k, r);
    else if (j.is_array())
        for (size_t i = 0; i < j.size(); ++i)
            r.push_back(at / i), walk(j[i], at / i, r);
}
static bool received(const json& m)
{
    try
    {
        S->message_received(m);
        return true;
    }
    catch (...)
    {
        return false;
    }
}
extern "C" void sx_setup()
{
    W = new wsm;
    O = new out;
    S = new lsp::server(*W);
    S->set_send_message_provider(O);
    M = new std::vector<json>;
    std::string init = "\"processId\":1,\"rootUri\":\"file:///w\",\"rootPath\":null,\"capabilities\":{\"workspace\":{\"workspaceFolders\":true}},\"workspaceFolders\":[{\"name\":\"w\",\"uri\":\"file:///w\"}]";
    for (auto& t : { request("textDocument/definition", POS), request("textDocument/references", POS), request("textDocument/hover", POS),
             request("textDocument/completion", std::string(POS) + ",\"context\":{\"triggerKind\":2,\"triggerCharacter\":\"&\"}"),
             request("textDocument/semanticTokens/full", "\"textDocument\":{\"uri\":\"file:///w/f\"}"), request("initialize", init), request("shutdown", ""), notification("exit", ""),
             notification("textDocument/didOpen", "\"textDocument\":{\"uri\":\"file:///w/f\",\"version\":1,\"text\":\"A\"}"),
             notification("textDocument/didChange",
                 "\"textDocument\":{\"uri\":\"file:///w/f\",\"version\":2},\"contentChanges\":[{\"range\":{\"start\":{\"line\":0,\"character\":0},\"end\":{\"line\":0,\"character\":1}},\"text\":\"A\"},{\"text\":\"A\"}]"),
             notification("textDocument/didClose", "\"textDocument\":{\"uri\":\"file:///w/f\"}"),
             notification("workspace/didChangeWorkspaceFolders", "\"event\":{\"added\":[{\"name\":\"v\",\"uri\":\"file:///v\"}],\"removed\":[{\"name\":\"w\",\"uri\":\"file:///w\"}]}"),
             notification("workspace/didChangeWatchedFiles", "\"changes\":[{\"uri\":\"file:///w/f\",\"type\":2}]"), notification("workspace/didChangeConfiguration", "\"settings\":{}"),
             std::string("{\"jsonrpc\":\"2.0\",\"id\":\"config_request_0\",\"result\":[{\"diagnosticsSuppressLimit\":5}]}"), std::string("{\"jsonrpc\":\"2.0\",\"id\":\"config_request_0\",\"error\":{\"code\":1,\"message\":\"m\"}}"),
             request("unknown/method", POS), notification("$/unknown", POS) })
        M->push_back(json::parse(t));
    PATHS = new std::vector<std::vector<json::json_pointer>>;
    for (auto& m : *M)
    {
        std::vector<json::json_pointer> p;
        walk(m, json::json_pointer(), p);
        PATHS->push_back(p);
    }
    BAD = new std::vector<json> { nullptr, 5, -1, "", "x", json::array(), json::object(), true, json::array({ 1 }), json::parse("{\"a\":1}"), json::parse("[{}]") };
    received((*M)[5]); // initialize
    received((*M)[13]); // one configuration request is under way
    O->sent.clear();
}
static std::string hover_is_answered()
{
    O->sent.clear();
    json h = (*M)[2];
    h["id"] = "last";
    if (!received(h))
        return "thrown";
    auto a = O->answers();
    return a.size() == 1 && a[0]["id"] == "last" && a[0].count("result") && a[0]["result"]["contents"]["value"] == "text" ? "" : "no";
}
// any message with ND parts missing or of another kind
static void malformed()
{
    unsigned k = sx::choose("message", (unsigned)M->size());
    json m = (*M)[k];
    std::string what;
    for (int i = 0; i < ND; ++i)
    {
        auto& p = (*PATHS)[k];
        unsigned at = sx::choose("part", (unsigned)p.size() + 1);
        if (at == p.size())
        {
            if (i == 0)
            {
                unsigned b = sx::choose("whole", (unsigned)BAD->size() + 1);
                if (b < BAD->size())
                    m = (*BAD)[b];
            }
            break;
        }
        if (!m.contains(p[at]))
            continue;
        unsigned b = sx::choose("replacement", (unsigned)BAD->size() + 1);
        if (b < BAD->size())
            m[p[at]] = (*BAD)[b];
        else
        {
            auto& par = m[p[at].parent_pointer()];
            if (par.is_object())
                par.erase(p[at].back());
            else if (par.is_array())
                par.erase(par.begin() + std::stoul(p[at].back()));
        }
    }
    sx::note("message", m.dump());
    sx::check(received(m), "no message makes the server fail");
    auto a = O->answers();
    bool is_response = m.is_object() && (m.count("result") || m.count("error"));
    bool has_id = m.is_object() && m.count("id") && !m["id"].is_null();
    bool has_method = m.is_object() && m.count("method") && m["method"].is_string();
    if (has_id && has_method && !is_response)
    {
        sx::check(a.size() == 1, "every request is answered exactly once");
        if (a.size() == 1)
        {
            sx::check(a[0]["id"] == m["id"], "an answer carries the id of its request");
            sx::check(a[0].count("result") + a[0].count("error") == 1, "an answer has a result or an error");
            sx::check(a[0]["jsonrpc"] == "2.0", "an answer names the protocol");
            if (m["method"] != (*M)[k]["method"])
                sx::check(a[0].count("error"), "an unknown method is answered with an error");
        }
        sx::cover("request");
    }
    else
    {
        sx::check(a.size() <= (m.is_object() && !is_response), "nothing is answered twice and answers are not answered");
        sx::cover("no request");
    }
    if (has_method && !is_response && m["method"] == "shutdown")
        sx::check(S->is_shutdown_request_received(), "shutdown is noticed, with and without parameters");
    if (has_method && !is_response && m["method"] == "exit" && !has_id)
        sx::check(S->is_exit_notification_received(), "exit is noticed, with and without parameters");
    auto r = hover_is_answered();
    sx::check(r.empty(), "the requests behind any message are answered");
}
static json number(unsigned v) { return json((json::number_unsigned_t)v); }
// valid requests: the position reaches the analysis and the answer the client
static void valid()
{
    unsigned k = sx::choose("request", 5);
    json m = (*M)[k];
    unsigned l = sx::any<unsigned>("line"), c = sx::any<unsigned>("character");
    sx::assume(l < 0x80000000u && c < 0x80000000u);
    if (k < 4)
    {
        m["params"]["position"]["line"] = number(l);
        m["params"]["position"]["character"] = number(c);
    }
    unsigned idk = sx::choose("id", 3);
    if (idk == 0)
        m["id"] = number(sx::any<unsigned>("number"));
    else if (idk == 1)
        m["id"] = sx::str("string", 1);
    else
        m["id"] = -1;
    unsigned ctx = 0;
    char t = '&';
    if (k == 3)
    {
        ctx = sx::choose("context", 3);
        if (ctx == 1)
            m["params"].erase("context");
        else if (ctx == 2)
            m["params"]["context"] = json { { "triggerKind", 1 } };
        else
        {
            t = (char)sx::byte_in("trigger", 0x20, 0x7e);
            m["params"]["context"]["triggerCharacter"] = std::string(1, t);
        }
    }
    sx::check(received(m), "a valid request does not fail");
    auto a = O->answers();
    sx::check(a.size() == 1 && a[0].count("result") && !a[0].count("error"), "a valid request is answered with a result, once");
    if (a.size() != 1 || !a[0].count("result"))
        return;
    sx::check(a[0]["id"] == m["id"], "an answer carries the id of its request");
    if (k == 4)
    {
        sx::check(a[0]["result"]["data"].is_array(), "tokens");
        return;
    }
    sx::check(W->calls == 1 && W->uri == "/w/f", "the request names its document");
    sx::check(W->pos.line == l && W->pos.column == c, "the request names its position");
    if (k == 3)
        sx::check(W->trigger == (ctx ? '\0' : t), "the trigger character is passed on");
    if (k == 0)
    {
        auto& r = a[0]["result"];
        sx::check(r["uri"] == "file:///w/f", "the answer names the document");
        sx::check(r["range"]["start"]["line"].get<size_t>() == l && r["range"]["start"]["character"].get<size_t>() == c, "the answer names the place");
    }
    sx::cover("valid");
}
// documents reach the analysis as they are
static void documents()
{
    if (sx::choose("open", 2))
    {
        json m = (*M)[8];
        std::string t = sx::str("text", 2);
        for (char x : t)
            sx::assume((unsigned char)x < 0x80);
        m["params"]["textDocument"]["text"] = t;
        sx::check(received(m) && W->opens == 1 && W->uri == "/w/f" && W->text == t, "the text of an opened document is passed on");
    }
    else
    {
        json m = (*M)[9];
        unsigned n = sx::choose("changes", 4);
        json c = json::array();
        std::vector<std::string> ts;
        std::vector<std::array<unsigned, 4>> rs;
        std::vector<bool> wh;
        for (unsigned i = 0; i < n; ++i)
        {
            std::string t = sx::str("text", sx::choose("length", 2));
            for (char x : t)
                sx::assume((unsigned char)x < 0x80);
            bool w = sx::choose("whole", 2);
            std::array<unsigned, 4> r {};
            json j { { "text", t } };
            if (!w)
            {
                for (auto& x : r)
                    x = sx::any<unsigned>("range");
                j["range"] = json { { "start", { { "line", number(r[0]) }, { "character", number(r[1]) } } }, { "end", { { "line", number(r[2]) }, { "character", number(r[3]) } } } };
            }
            ts.push_back(t), rs.push_back(r), wh.push_back(w);
            c.push_back(j);
        }
        m["params"]["contentChanges"] = c;
        sx::check(received(m) && W->changes == 1 && W->uri == "/w/f" && W->ch.size() == n, "every change is passed on");
        for (unsigned i = 0; i < n && W->ch.size() == n; ++i)
        {
            sx::check(W->ch[i].first == ts[i] && W->whole[i] == wh[i], "the text of a change");
            if (!wh[i])
            {
                auto& r = W->ch[i].second;
                sx::check(r.start.line == rs[i][0] && r.start.column == rs[i][1] && r.end.line == rs[i][2] && r.end.column == rs[i][3], "the range of a change");
            }
        }
    }
    sx::check(O->answers().empty(), "notifications are not answered");
    sx::cover("documents");
}
// answers to the server's own requests are taken once
static void responses()
{
    json m = (*M)[14];
    int v = sx::any<int>("limit");
    m["result"][0]["diagnosticsSuppressLimit"] = v;
    unsigned before = sx::choose("before", 3);
    if (before == 1)
        received((*M)[15]);
    if (before == 2)
    {
        json o = m;
        o["id"] = "another";
        received(o);
        sx::check(W->configs == 0, "an answer to no request is ignored");
    }
    sx::check(received(m), "an answer does not fail");
    sx::check(W->configs == 1 && W->limit == (v < 0 ? 0 : v), "the configuration is passed on");
    received(m);
    sx::check(W->configs == 1, "an answer is taken once");
    sx::check(O->answers().empty(), "answers are not answered");
    sx::cover("responses");
}
// the client always shows exactly the present diagnostics
static void diagnostics()
{
    static const char* const files[] = { "/w/f", "/w/g" };
    for (int round = 0; round < 3; ++round)
    {
        std::vector<pl::diagnostic_s> ds;
        std::map<std::string, std::vector<unsigned>> want;
        for (auto f : files)
        {
            unsigned n = sx::choose("number", 3);
            for (unsigned i = 0; i < n; ++i)
            {
                unsigned l = sx::any<unsigned char>("line");
                ds.emplace_back(f, pl::range { { l, 1 }, { l, 2 } }, pl::diagnostic_severity::error, "C", "M", std::vector<pl::diagnostic_related_info_s> {});
                want[std::string("file://") + f].push_back(l);
            }
        }
        static_cast<pl::diagnostics_consumer*>(S)->consume_diagnostics(pl::diagnostic_list(ds.data(), ds.size()));
        for (auto f : files)
        {
            std::string u = std::string("file://") + f;
            auto& w = want[u];
            json s = O->shown.count(u) ? O->shown[u] : json::array();
            sx::check(s.size() == w.size(), "the client shows all present diagnostics and no other");
            for (size_t i = 0; i < w.size() && i < s.size(); ++i)
                sx::check(s[i]["range"]["start"]["line"].get<unsigned>() == w[i] && s[i]["code"] == "C" && s[i]["message"] == "M" && s[i]["severity"] == 1, "a diagnostic reaches the client as it is");
        }
    }
    sx::cover("diagnostics");
}
extern "C" void sx_main()
{
#ifdef PART
    switch (PART)
#else
    switch (sx::choose("part", 5))
#endif
    {
        case 0: return malformed();
        case 1: return valid();
        case 2: return documents();
        case 3: return responses();
        case 4: return diagnostics();
    }
}
