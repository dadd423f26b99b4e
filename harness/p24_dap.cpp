// P24 (2): the debug adapter's side of the protocol, before and after a session is initialized (no program is launched).
#include "asm.h"
#include "dap/dap_server.h"
#include "nolog.h"
#include "workspace_manager.h"
using namespace hlasm_plugin;
using namespace hlasm_plugin::language_server;
namespace pl = hlasm_plugin::parser_library;
struct out : send_message_provider
{
    std::vector<json> sent;
    void reply(const json& j) override { sent.push_back(j); }
    std::vector<json> answers() const
    {
        std::vector<json> r;
        for (auto& j : sent)
            if (j["type"] == "response")
                r.push_back(j);
        return r;
    }
};
static pl::workspace_manager* W;
static out* O;
static dap::server* S;
static std::vector<json>* M;
static std::vector<std::vector<json::json_pointer>>* PATHS;
static std::vector<json>* BAD;
static void walk(const json& j, const json::json_pointer& at, std::vector<json::json_pointer>& r)
{
    if (j.is_object())
        for (auto& [k, v] : j.items())
            r.push_back(at / k), walk(v, at / k, r);
    else if (j.is_array())
        for (size_t i = 0; i < j.size(); ++i)
            r.push_back(at / i), walk(j[i], at / i, r);
}
static bool received(const json& m)
{
    try
    {
        S->message_received(m);
        return true;
    }
    catch (...)
    {
        return false;
    }
}
static const char* const COMMANDS[][2] = { { "initialize", "{\"linesStartAt1\":true,\"columnsStartAt1\":true,\"pathFormat\":\"path\"}" }, { "setBreakpoints", "{\"source\":{\"path\":\"p\"},\"breakpoints\":[{\"line\":3}]}" },
    { "setExceptionBreakpoints", "{}" }, { "configurationDone", "{}" }, { "threads", "{}" }, { "stackTrace", "{\"threadId\":1}" }, { "scopes", "{\"frameId\":0}" }, { "next", "{\"threadId\":1}" },
    { "stepIn", "{\"threadId\":1}" }, { "variables", "{\"variablesReference\":1}" }, { "continue", "{\"threadId\":1}" }, { "disconnect", "{}" }, { "unknown", "{}" } };
extern "C" void sx_setup()
{
    W = new pl::workspace_manager;
    O = new out;
    S = new dap::server(*W);
    S->set_send_message_provider(O);
    M = new std::vector<json>;
    PATHS = new std::vector<std::vector<json::json_pointer>>;
    for (auto& c : COMMANDS)
    {
        M->push_back(json::parse(std::string("{\"type\":\"request\",\"seq\":7,\"command\":\"") + c[0] + "\",\"arguments\":" + c[1] + "}"));
        std::vector<json::json_pointer> p;
        walk(M->back(), json::json_pointer(), p);
        PATHS->push_back(p);
    }
    BAD = new std::vector<json> { nullptr, 5, -1, "", "x", json::array(), json::object(), true, json::array({ 1 }), json::parse("{\"a\":1}"), json::parse("[{}]") };
}
static void answered(const json& m, bool valid)
{
    O->sent.clear();
    sx::note("message", m.dump());
    sx::check(received(m), "no message makes the server fail");
    auto a = O->answers();
    for (size_t i = 0; i < O->sent.size(); ++i)
        sx::check(i == 0 || O->sent[i]["seq"] > O->sent[i - 1]["seq"], "messages are numbered in ascending order");
    bool request = m.is_object() && m.count("type") && m["type"] == "request" && m.count("seq") && !m["seq"].is_null() && m.count("command") && m["command"].is_string();
    if (request)
    {
        sx::check(a.size() == 1, "every request is answered exactly once");
        if (a.size() == 1)
        {
            sx::check(a[0]["request_seq"] == m["seq"] && a[0]["command"] == m["command"], "an answer names its request");
            bool known = false;
            for (auto& c : COMMANDS)
                known = known || (m["command"] == c[0] && m["command"] != "unknown");
            if (!known)
                sx::check(a[0]["success"] == false, "an unknown command is answered with an error");
            if (valid)
                sx::check(a[0]["success"] == known, "a valid request of a session succeeds");
            if (m["command"] == "disconnect")
                sx::check(S->is_exit_notification_received(), "disconnecting ends the session");
        }
        sx::cover("request");
    }
    else
    {
        sx::check(a.size() <= 1, "nothing is answered twice");
        sx::cover("no request");
    }
}
extern "C" void sx_main()
{
    bool session = sx::choose("session", 2);
    if (session)
        answered((*M)[0], true);
    unsigned k = sx::choose("message", (unsigned)M->size());
    json m = (*M)[k];
    auto& p = (*PATHS)[k];
    unsigned at = sx::choose("part", (unsigned)p.size() + 1);
    bool valid = at == p.size();
    if (!valid)
    {
        unsigned b = sx::choose("replacement", (unsigned)BAD->size() + 1);
        if (b < BAD->size())
            m[p[at]] = (*BAD)[b];
        else
        {
            auto& par = m[p[at].parent_pointer()];
            if (par.is_object())
                par.erase(p[at].back());
            else if (par.is_array())
                par.erase(par.begin() + std::stoul(p[at].back()));
        }
    }
    answered(m, valid && session);
    if (k + 2 < M->size()) // the session goes on
    {
        json t = (*M)[4];
        t["seq"] = 99;
        answered(t, true);
    }
}
