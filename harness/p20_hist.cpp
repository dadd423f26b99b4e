// P20: what is reported depends on the present files and documents only, not on how they came about.
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>

#include "asm.h"
#include "workspace_manager.h"
using namespace ah;
namespace fs = std::filesystem;
#ifndef LEN
#    define LEN 2
#endif

#if defined EDITS && EDITS == 1
#    undef EDITS
#    define EDITS { 1 }
#    define ALPHABET "M(\n"
#elif defined EDITS
#    undef EDITS
#    define EDITS { 0, 1, 2 }
#    define ALPHABET "M1,( '\n"
#else
#    define ALPHABET "M"
#endif

static const char* const PGM_TEXT[] = { " COPY C\n MM\n", " MM\n", " LR 1\n" };
static const char* const MAC_TEXT[] = { " MACRO\n MM\n LR 1\n MEND\n", " MACRO\n MM\n LR 1,1\n COPY C\n MEND\n" };
static const char* const CPY_TEXT[] = { " NOTANOP\n", " LR 1,1\n" };
enum doc { PGM, PG2, MAC, CPY, NDOC };
static const char* const NAME[] = { "PGM", "PG2", "lib/MM", "lib/C" };

struct consumer : diagnostics_consumer
{
    std::multiset<std::string> seen;
    void consume_diagnostics(diagnostic_list l) override
    {
        seen.clear();
        for (size_t i = 0; i < l.diagnostics_size(); ++i)
        {
            auto d = l.diagnostics(i);
            seen.insert(std::string(d.file_name()) + "|" + d.code() + "|" + std::to_string(d.get_range().start.line) + "|" + d.message());
        }
    }
};

struct client
{
    std::string root;
    std::optional<std::string> disk[NDOC];
    std::optional<std::string> open[NDOC];
    std::string path(int d) const { return root + "/" + NAME[d]; }
    void write(int d, std::optional<std::string> t)
    {
        disk[d] = t;
        if (t)
            std::ofstream(path(d), std::ios::binary) << *t;
        else
            fs::remove(path(d));
    }
};

struct srv
{
    consumer c;
    workspace_manager m;
    explicit srv(const std::string& root)
    {
        m.register_diagnostics_consumer(&c);
        m.add_workspace(root.c_str(), root.c_str());
    }
    void open(const client& k, int d) { m.did_open_file(k.path(d).c_str(), 1, k.open[d]->c_str(), k.open[d]->size()); }
    void change(const client& k, int d)
    {
        document_change ch(k.open[d]->c_str(), k.open[d]->size());
        m.did_change_file(k.path(d).c_str(), 2, &ch, 1);
    }
    void edit(const client& k, int d, range r, const std::string& t)
    {
        document_change ch(r, t.c_str(), t.size());
        m.did_change_file(k.path(d).c_str(), 2, &ch, 1);
    }
    void close(const client& k, int d) { m.did_close_file(k.path(d).c_str()); }
    void watched(const client& k, int d)
    {
        auto p = k.path(d);
        const char* ps[] = { p.c_str() };
        m.did_change_watched_files(ps, 1);
    }
};

static std::string make_root()
{
    const char* base = getenv("SX_SCRATCH");
    std::string t = std::string(base ? base : "/tmp") + "/sxws-XXXXXX";
    if (!mkdtemp(t.data()))
        abort();
    fs::create_directories(t + "/.hlasmplugin");
    fs::create_directories(t + "/lib");
    std::ofstream(t + "/.hlasmplugin/proc_grps.json") << R"({"pgroups":[{"name":"G","libs":["lib"]}]})";
    std::ofstream(t + "/.hlasmplugin/pgm_conf.json") << R"({"pgms":[{"program":"P*","pgroup":"G"}]})";
    return t;
}

static std::string show(const std::multiset<std::string>& s, size_t n)
{
    std::string r;
    for (auto& x : s)
        r += (n < x.size() ? x.substr(n) : x) + "; ";
    return r;
}

extern "C" void sx_setup()
{
    client k;
    k.root = make_root();
    k.write(MAC, MAC_TEXT[1]);
    k.write(CPY, CPY_TEXT[0]);
    {
        srv s(k.root);
        k.open[PGM] = PGM_TEXT[0];
        s.open(k, PGM);
    }
    fs::remove_all(k.root);
}

extern "C" void sx_main()
{
    client k;
    k.root = make_root();
    k.write(MAC, MAC_TEXT[0]);
    k.write(CPY, CPY_TEXT[0]);
    std::string log;
    {
        srv s(k.root);
        for (unsigned start = sx::choose("open documents", 4), d = 0; d < 2; ++d)
            if (start >> d & 1)
            {
                int doc = d == 0 ? PGM : MAC;
                k.open[doc] = doc == PGM ? PGM_TEXT[0] : MAC_TEXT[0];
                s.open(k, doc);
                log += std::string("open ") + NAME[doc] + "; ";
            }
        for (int i = 0; i < LEN; ++i)
        {
            struct event
            {
                int kind, d, v;
            };
            std::vector<event> es;
            auto texts = [](int d) -> std::vector<const char*> {
                if (d == PGM)
                    return { PGM_TEXT[0], PGM_TEXT[1], PGM_TEXT[2] };
                if (d == PG2)
                    return { PGM_TEXT[1] };
                if (d == MAC)
                    return { MAC_TEXT[0], MAC_TEXT[1] };
                return { CPY_TEXT[0], CPY_TEXT[1] };
            };
            for (int d = 0; d < NDOC; ++d)
            {
                if (d != CPY)
                {
                    if (!k.open[d])
                    {
                        if (d < MAC)
                            for (size_t v = 0; v < texts(d).size(); ++v)
                                es.push_back({ 0, d, (int)v });
                        else if (k.disk[d])
                            es.push_back({ 1, d, 0 });
                    }
                    else
                    {
                        for (size_t v = 0; v < texts(d).size(); ++v)
                            if (texts(d)[v] != *k.open[d])
                                es.push_back({ 2, d, (int)v });
                        es.push_back({ 3, d, 0 });
#ifdef EDITS
                        for (int v : EDITS)
                            es.push_back({ 7, d, v });
#endif
                        if (d == MAC && k.disk[d] != k.open[d])
                            es.push_back({ 4, d, 0 });
                    }
                }
                if (d >= MAC)
                {
                    for (size_t v = 0; v < texts(d).size(); ++v)
                        if (!k.disk[d] || texts(d)[v] != *k.disk[d])
                            es.push_back({ 5, d, (int)v });
                    if (k.disk[d])
                        es.push_back({ 6, d, 0 });
                }
            }
            auto e = es[sx::choose("event", es.size())];
            static const char* const kinds[] = { "open ", "open ", "change ", "close ", "save ", "written ", "deleted ", "edit " };
            log += kinds[e.kind] + std::string(NAME[e.d]) + "=" + std::to_string(e.v) + "; ";
            switch (e.kind)
            {
                case 0:
                    k.open[e.d] = texts(e.d)[e.v];
                    s.open(k, e.d);
                    break;
                case 1:
                    k.open[e.d] = *k.disk[e.d];
                    s.open(k, e.d);
                    break;
                case 2:
                    k.open[e.d] = texts(e.d)[e.v];
                    s.change(k, e.d);
                    break;
                case 3:
                    k.open[e.d].reset();
                    s.close(k, e.d);
                    break;
                case 4:
                    k.write(e.d, k.open[e.d]);
                    s.watched(k, e.d);
                    break;
                case 5:
                    k.write(e.d, texts(e.d)[e.v]);
                    s.watched(k, e.d);
                    break;
                case 7: {
                    // a character typed or one replaced, at the beginning, in the operation or at the end of the first line
                    std::string t(1, sx::one_of("character", ALPHABET));
                    size_t eol = k.open[e.d]->find('\n');
                    if (eol == std::string::npos)
                        eol = k.open[e.d]->size();
                    size_t at = e.v == 0 || eol < 2 ? 0 : e.v == 1 ? 1 : eol;
                    size_t n = e.v == 1 && at == 1 ? 1 : 0;
                    s.edit(k, e.d, { { 0, at }, { 0, at + n } }, t);
                    k.open[e.d]->replace(at, n, t);
                    break;
                }
                default:
                    k.write(e.d, std::nullopt);
                    s.watched(k, e.d);
            }
        }
        srv f(k.root);
        for (int d : { MAC, PG2, PGM })
            if (k.open[d])
                f.open(k, d);
        // reports in a member that is open but not used by any open program are not claimed
        bool used = false;
        for (int d : { PGM, PG2 })
            used |= k.disk[MAC] && k.open[d] && k.open[d]->find("MM") != std::string::npos;
        if (!used)
            for (auto* c : { &s.c, &f.c })
                for (auto it = c->seen.begin(); it != c->seen.end();)
                    it = it->compare(0, k.path(MAC).size() + 1, k.path(MAC) + "|") == 0 ? c->seen.erase(it) : std::next(it);
        if (s.c.seen.empty())
            sx::cover("clean");
        else
            sx::cover("diagnostics");
        __sx_note("log", log.data(), log.size());
        auto a = show(s.c.seen, k.root.size()), b = show(f.c.seen, k.root.size());
        __sx_note("history", a.data(), a.size());
        __sx_note("fresh", b.data(), b.size());
#ifdef NAV
        {
            int d = sx::choose("document", 2) ? PGM : MAC;
            if (k.open[d] && (d == PGM || used))
            {
                position pos { sx::any<unsigned char>("line"), sx::any<unsigned char>("column") };
                auto p = k.path(d);
                auto x = s.m.definition(p.c_str(), pos), y = f.m.definition(p.c_str(), pos);
                bool same = std::string(x.file()) == std::string(y.file()) && x.pos().line == y.pos().line && x.pos().column == y.pos().column;
                sx::cover(x.pos().line == pos.line && x.pos().column == pos.column ? "no definition" : "definition");
                auto r = s.m.references(p.c_str(), pos), q = f.m.references(p.c_str(), pos);
                std::multiset<std::string> rs, qs;
                for (size_t i = 0; i < r.size(); ++i)
                    rs.insert(std::string(r.item(i).file()) + std::to_string(r.item(i).pos().line) + ":" + std::to_string(r.item(i).pos().column));
                for (size_t i = 0; i < q.size(); ++i)
                    qs.insert(std::string(q.item(i).file()) + std::to_string(q.item(i).pos().line) + ":" + std::to_string(q.item(i).pos().column));
                std::string h(s.m.hover(p.c_str(), pos)), g(f.m.hover(p.c_str(), pos));
                auto sc = s.m.completion(p.c_str(), pos, '\0', completion_trigger_kind::invoked), fc = f.m.completion(p.c_str(), pos, '\0', completion_trigger_kind::invoked);
                bool ok = sc.size() == fc.size();
                sx::note("references", show(rs, k.root.size()) + "| " + show(qs, k.root.size()));
                sx::check(same, "definitions are those of a new server");
                sx::check(rs == qs, "references are those of a new server");
                sx::check(h == g, "hover texts are those of a new server");
                sx::check(ok, "completion is that of a new server");
            }
        }
#endif
        fs::remove_all(k.root);
        sx::check(s.c.seen == f.c.seen, "the reports are those of a new server");
    }
}
