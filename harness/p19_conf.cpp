// P19 (2): programs, processor groups, libraries and members of a configured workspace.
#include <map>
#include <regex>

#include "asm.h"
#include "lib_config.h"
#include "nlohmann/json.hpp"
#include "workspaces/file_manager_impl.h"
#include "workspaces/workspace.h"
using namespace ah;
using nlohmann::json;
namespace wsn = hlasm_plugin::parser_library::workspaces;
#ifndef PART
#    define PART 1
#endif
#ifndef NENT
#    define NENT 2
#endif
#ifndef STEPS
#    define STEPS 1
#endif

// libraries live in memory: directory -> names; each member is open in the editor
struct mem_fm : wsn::file_manager_impl
{
    std::map<std::string, std::vector<std::string>> dirs;
    wsn::list_directory_result list_directory_files(const std::string& path) override
    {
        wsn::list_directory_result r;
        auto d = dirs.find(path);
        if (d == dirs.end())
        {
            r.second = hlasm_plugin::utils::path::list_directory_rc::not_exists;
            return r;
        }
        for (auto& f : d->second)
            r.first[f] = path + f;
        r.second = hlasm_plugin::utils::path::list_directory_rc::done;
        return r;
    }
    void member(const std::string& dir, const std::string& name)
    {
        dirs[dir].push_back(name);
        did_open_file(dir + name, 1, " NOTANOP\n");
    }
};

static const std::string CONF = "/ws/.hlasmplugin/";
static lib_config global_conf;

static bool glob(const std::string& p, size_t i, const std::string& f, size_t j)
{
    if (i == p.size())
        return j == f.size();
    if (p[i] == '*')
    {
        for (size_t k = j; k <= f.size(); ++k)
            if (glob(p, i + 1, f, k))
                return true;
        return false;
    }
    return j != f.size() && (p[i] == '?' || p[i] == f[j]) && glob(p, i + 1, f, j + 1);
}
static bool is_wild(const std::string& p) { return p.find_first_of("*?") != std::string::npos; }

// the members a program took, in order
static std::vector<std::string> taken(mem_fm& fm, wsn::workspace& w, const std::string& pgm, const std::string& text)
{
    std::vector<std::string> r;
    fm.did_open_file(pgm, 1, text);
    w.did_open_file(pgm);
    auto scan = [&](auto& ds) {
        for (auto& d : ds)
            if (d.code == "E049")
                r.push_back(d.file_name);
    };
    auto f = fm.find_processor_file(pgm);
    scan(f->diags());
    return r;
}
static bool missing(mem_fm& fm, const std::string& pgm)
{
    for (auto& d : fm.find_processor_file(pgm)->diags())
        if (d.code == "E058")
            return true;
    return false;
}
static size_t count(wsn::workspace& w, const std::string& code)
{
    w.diags().clear();
    w.collect_diags();
    size_t n = 0;
    for (auto& d : w.diags())
        n += d.code == code;
    return n;
}
static std::string note(const std::vector<std::string>& v)
{
    std::string s;
    for (auto& x : v)
        s += x + " ";
    return s;
}

#if PART == 1
static const std::vector<std::string> programs = { "pgm", "sub/pgm", "q+" };
static const std::vector<std::string> patterns = { "pgm", "*", "p?m", "sub/*", "*gm", "q+", "q?", "?+*" };
#endif

extern "C" void sx_setup()
{
    static mem_fm fm;
    static wsn::workspace w("/ws", "ws", fm, global_conf);
    fm.did_open_file(CONF + "proc_grps.json", 1, R"({"pgroups":[{"name":"G1","libs":["l1"]}]})");
    fm.did_open_file(CONF + "pgm_conf.json", 1, R"({"pgms":[{"program":"p*","pgroup":"G1"}]})");
    fm.member("/ws/l1/", "M");
    w.open();
    taken(fm, w, "/ws/pgm", " COPY M\n COPY N\n");
    ah::setup({ " COPY A\n NOTANOP\n" });
}

extern "C" void sx_main()
{
    mem_fm fm;
    wsn::workspace w("/ws", "ws", fm, global_conf);
#if PART == 1
    // which group a program belongs to
    json pc = { { "pgms", json::array() } };
    struct entry
    {
        std::string p;
        unsigned g;
    };
    std::vector<entry> es;
    for (int i = 0; i < NENT; ++i)
    {
        es.push_back({ patterns[sx::choose("pattern", patterns.size())], sx::choose("group", 3) });
        pc["pgms"].push_back({ { "program", es.back().p }, { "pgroup", "G" + std::to_string(es.back().g) } });
    }
    std::string pgm = programs[sx::choose("program", programs.size())];
    fm.did_open_file(CONF + "proc_grps.json",
        1,
        R"({"pgroups":[{"name":"G0","libs":["l0"],"asm_options":{"SYSPARM":"P0"}},{"name":"G1","libs":["l1"],"asm_options":{"SYSPARM":"P1"}}]})");
    fm.did_open_file(CONF + "pgm_conf.json", 1, pc.dump());
    fm.member("/ws/l0/", "M");
    fm.member("/ws/l1/", "M");
    w.open();

    unsigned bad = 0;
    for (auto& e : es)
        bad += e.g == 2;
    sx::check(count(w, "W0004") == bad, "programs of undefined groups are reported");
    int want = -1;
    for (auto& e : es)
        if (want < 0 && e.g < 2 && !is_wild(e.p) && e.p == pgm)
            want = e.g;
    for (auto& e : es)
        if (want < 0 && e.g < 2 && is_wild(e.p) && glob(e.p, 0, pgm, 0))
            want = e.g;
    auto got = taken(fm, w, "/ws/" + pgm, " COPY M\n");
    sx::check(w.get_asm_options("/ws/" + pgm).sysparm == (want < 0 ? "" : "P" + std::to_string(want)), "the options of the group are used");
    if (want < 0)
    {
        sx::cover("no group");
        sx::check(got.empty(), "a program without group has no libraries");
        sx::check(missing(fm, "/ws/" + pgm), "missing members are reported");
    }
    else
    {
        sx::cover("group");
        sx::check(got == std::vector<std::string> { "/ws/l" + std::to_string(want) + "/M" }, "the libraries of the program's group are used");
    }
#elif PART == 4
    // changes of the configuration
    using V = std::vector<std::pair<std::string, bool>>; // text, valid
    static const std::string longparm(256, 'A');
    static const V procs = { { R"({"pgroups":[{"name":"G0","libs":["l0"]}]})", true },
        { R"({"pgroups":[{"name":"G0","libs":["l1"]}]})", true },
        { R"({"pgroups":[{"name":"G1","libs":["l1"],"asm_options":{"SYSPARM":")" + longparm + R"("}}]})", true },
        { R"({"pgroups":[])", false },
        { R"({"pgroups":5})", false },
        { R"({"pgroups":[{"name":1,"libs":[]}]})", false },
        { R"({})", false },
        { R"([])", false },
        { R"({"pgroups":[{"name":"G0","libs":[5]}]})", false },
        { R"({"pgroups":[{"name":"G0","libs":[{"optional":true}]}]})", false },
        { R"({"pgroups":[{"name":"G0","libs":[],"asm_options":5}]})", false } };
    static const int proc_lib[][2] = { { 0, -1 }, { 1, -1 }, { -1, 1 } };
    static const V pgms = { { R"({"pgms":[{"program":"pgm","pgroup":"G0"}]})", true },
        { R"({"pgms":[{"program":"p*","pgroup":"G1"}]})", true },
        { R"({"pgms":[]})", true },
        { R"({"pgms":)", false },
        { R"({"pgms":5})", false },
        { R"({"pgms":[{"pgroup":"G0"}]})", false },
        { R"({"pgms":[],"diagnosticsSuppressLimit":"x"})", false },
        { R"({"pgms":[],"alwaysRecognize":5})", false },
        { "", false } };
    unsigned proc = sx::choose("proc_grps", 4), pgm = sx::choose("pgm_conf", 4), eproc = 99, epgm = 99;
    const std::string fproc = CONF + "proc_grps.json", fpgm = CONF + "pgm_conf.json";
    fm.did_open_file(fproc, 1, procs[proc].first);
    fm.did_open_file(fpgm, 1, pgms[pgm].first);
    fm.member("/ws/l0/", "M");
    fm.member("/ws/l1/", "M");
    w.open();
    fm.did_open_file("/ws/pgm", 1, " COPY M\n");
    w.did_open_file("/ws/pgm");
    for (int step = 0;; ++step)
    {
        if (procs[proc].second && pgms[pgm].second)
            eproc = proc, epgm = pgm;
        sx::check(count(w, "W0002") == !procs[proc].second, "an invalid list of groups is reported");
        sx::check(count(w, "W0003") == (procs[proc].second && !pgms[pgm].second), "an invalid list of programs is reported");
        int lib = -1;
        size_t w4 = 0;
        if (eproc != 99 && epgm < 2)
            lib = proc_lib[eproc][epgm], w4 = lib < 0;
        if (procs[proc].second && pgms[pgm].second)
            sx::check(count(w, "W0004") == w4, "programs of undefined groups are reported");
        sx::check(count(w, "W0005") == (proc == 2), "invalid options are reported");
        auto look = [&]() {
            std::vector<std::string> r;
            for (auto& d : fm.find_processor_file("/ws/pgm")->diags())
                if (d.code == "E049")
                    r.push_back(d.file_name);
            return r;
        };
        std::vector<std::string> want;
        if (lib >= 0)
            want = { "/ws/l" + std::to_string(lib) + "/M" };
        sx::check(look() == want, "the last valid configuration is in effect");
        document_change c(" COPY M\n\n", 9);
        fm.did_change_file("/ws/pgm", 2 + step, &c, 1);
        w.did_change_file("/ws/pgm", &c, 1);
        sx::check(look() == want, "the last valid configuration remains in effect");
        sx::cover(lib < 0 ? "none" : "configured");
        if (step == STEPS)
            break;
        bool which = sx::choose("file", 2);
        unsigned v = sx::choose("variant", which ? procs.size() : pgms.size());
        const auto& t = which ? procs[v].first : pgms[v].first;
        (which ? proc : pgm) = v;
        document_change d(t.c_str(), t.size());
        fm.did_change_file(which ? fproc : fpgm, 2, &d, 1);
        w.did_change_file(which ? fproc : fpgm, &d, 1);
    }
#else
    // which member of which library is used
    static const std::vector<std::string> names = { "M", "m", "M.mac", "M.asm", "m.x.mac", "M.x", ".mac", "Mmac" };
    struct lib
    {
        std::string dir, conf;
        std::vector<std::string> files;
        int ext; // 0 none, 1 own ["asm", "mac"], 2 own [""], 3 own [".x.mac"]
        bool exists;
        bool optional;
    };
    unsigned global = sx::choose("default extensions", 4); // 0 none, 1 [".mac"], 2 alwaysRecognize *.mac, 3 both
    std::vector<lib> libs = { { "/ws/l0/", "l0" }, { "/abs/l1/", "/abs/l1/" } };
    json jl = json::array();
    for (auto& l : libs)
    {
        l.exists = sx::choose("exists", 2);
        l.optional = !l.exists && sx::choose("optional", 2);
        l.ext = l.exists ? sx::choose("extensions", &l == &libs[0] ? 4 : 2) : 0;
        json j = { { "path", l.conf }, { "optional", l.optional } };
        if (l.ext == 1)
            j["macro_extensions"] = { "asm", "mac" };
        if (l.ext == 2)
            j["macro_extensions"] = { "" };
        if (l.ext == 3)
            j["macro_extensions"] = { ".x.mac" };
        jl.push_back(j);
        if (!l.exists)
            continue;
        fm.dirs[l.dir];
        unsigned f = sx::choose("file", names.size() + 1);
        if (f < names.size())
            l.files.push_back(names[f]);
#    if PART == 3
        unsigned f2 = sx::choose("second file", names.size() + 1);
        if (f2 < names.size() && f2 != f)
            l.files.push_back(names[f2]);
#    endif
        for (auto& n : l.files)
            fm.member(l.dir, n);
    }
    json pg = { { "pgroups", { { { "name", "G" }, { "libs", jl } } } } };
    if (global & 1)
        pg["macro_extensions"] = { ".mac" };
    json pc = { { "pgms", { { { "program", "pgm" }, { "pgroup", "G" } } } } };
    if (global & 2)
        pc["alwaysRecognize"] = { "*.mac" };
    fm.did_open_file(CONF + "proc_grps.json", 1, pg.dump());
    fm.did_open_file(CONF + "pgm_conf.json", 1, pc.dump());
    w.open();

    std::vector<std::string> ok; // any of these
    size_t reported = 0, ambiguous = 0;
    for (auto& l : libs)
    {
        if (!l.exists && !l.optional)
            ++reported;
        std::vector<std::string> ext;
        bool all = false;
        if (l.ext == 1)
            ext = { ".asm", ".mac" };
        else if (l.ext == 2)
            ext = { "" };
        else if (l.ext == 3)
            ext = { ".x.mac" };
        else if (global & 1)
            ext = { ".mac" };
        else if (global & 2)
            ext = { ".mac", "" };
        else
            all = true;
        auto member = [&](std::string f) -> std::string {
            if (!all)
            {
                bool hit = false;
                for (auto& e : ext)
                    if (!hit && f.size() > e.size() && f.substr(f.size() - e.size()) == e)
                        hit = true, f.resize(f.size() - e.size());
                if (!hit)
                    return "";
            }
            for (auto& c : f)
                c = toupper(c);
            return f;
        };
        std::map<std::string, int> seen;
        std::vector<std::string> here;
        for (auto& f : l.files)
        {
            auto m = member(f);
            if (!all && !m.empty() && seen[m]++)
                ++ambiguous;
            if (m == "M")
                here.push_back(l.dir + f);
        }
        if (ok.empty())
            ok = here;
    }
    auto got = taken(fm, w, "/ws/pgm", " COPY M\n");
    sx::check(missing(fm, "/ws/pgm") == ok.empty(), "a member is reported missing exactly when no library has it");
    sx::check(got.size() == !ok.empty(), "one member is used");
    if (ok.empty())
        sx::cover("missing");
    else
    {
        sx::cover("found");
        bool in = false;
        for (auto& o : ok)
            in |= got[0] == o;
        sx::check(in, "the member of the first library that has it is used");
    }
    // make sure that all the libraries have been looked into
    w.refresh_libraries();
    sx::check(count(w, "L0002") == reported, "missing libraries are reported unless they are optional");
    sx::check(count(w, "L0004") == ambiguous, "ambiguous members are reported");
#endif
}
