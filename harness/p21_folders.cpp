// P21: every document belongs to the innermost workspace folder that contains it.
#include <optional>
#include <vector>

#include "sx.h"
#include "workspace_manager.h"
#include "workspaces/workspace.h"
#ifndef NF
#    define NF 2
#endif
#ifndef PL
#    define PL 3
#endif
#ifndef DL
#    define DL 4
#endif
using namespace hlasm_plugin::parser_library;

static std::string path(const char* name, unsigned max)
{
    // no empty components
    unsigned n = 1 + sx::choose(name, max);
    std::string s = "/";
    while (s.size() <= n)
    {
        char c = sx::one_of(name, "/ab");
        sx::assume(c != '/' || s.back() != '/');
        s += c;
    }
    return s;
}

extern "C" void sx_setup()
{
    workspace_manager m;
    m.add_workspace("a", "/nonexistent-a");
}
extern "C" void sx_main()
{
    workspace_manager m;
    struct f
    {
        std::string name, path;
    };
    std::vector<f> all;
    std::vector<bool> present;
    for (int i = 0; i < NF; ++i)
    {
        f x { sx::choose("name", 2) ? "/a" : "longer name", "/nonexistent" + path("folder", PL) };
        sx::assume(x.path.back() != '/');
        for (auto& o : all)
            sx::assume(o.path != x.path);
        m.add_workspace(x.name.c_str(), x.path.c_str());
        all.push_back(x);
        present.push_back(true);
    }
    if (unsigned r = sx::choose("remove", NF + 1))
    {
        m.remove_workspace(all[r - 1].path.c_str());
        present[r - 1] = false;
        if (sx::choose("again", 2))
        {
            m.add_workspace("new", all[r - 1].path.c_str());
            present[r - 1] = true;
        }
        else
            sx::cover("removed");
    }
    std::string doc = "/nonexistent" + path("document", DL);
    sx::assume(doc.back() != '/');
    sx::note("document", doc);
    size_t n = 0;
    const f* want = nullptr;
    for (int i = 0; i < NF; ++i)
    {
        n += present[i];
        sx::note(present[i] ? "folder" : "removed", all[i].path + " " + all[i].name);
        if (!present[i])
            continue;
        std::string p = all[i].path + "/";
        bool in = doc.size() > p.size();
        for (size_t k = 0; in && k < p.size(); ++k)
            in = doc[k] == p[k];
        if (in && (!want || want->path.size() < all[i].path.size()))
            want = &all[i];
    }
    sx::check(m.get_workspaces_count() == n, "each folder is a workspace of its own");
    auto w = m.find_workspace(doc.c_str());
    sx::check(w != nullptr, "each document has a workspace");
    sx::note("got", w->uri());
    sx::cover(want ? "in a folder" : "outside");
    sx::check(w->uri() == (want ? want->path : std::string()), "a document belongs to the innermost folder that contains it");
}
