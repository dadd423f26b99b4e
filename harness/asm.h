// Running the real analyzer from a harness.
#pragma once
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <vector>

#include "analyzer.h"
#undef text // the generated parser defines it
#include "sx.h"

namespace ah {
using namespace hlasm_plugin::parser_library;
namespace hc = hlasm_plugin::parser_library::context;

inline std::unique_ptr<analyzing_context>& prepared()
{
    static std::unique_ptr<analyzing_context> c;
    return c;
}
inline analyzing_context fresh_ctx(const std::string& file = "f")
{
    return analyzing_context { std::make_unique<hc::hlasm_context>(file, asm_option {}), std::make_unique<lsp::lsp_context>() };
}
// the parser's prediction tables are filled by a concrete run, the (expensive) empty context is built once
inline void setup(const std::vector<std::string>& warm = {})
{
    for (auto& t : warm)
    {
        analyzer a(t);
        a.analyze();
        a.collect_diags();
    }
    prepared() = std::make_unique<analyzing_context>(fresh_ctx());
}
struct run
{
    std::string text;
    analyzing_context ctx;
    std::unique_ptr<analyzer> a;
    // pre: prepares the context before the analysis
    run(std::string t,
        std::function<void(hc::hlasm_context&)> pre = {},
        workspaces::parse_lib_provider& lib = workspaces::empty_parse_lib_provider::instance,
        bool hl = false)
        : text(std::move(t))
        , ctx(prepared() ? std::move(*prepared()) : fresh_ctx())
    {
        prepared().reset();
        if (pre)
            pre(*ctx.hlasm_ctx);
        a = std::make_unique<analyzer>(text,
            "f",
            ctx,
            lib,
            workspaces::library_data { processing::processing_kind::ORDINARY, hc::id_storage::empty_id },
            hl);
        a->analyze();
        a->collect_diags();
    }
    hc::hlasm_context& hctx() { return *ctx.hlasm_ctx; }
    hc::id_index id(const std::string& n) { return hctx().ids().add(n); }
    bool has(const std::string& code) const
    {
        for (auto& d : a->diags())
            if (d.code == code)
                return true;
        return false;
    }
    size_t count(const std::string& code) const
    {
        size_t n = 0;
        for (auto& d : a->diags())
            n += d.code == code;
        return n;
    }
    size_t errors() const
    {
        size_t n = 0;
        for (auto& d : a->diags())
            n += d.severity == diagnostic_severity::error;
        return n;
    }
    std::string codes() const
    {
        std::string r;
        for (auto& d : a->diags())
            r += d.code + "@" + std::to_string(d.diag_range.start.line) + " ";
        return r;
    }
    template<class T>
    std::optional<T> var(const std::string& n, std::optional<size_t> idx = std::nullopt)
    {
        auto v = hctx().get_var_sym(id(n));
        if (!v)
            return std::nullopt;
        auto* sb = v->access_set_symbol_base();
        if (!sb)
            return std::nullopt;
        auto* s = sb->template access_set_symbol<T>();
        if (!s)
            return std::nullopt;
        return idx ? s->get_value(*idx) : s->get_value();
    }
    // value of an ordinary symbol
    std::optional<hc::symbol_value> sym(const std::string& n)
    {
        auto* s = hctx().ord_ctx.get_symbol(id(n));
        if (!s)
            return std::nullopt;
        return s->value();
    }
    std::optional<int> abs(const std::string& n)
    {
        auto v = sym(n);
        if (!v || v->value_kind() != hc::symbol_value_kind::ABS)
            return std::nullopt;
        return v->get_abs();
    }
    std::optional<int> reloc(const std::string& n)
    {
        auto v = sym(n);
        if (!v || v->value_kind() != hc::symbol_value_kind::RELOC)
            return std::nullopt;
        return v->get_reloc().offset();
    }
};
template<class T>
inline void set_var(hc::hlasm_context& c, const std::string& n, T v)
{
    auto s = c.create_local_variable<T>(c.ids().add(n), true);
    s->template access_set_symbol<T>()->set_value(std::move(v));
}
} // namespace ah
