// A format context whose output is observed, and arguments whose accesses are observed.
#pragma once
#include "pax.hpp"
#include <papilio/core.hpp>
#include <papilio/format.hpp>
#define ROOT extern "C" [[gnu::visibility("default")]] void
#define PAX_CAT(a, b) a##b
#define PAX_CAT2(a, b) PAX_CAT(a, b)
#define TXT(x) PAX_CAT2(PAX_PRE, x)
using C = PAX_CHAR;
struct out_it {
    using iterator_category = std::output_iterator_tag; using value_type = void; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
    out_it& operator*() { return *this; } out_it& operator++() { return *this; } out_it operator++(int) { return *this; }
    out_it& operator=(C c) { pax_event("o", (std::uint64_t)(std::make_unsigned_t<C>)c); return *this; }
};
using Ctx = papilio::basic_format_context<out_it, C>;
struct Probe { std::uint64_t id; };
namespace papilio {
template <> struct accessor<Probe, Ctx> {
    static basic_format_arg<Ctx> index(const Probe& p, ssize_t i) { pax_event("i", (std::uint64_t)i); return basic_format_arg<Ctx>(p); }
    static basic_format_arg<Ctx> index(const Probe& p, index_range r) { pax_event("r", (std::uint64_t)r.first, (std::uint64_t)r.second); return basic_format_arg<Ctx>(p); }
    static basic_format_arg<Ctx> index(const Probe& p, std::basic_string_view<C> s) { pax_event("s", (std::uint64_t)s.size(), s.empty() ? 0ull : (std::uint64_t)s[0]); return basic_format_arg<Ctx>(p); }
    static basic_format_arg<Ctx> attribute(const Probe& p, const basic_attribute_name<C>& a) { std::basic_string_view<C> s(a); pax_event("a", (std::uint64_t)s.size(), s.empty() ? 0ull : (std::uint64_t)s[0]); return basic_format_arg<Ctx>(p); }
};
template <> class formatter<Probe, C> {
    std::uint64_t n = 0, x = 0;
public:
    template <class P> auto parse(P& ctx) { auto it = ctx.begin(), e = ctx.end(); while(it != e && *it != U'}') { x = x * 31 + (char32_t)*it; ++n; ++it; } ctx.advance_to(it); return it; }
    template <class F> auto format(const Probe& p, F& ctx) const { pax_event("f", p.id, n); return ctx.out(); }
};
}
// format string: the template text with one unknown unit (or two), the rest as written
template <std::size_t N> static void go(const C (&lit)[N], int len, int hole, int hole2 = -1)
{
    const C* s = (const C*)pax_buf("s", sizeof(C), (std::size_t)len);
    for(int i = 0; i < len; ++i) if(i != hole && i != hole2) pax_assume(s[i] == lit[i]);
    Probe p0{0}, p1{1}, p2{2}; long long v = (long long)pax_u64("v");
    static constexpr C nm[] = {'a', 'b', 0};
    auto args = papilio::format_context_traits<Ctx>::make_format_args(p0, p1, v, papilio::arg(nm, p2));
    papilio::basic_format_parse_context<Ctx> pc(std::basic_string_view<C>(s, (std::size_t)len), args);
    Ctx fc(out_it{}, args);
    papilio::basic_interpreter<Ctx>().format(pc, fc);
}
