// Format specifications of the built-in types: a format string with unknown units and a value of each kind.
#pragma once
#include "interp.hpp"
#include <papilio/formatter/tuple.hpp>
#include <papilio/formatter/vocabulary.hpp>
template <class V> static void put(const C* s, std::size_t len, const V& value)
{
    int w = (int)pax_u32("w"); pax_assume(w >= -2 && w <= 9);
    static constexpr C x[] = {'x', 0};
    auto args = papilio::format_context_traits<Ctx>::make_format_args(value, w, (const C*)x);
    papilio::basic_format_parse_context<Ctx> pc(std::basic_string_view<C>(s, len), args);
    Ctx fc(out_it{}, args);
    papilio::basic_interpreter<Ctx>().format(pc, fc);
}
template <class V, std::size_t N> static void go(const C (&lit)[N], int len, int hole, int hole2, const V& value)
{
    const C* s = (const C*)pax_buf("s", sizeof(C), (std::size_t)len);
    for(int i = 0; i < len; ++i) if(i != hole && i != hole2) pax_assume(s[i] == lit[i]);
    put(s, (std::size_t)len, value);
}
template <class V> static V unknown() { return (V)pax_u64("v"); }

template <class V> static void show(const V& value)
{
    static constexpr C f[] = {'{', ':', '?', '}'};
    auto args = papilio::format_context_traits<Ctx>::make_format_args(value);
    papilio::basic_format_parse_context<Ctx> pc(std::basic_string_view<C>(f, 4), args);
    Ctx fc(out_it{}, args);
    papilio::basic_interpreter<Ctx>().format(pc, fc);
}
