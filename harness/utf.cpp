// Roots for the UTF primitives.  Only public functions are called.
#include "pax.hpp"
#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
using namespace papilio::utf;
#define ROOT extern "C" [[gnu::visibility("default")]] void

ROOT r_class8() { auto b = pax_u8("b"); pax_out("lead", is_leading_byte(b)); pax_out("trail", is_trailing_byte(b)); }
ROOT r_count8() { auto b = pax_u8("b"); pax_out("n", byte_count(b)); }
ROOT r_class16() { auto u = pax_u16("u"); pax_out("high", is_high_surrogate(u)); pax_out("low", is_low_surrogate(u)); }
ROOT r_size32() { char32_t c = pax_u32("c"); pax_out("n", decoder<char32_t>::size_bytes(c)); }
ROOT r_enc32()
{
    char32_t c = pax_u32("c"); pax_assume(c <= 0x10FFFF);
    auto [cp, used] = decoder<char32_t>::to_codepoint(c);
    const char8_t* d = cp.u8data(); unsigned n = cp.size_bytes();
    pax_out("used", used); pax_out("n", n); pax_out("b0", d[0]);
    if(n > 1) pax_out("b1", d[1]);
    if(n > 2) pax_out("b2", d[2]);
    if(n > 3) pax_out("b3", d[3]);
}
static codepoint any_cp() { char8_t b[4] = {(char8_t)pax_u8("b0"), (char8_t)pax_u8("b1"), (char8_t)pax_u8("b2"), (char8_t)pax_u8("b3")}; return codepoint(b, 4); }
ROOT r_dec32() { auto [c, n] = decoder<char32_t>::from_codepoint(any_cp()); pax_out("c", c); pax_out("n", n); }
ROOT r_dec32_conv() { char32_t c = any_cp(); pax_out("c", c); }
ROOT r_enc16()
{
    auto r = decoder<char16_t>::from_codepoint(any_cp());
    pax_out("n", r.size); pax_out("used", r.processed_size); pax_out("u0", r.chars[0]); if(r.size > 1) pax_out("u1", r.chars[1]);
}
ROOT r_dec16()
{
    char16_t u[2] = {(char16_t)pax_u16("u0"), (char16_t)pax_u16("u1")};
    auto [c, n] = decoder<char16_t>::to_char32_t(std::u16string_view(u, 2));
    pax_out("c", c); pax_out("n", n);
}
ROOT r_dec16_one()
{
    char16_t u[1] = {(char16_t)pax_u16("u0")};
    auto [c, n] = decoder<char16_t>::to_char32_t(std::u16string_view(u, 1));
    pax_out("c", c); pax_out("n", n);
}
ROOT r_dec16_cp()
{
    char16_t u[2] = {(char16_t)pax_u16("u0"), (char16_t)pax_u16("u1")};
    auto [cp, n] = decoder<char16_t>::to_codepoint(std::u16string_view(u, 2));
    pax_out("n", n); const char8_t* d = cp.u8data(); unsigned k = cp.size_bytes();
    pax_out("k", k); pax_out("b0", d[0]); if(k > 1) pax_out("b1", d[1]); if(k > 2) pax_out("b2", d[2]); if(k > 3) pax_out("b3", d[3]);
}
ROOT r_dec16_pair()
{
    auto [cp, n] = decoder<char16_t>::to_codepoint((char16_t)pax_u16("u0"), (char16_t)pax_u16("u1"));
    pax_out("n", n); const char8_t* d = cp.u8data(); unsigned k = cp.size_bytes();
    pax_out("k", k); pax_out("b0", d[0]); if(k > 1) pax_out("b1", d[1]); if(k > 2) pax_out("b2", d[2]); if(k > 3) pax_out("b3", d[3]);
}
template <class C, unsigned N>
static void dec8()
{
    const char* nm[] = {"b0", "b1", "b2", "b3"}; C p[N]; for(unsigned i = 0; i < N; ++i) p[i] = (C)pax_u8(nm[i]);
    auto [cp, used] = decoder<C>::to_codepoint(std::basic_string_view<C>(p, N));
    pax_out("used", used); const char8_t* d = cp.u8data();
    pax_out("o0", d[0]); if(used > 1) pax_out("o1", d[1]); if(used > 2) pax_out("o2", d[2]); if(used > 3) pax_out("o3", d[3]);
    pax_out("k", cp.size_bytes()); pax_out("c", (char32_t)cp);
}
ROOT r_dec8_1() { dec8<char8_t, 1>(); }
ROOT r_dec8_2() { dec8<char8_t, 2>(); }
ROOT r_dec8_3() { dec8<char8_t, 3>(); }
ROOT r_dec8_4() { dec8<char8_t, 4>(); }
ROOT r_dec8c_1() { dec8<char, 1>(); }
ROOT r_dec8c_2() { dec8<char, 2>(); }
ROOT r_dec8c_3() { dec8<char, 3>(); }
ROOT r_dec8c_4() { dec8<char, 4>(); }
ROOT r_size8() { auto b = pax_u8("b"); pax_out("n", decoder<char8_t>::size_bytes((char8_t)b)); pax_out("m", decoder<char>::size_bytes((char)b)); }
// a code point written out in each encoding
template <class C> static void emit() { using U = std::make_unsigned_t<C>; C out[4] = {}; C* e = any_cp().append_to_as<C>(out); pax_out("n", e - out); pax_out("o0", (U)out[0]); pax_out("o1", (U)out[1]); pax_out("o2", (U)out[2]); pax_out("o3", (U)out[3]); }
ROOT r_emit8() { emit<char8_t>(); }
ROOT r_emit8c() { emit<char>(); }
ROOT r_emit16() { emit<char16_t>(); }
ROOT r_emit32() { emit<char32_t>(); }
ROOT r_emitw() { emit<wchar_t>(); }
ROOT r_decw() { wchar_t w[1] = {(wchar_t)pax_u32("c")}; auto [c, n] = decoder<wchar_t>::to_char32_t(std::wstring_view(w, 1)); pax_out("c", c); pax_out("n", n); }
ROOT r_encw() { auto r = decoder<wchar_t>::from_codepoint(any_cp()); pax_out("n", r.size); pax_out("c", (char32_t)r.chars[0]); pax_out("used", r.processed_size); }
ROOT r_width() { char32_t c = pax_u32("c"); pax_assume(c <= 0x10FFFF); pax_out("w", codepoint(c).estimate_width()); }
ROOT r_digit() { char32_t c = pax_u32("c"); pax_out("d", is_digit(c)); }
ROOT r_space() { char32_t c = pax_u32("c"); pax_out("s", is_whitespace(c)); }
