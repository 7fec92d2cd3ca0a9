// Roots that read a text of unknown content and length through every public primitive.
#include "pax.hpp"
#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#ifndef TEXT_MAX
#    define TEXT_MAX 5
#endif
using namespace papilio;
using namespace papilio::utf;
#define ROOT extern "C" [[gnu::visibility("default")]] void
// every length up to TEXT_MAX, one partition each
static std::size_t length(std::size_t n)
{
    for(std::size_t k = 0; k < TEXT_MAX; ++k) if(n == k) return k;
    return TEXT_MAX;
}
template <class C> static std::basic_string_view<C> any(const char* nm = "s", const char* nn = "n")
{
    std::size_t n = pax_u64(nn); pax_key(n); pax_assume(n <= TEXT_MAX); const void* p = pax_buf(nm, sizeof(C), n); return {(const C*)p, length(n)};
}
template <class C> static void len_ptr() { auto sv = any<C>(); pax_out("n", strlen(sv.data(), sv.size())); }
template <class C> static void fwd() { auto sv = any<C>(); auto it = codepoint_begin(sv), e = codepoint_end(sv); while(it != e) { char32_t c = *it; pax_sink(c); ++it; } }
template <class C> static void bwd() { auto sv = any<C>(); auto b = codepoint_begin(sv), it = codepoint_end(sv); while(it != b) { --it; char32_t c = *it; pax_sink(c); } }
template <class C> static void rng() { basic_string_ref<C> s(any<C>()); for(codepoint cp : s) pax_sink((char32_t)cp); }
template <class C> static void width() { basic_string_ref<C> s(any<C>()); std::size_t w = 0; for(codepoint cp : s) w += cp.estimate_width(); pax_out("w", w); }
template <class C> static void sub() { basic_string_ref<C> s(any<C>()); auto [q, m] = s.substr_extended(pax_u64("p"), pax_u64("c")); pax_out("z", q.size()); }
template <class C> static void slice(index_range r) { basic_string_ref<C> s(any<C>()); auto q = s.template substr<substr_behavior::empty_string>(r); pax_out("z", q.size()); }
template <class C> static void find() { basic_string_ref<C> s(any<C>()); auto it = s.find((char32_t)pax_u32("c"), pax_u64("p")); pax_out("z", it != s.end()); }
template <class C> static void at() { basic_string_ref<C> s(any<C>()); char32_t c = s.at(pax_u64("i")); pax_out("c", c); }
template <class C> static void rat() { basic_string_ref<C> s(any<C>()); char32_t c = s.at(reverse_index, pax_u64("i")); pax_out("c", c); }
template <class C> static void ior() { basic_string_ref<C> s(any<C>()); char32_t c = s.index_or(pax_u64("i"), codepoint(U'?')); pax_out("c", c); char32_t d = s.index_or(reverse_index, pax_u64("j"), codepoint(U'?')); pax_out("d", d); }
template <class C> static void off() { auto sv = any<C>(); pax_out("o", index_offset(pax_u64("i"), sv)); pax_out("r", index_offset(reverse_index, pax_u64("j"), sv)); }
template <class C> static void pre() { basic_string_ref<C> s(any<C>()); pax_out("a", s.starts_with(codepoint((char32_t)pax_u32("c")))); pax_out("b", s.empty() ? 0 : (char32_t)s.front()); pax_out("e", s.empty() ? 0 : (char32_t)s.back()); }
template <class C> static void cfwd() { basic_string_container<C> s(any<C>()); auto it = s.begin(), e = s.end(); while(!(it == e)) { char32_t c = *it; pax_sink(c); ++it; } }
template <class C> static void cbwd() { basic_string_container<C> s(any<C>()); auto it = s.end(), b = s.begin(); while(!(it == b)) { --it; char32_t c = *it; pax_sink(c); } }
template <class C, strlen_behavior B> static void lens() { pax_out("n", strlen<B>(any<C>())); }
#define ALL(C, S) \
    ROOT r_lenptr_##S() { len_ptr<C>(); } ROOT r_fwd_##S() { fwd<C>(); } ROOT r_bwd_##S() { bwd<C>(); } ROOT r_range_##S() { rng<C>(); } ROOT r_width_##S() { width<C>(); } ROOT r_sub_##S() { sub<C>(); } \
    ROOT r_slice0_##S() { slice<C>(index_range((std::ptrdiff_t)(pax_u32("a") & 0x7fffffff), (std::ptrdiff_t)(pax_u32("b") & 0x7fffffff))); } \
    ROOT r_slice1_##S() { slice<C>(index_range(-(std::ptrdiff_t)(pax_u32("a") & 0x7fffffff), -(std::ptrdiff_t)(pax_u32("b") & 0x7fffffff))); } \
    ROOT r_find_##S() { find<C>(); } ROOT r_at_##S() { at<C>(); } ROOT r_rat_##S() { rat<C>(); } ROOT r_ior_##S() { ior<C>(); } ROOT r_off_##S() { off<C>(); } ROOT r_pre_##S() { pre<C>(); } ROOT r_cfwd_##S() { cfwd<C>(); } ROOT r_cbwd_##S() { cbwd<C>(); } \
    ROOT r_len0_##S() { lens<C, strlen_behavior::replace>(); } ROOT r_len1_##S() { lens<C, strlen_behavior::ignore>(); } ROOT r_len2_##S() { lens<C, strlen_behavior::stop>(); } ROOT r_len3_##S() { lens<C, strlen_behavior::exception>(); }
ALL(char, c) ALL(char8_t, 8) ALL(char16_t, 16) ALL(char32_t, 32) ALL(wchar_t, w)
