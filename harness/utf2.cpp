// Roots for counting, indexing and iterating text.  The text is a short array of unknown code units.
#include "pax.hpp"
#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
using namespace papilio;
using namespace papilio::utf;
#define ROOT extern "C" [[gnu::visibility("default")]] void
template <class C, unsigned N> struct text {
    C d[N];
    text() { const char* nm[] = {"b0", "b1", "b2", "b3", "b4", "b5"}; for(unsigned i = 0; i < N; ++i) d[i] = (C)(sizeof(C) == 1 ? pax_u8(nm[i]) : sizeof(C) == 2 ? pax_u16(nm[i]) : pax_u32(nm[i])); }
    std::basic_string_view<C> sv() const { return {d, N}; }
};
#define LEN(nm, B) \
    ROOT r_len8_##nm() { text<char8_t, 4> t; pax_out("n", strlen<strlen_behavior::B>(t.sv())); } \
    ROOT r_len8c_##nm() { text<char, 4> t; pax_out("n", strlen<strlen_behavior::B>(t.sv())); } \
    ROOT r_len8p_##nm() { text<char8_t, 4> t; pax_out("n", strlen<strlen_behavior::B>(t.d, 4)); } \
    ROOT r_len16_##nm() { text<char16_t, 3> t; pax_out("n", strlen<strlen_behavior::B>(t.sv())); } \
    ROOT r_len16p_##nm() { text<char16_t, 3> t; pax_out("n", strlen<strlen_behavior::B>(t.d, 3)); }
LEN(replace, replace) LEN(ignore, ignore) LEN(stop, stop) LEN(exception, exception)
ROOT r_len32() { text<char32_t, 3> t; pax_out("n", strlen(t.sv())); }
ROOT r_len32p() { text<char32_t, 3> t; pax_out("n", strlen(t.d, 3)); }
#define IDX(W, C, N, I) \
    ROOT r_idx##W##_##I() { text<C, N> t; pax_out("o", index_offset(I, t.sv())); } \
    ROOT r_rdx##W##_##I() { text<C, N> t; pax_out("o", index_offset(reverse_index, I, t.sv())); }
IDX(8, char8_t, 4, 0) IDX(8, char8_t, 4, 1) IDX(8, char8_t, 4, 2) IDX(16, char16_t, 3, 0) IDX(16, char16_t, 3, 1) IDX(16, char16_t, 3, 2) IDX(32, char32_t, 2, 0) IDX(32, char32_t, 2, 1) IDX(32, char32_t, 2, 2)
template <class C, unsigned N> static void fwd(unsigned k)
{
    text<C, N> t; auto b = codepoint_begin(t.sv()), e = codepoint_end(t.sv()); auto it = b; unsigned n = 0;
    for(unsigned i = 0; i < k && it != e; ++i) { ++it; ++n; }
    pax_out("o", it.base() - b.base()); pax_out("n", n); pax_out("l", it.size()); pax_out("end", it == e);
}
template <class C, unsigned N> static void bwd(unsigned k)
{
    text<C, N> t; auto b = codepoint_begin(t.sv()), e = codepoint_end(t.sv()); auto it = e; unsigned n = 0;
    for(unsigned i = 0; i < k && it != b; ++i) { --it; ++n; }
    pax_out("o", it.base() - b.base()); pax_out("n", n); pax_out("l", it.size());
}
#define IT(W, C, N, K) ROOT r_fwd##W##_##K() { fwd<C, N>(K); } ROOT r_bwd##W##_##K() { bwd<C, N>(K); }
IT(8, char8_t, 4, 1) IT(8, char8_t, 4, 2) IT(8, char8_t, 4, 3) IT(16, char16_t, 3, 1) IT(16, char16_t, 3, 2) IT(16, char16_t, 3, 3) IT(32, char32_t, 2, 1) IT(32, char32_t, 2, 2)
template <class C, unsigned N> static void cfwd(unsigned k)
{
    text<C, N> t; basic_string_container<C> s(t.sv()); auto b = s.begin(), e = s.end(); auto it = b;
    for(unsigned i = 0; i < k && !(it == e); ++i) ++it;
    pax_out("o", it.to_address() - b.to_address()); pax_out("end", it == e);
}
template <class C, unsigned N> static void cbwd(unsigned k)
{
    text<C, N> t; basic_string_container<C> s(t.sv()); auto b = s.begin(), e = s.end(); auto it = e;
    for(unsigned i = 0; i < k && !(it == b); ++i) --it;
    pax_out("o", it.to_address() - b.to_address());
}
#define CIT(W, C, N, K) ROOT r_cfwd##W##_##K() { cfwd<C, N>(K); } ROOT r_cbwd##W##_##K() { cbwd<C, N>(K); }
CIT(8, char8_t, 4, 1) CIT(8, char8_t, 4, 2) CIT(16, char16_t, 3, 1) CIT(16, char16_t, 3, 2) CIT(32, char32_t, 2, 1) CIT(32, char32_t, 2, 2)
// element access and slicing in code points
template <class C, unsigned N> static void at(unsigned k) { text<C, N> t; basic_string_ref<C> s(t.sv()); char32_t c = s.at(k); pax_out("c", c); }
template <class C, unsigned N> static void rat(unsigned k) { text<C, N> t; basic_string_ref<C> s(t.sv()); char32_t c = s.at(reverse_index, k); pax_out("c", c); }
template <class C, unsigned N> static void sub(unsigned p, unsigned n) { text<C, N> t; basic_string_ref<C> s(t.sv()); auto [q, m] = s.substr_extended(p, n); pax_out("o", q.data() - t.d); pax_out("z", q.size()); pax_out("m", m); }
template <class C, unsigned N> static void slice(index_range r) { text<C, N> t; basic_string_ref<C> s(t.sv()); auto q = s.template substr<substr_behavior::empty_string>(r); pax_out("z", q.size()); if(q.size()) pax_out("o", q.data() - t.d); }
#define ACC(W, C, N) \
    ROOT r_at##W##_0() { at<C, N>(0); } ROOT r_at##W##_1() { at<C, N>(1); } ROOT r_rat##W##_0() { rat<C, N>(0); } ROOT r_rat##W##_1() { rat<C, N>(1); } \
    ROOT r_sub##W##_0_1() { sub<C, N>(0, 1); } ROOT r_sub##W##_1_1() { sub<C, N>(1, 1); } ROOT r_sub##W##_1_9() { sub<C, N>(1, 9); } ROOT r_sub##W##_2_0() { sub<C, N>(2, 0); } \
    ROOT r_slice##W##_0_1() { slice<C, N>(index_range(0, 1)); } ROOT r_slice##W##_1_m1() { slice<C, N>(index_range(1, -1)); } ROOT r_slice##W##_m2_m1() { slice<C, N>(index_range(-2, -1)); } ROOT r_slice##W##_m1_e() { slice<C, N>(index_range(-1)); } ROOT r_slice##W##_2_1() { slice<C, N>(index_range(2, 1)); }
ACC(8, char8_t, 4) ACC(16, char16_t, 3) ACC(32, char32_t, 2)
