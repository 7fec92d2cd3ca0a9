// Instantiation harness: makes the compiler emit the library's templates so that the
// analyses see every part of it.  It is compiled to LLVM IR only; it is never linked or run.
#include <papilio/papilio.hpp>
#include <papilio/xchar.hpp>
#include <papilio/locale.hpp>
#include <papilio/color.hpp>
#include <papilio/container.hpp>
#include <papilio/memory.hpp>
#include <papilio/utility.hpp>
#include <papilio/utf/utf.hpp>
#include <papilio/utf/stralgo.hpp>
#include <papilio/formatter/misc.hpp>
#include <papilio/formatter/filesystem.hpp>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/vocabulary.hpp>
#include <papilio/formatter/tuple.hpp>
#include <papilio/accessor/misc.hpp>
#include <papilio/accessor/ranges.hpp>
#include <papilio/accessor/chrono.hpp>
#include <papilio/accessor/vocabulary.hpp>
#include <papilio/accessor/tuple.hpp>
#include <papilio/os/os.hpp>
#include <map>
#include <vector>
#include <list>
#include <array>
#include <deque>
#include <unordered_map>
#include <sstream>
#include <thread>

namespace pp = papilio;
using namespace papilio;

// ---- user types whose hooks throw ------------------------------------------------------
namespace user {
struct user_error { int v; };
[[gnu::noinline]] void may_throw(); // declaration only: treated as throwing user_error below
inline void boom(bool b) { if(b) throw user_error{1}; }
extern volatile bool g_flag;

struct boom_small { // stored inline in a handle; copying throws
    int v = 0;
    boom_small() = default;
    boom_small(const boom_small& o) : v(o.v) { boom(g_flag); }
    boom_small& operator=(const boom_small&) = default;
};
struct boom_big { // stored on the heap
    char pad[256];
    boom_big() = default;
    boom_big(const boom_big& o) { (void)o; boom(g_flag); }
};
struct attr_t { int v = 0; }; // user accessor
struct strm { int v; friend std::ostream& operator<<(std::ostream& os, const strm& s) { boom(g_flag); return os << s.v; } };
enum class en : int { a = 0, b = 1, c = 7 };
}

template <typename CharT>
class papilio::formatter<user::boom_small, CharT>
{
public:
    template <typename PC> auto parse(PC& ctx) -> typename PC::iterator { user::boom(user::g_flag); return ctx.begin(); }
    template <typename FC> auto format(const user::boom_small&, FC& ctx) const -> typename FC::iterator { user::boom(user::g_flag); return ctx.out(); }
};
template <typename CharT>
class papilio::formatter<user::boom_big, CharT>
{
public:
    template <typename PC, typename FC> auto format(const user::boom_big&, PC& pc, FC& ctx) const -> typename FC::iterator
    { user::boom(user::g_flag); (void)pc; return ctx.out(); }
};
template <typename CharT>
class papilio::formatter<user::attr_t, CharT>
{
public:
    template <typename FC> auto format(const user::attr_t&, FC& ctx) const -> typename FC::iterator { user::boom(user::g_flag); return ctx.out(); }
};
template <typename Context>
class papilio::accessor<user::attr_t, Context>
{
public:
    static basic_format_arg<Context> index(const user::attr_t& a, const basic_indexing_value<typename Context::char_type>& i) { user::boom(user::g_flag); (void)i; return a.v; }
    static basic_format_arg<Context> attribute(const user::attr_t& a, const basic_attribute_name<typename Context::char_type>& n) { user::boom(user::g_flag); (void)n; return a.v; }
};

// ---- explicit instantiations: every character type --------------------------------------
#define FOR_EACH_CHAR(X) X(char) X(wchar_t) X(char8_t) X(char16_t) X(char32_t)

#define INST_UTF(C) \
    template class papilio::utf::codepoint_iterator<C>; \
    template class papilio::utf::detail::cp_iter_impl<C>; \
    template class papilio::utf::implement_string<C, papilio::utf::basic_string_ref<C>>; \
    template class papilio::utf::implement_string<C, papilio::utf::basic_string_container<C>>; \
    template class papilio::utf::basic_string_ref<C>; \
    template class papilio::utf::basic_string_container<C>; \
    template class papilio::utf::decoder<C>;
FOR_EACH_CHAR(INST_UTF)


template <typename C> using ctx_of = basic_format_context<format_iterator_for<C>, C>;

#define INST_CORE(C) \
    template class papilio::basic_format_arg<ctx_of<C>>; \
    template class papilio::basic_format_context<format_iterator_for<C>, C>; \
    template class papilio::format_context_traits<ctx_of<C>>; \
    template class papilio::basic_format_parse_context<ctx_of<C>>; \
    template class papilio::basic_interpreter<ctx_of<C>, false>; \
    template class papilio::basic_interpreter<ctx_of<C>, true>; \
    template class papilio::basic_dynamic_format_args<ctx_of<C>, C>; \
    template class papilio::basic_format_args_ref<ctx_of<C>, C>; \
    template class papilio::static_format_args<2, 1, ctx_of<C>, C>; \
    template class papilio::std_formatter_parser<basic_format_parse_context<ctx_of<C>>, true>; \
    template class papilio::std_formatter_parser<basic_format_parse_context<ctx_of<C>>, false>; \
    template class papilio::formatted_range<C>;
#define INST_CORE1(C) INST_CORE(C)
FOR_EACH_CHAR(INST_CORE1)

// ---- UTF strings: member templates and operators
template <typename C> void use_utf(utf::basic_string_ref<C> r, utf::basic_string_container<C> s, utf::codepoint cp, std::basic_string_view<C> sv, const C* p)
{
    (void)r[0]; (void)r[reverse_index, 0]; (void)s[0]; (void)std::as_const(s)[0]; (void)s[reverse_index, 0]; s[0] = cp; s[0] = s[1]; (void)(s[0] == s[1]); (void)(r[0] == r[1]);
    (void)static_cast<char32_t>(s[0]); (void)static_cast<char32_t>(r[0]); (void)static_cast<char32_t>(std::as_const(s)[0]);
    (void)(r == s); (void)(r == sv); (void)(s == s); (void)(r == p); (void)(s == p); (void)(r <=> r);
    for(char32_t c : r) (void)c;
    for(auto it = s.begin(); it != s.end(); ++it) { (void)static_cast<char32_t>(*it); }
    std::basic_string<C> str; cp.append_to(str);
}
template void use_utf<char>(utf::basic_string_ref<char>, utf::basic_string_container<char>, utf::codepoint, std::basic_string_view<char>, const char*);
template void use_utf<wchar_t>(utf::basic_string_ref<wchar_t>, utf::basic_string_container<wchar_t>, utf::codepoint, std::basic_string_view<wchar_t>, const wchar_t*);
template void use_utf<char8_t>(utf::basic_string_ref<char8_t>, utf::basic_string_container<char8_t>, utf::codepoint, std::basic_string_view<char8_t>, const char8_t*);
template void use_utf<char16_t>(utf::basic_string_ref<char16_t>, utf::basic_string_container<char16_t>, utf::codepoint, std::basic_string_view<char16_t>, const char16_t*);
template void use_utf<char32_t>(utf::basic_string_ref<char32_t>, utf::basic_string_container<char32_t>, utf::codepoint, std::basic_string_view<char32_t>, const char32_t*);
// ---- use of the public interface -----------------------------------------------------------
[[gnu::used]] void use_args_char(std::string_view fmt, const std::locale& loc, FILE* fp, std::ostream& os)
{
    bool b = true; char c = 'a'; int i = 1; unsigned u = 2; short sh = 1; unsigned short us = 1; signed char sc = 1; unsigned char uc = 1;
    long l = 1; unsigned long ul = 2; long long ll = 3; unsigned long long ull = 4;
    float f = 1; double d = 2; long double ld = 3; void* p = nullptr; const char* cs = "x"; std::string s = "s"; std::string_view sv = s;
    char32_t c32 = U'a'; utf::codepoint cp;
    std::vector<int> v; std::map<std::string, int> m; std::list<int> li; std::array<int, 3> arr{}; std::deque<int> dq;
    std::map<int, std::string> mi; std::vector<std::string> vs; std::unordered_map<std::string, std::string> um;
    std::pair<int, std::string> pr; std::tuple<int, char, std::string> tp; std::optional<int> opt; std::variant<int, std::string> var; 
    std::variant<std::monostate, int> var2;
    std::tm tm{}; std::filesystem::path path; user::boom_small bs; user::boom_big bb; user::attr_t at; user::strm st{1};
    std::thread::id tid; std::error_code ec; std::vector<bool> vb;
    using namespace papilio::literals;
    (void)pp::vformat(fmt, make_format_args(b, c, i, u, sh, us, sc, uc, l, ul, ll, ull, f, d, ld, p, nullptr, cs, s, sv, std::string("tmp")));
    (void)pp::vformat(loc, fmt, make_format_args(v, m, li, arr, dq, mi, vs, um, pr, tp, opt, var, tm, path, bs, bb, at, st, user::en::a, c32, cp));
    (void)pp::vformat(fmt, make_format_args(var2, "n"_a = 1, "m"_a = s, "k"_a = std::string("t"), arg("q", d), arg("r", v)));
    (void)pp::vformat(fmt, make_format_args(std::move(bs), std::move(bb), std::move(at), std::vector<int>{1}));
    (void)pp::vformat(fmt, make_format_args(join(v, ", "), join(vs, ", "), join(vs)));
    (void)pp::vformat(fmt, make_format_args(format_arg(independent, s), format_arg(independent, bs), format_arg(independent, bb), format_arg(independent, v), format_arg(independent, var), format_arg(independent, std::move(m))));
    (void)pp::vformat(fmt, make_format_args(styled(fg(color::red), i), styled(bg(color::blue) | style::bold, s)));
    pp::dynamic_format_args da; da.append(i, s, "n"_a = 1, std::string("x"), bs, bb, independent(s), independent(bs), v, at); da.clear();
    (void)pp::vformat(fmt, da);
    (void)pp::format("{} {}", 1, s); (void)pp::format(loc, "{}", 1);
    char buf[8]; pp::format_to(buf, "{}", 1); std::locale loc2; pp::format_to(buf, loc2, "{}", 1);
    (void)pp::format_to_n(buf, 4, "{} {}", 1, s); (void)pp::format_to_n(buf, 4, loc, "{}", 1);
    (void)pp::formatted_size("{} {}", 1, s); (void)pp::formatted_size(loc, "{}", 1);
    pp::print("{}", 1); pp::println("{}", 1); pp::print(fp, "{}", 1); pp::println(fp, "{}", 1); pp::println(); pp::println(fp);
    pp::print(os, "{}", 1); pp::println(os, "{}", 1); pp::println(os); pp::print(fg(color::red), "{}", 1); pp::println(bg(color::red), "{}", 1);
    pp::formatted_range<char> fr("{} {}", make_format_args(1, 2));
    auto it = fr.begin(); auto it2 = std::move(it); it2 = fr.begin(); (void)(it2 == fr.end()); ++it2; (void)*it2; it2++;
    (void)os::is_terminal(fp); os::output_conv(fp, sv); os::output_nonconv(fp, sv);
    text_style ts = fg(color::red) | style::bold; ts |= bg(color::blue); ts.set(std::back_inserter(s)); ts.reset(std::back_inserter(s)); (void)ts.has_style(style::bold);
    std::ostringstream oss; oss << cp; (void)std::as_const(s);
    if(i) throw format_error("x");
}
#define P(x) L##x
[[gnu::used]] void use_args_wchar(std::wstring_view fmt, const std::locale& loc)
{
    bool b = true; wchar_t c = L'a'; int i = 1; unsigned u = 2; long long ll = 3; unsigned long long ull = 4; long l = 1; char nc = 'x'; __int128 i128 = 1; (void)i128;
    float f = 1; double d = 2; long double ld = 3; void* p = nullptr; const wchar_t* cs = L"x"; std::wstring s = L"s"; std::wstring_view sv = s;
    char32_t c32 = U'a'; utf::codepoint cp; (void)nc;
    std::vector<int> v; std::map<std::wstring, int> m; std::vector<std::wstring> vs; std::pair<int, std::wstring> pr; std::optional<int> opt; std::variant<int, std::wstring> var;
    std::tm tm{}; user::boom_small bs; user::boom_big bb; user::attr_t at; std::filesystem::path path;
    (void)pp::vformat(fmt, make_wformat_args(b, c, i, u, l, ll, ull, f, d, ld, p, nullptr, cs, s, sv, c32, cp, std::wstring(L"tmp")));
    (void)pp::vformat(loc, fmt, make_wformat_args(v, m, vs, pr, opt, var, tm, path, bs, bb, at, user::en::a, independent(s)));
    pp::wdynamic_format_args da; da.append(i, s, bs, bb); (void)pp::vformat(fmt, da);
    (void)pp::format(L"{} {}", 1, s); (void)pp::format(loc, L"{}", 1);
    wchar_t buf[8]; pp::format_to(buf, L"{}", 1); (void)pp::format_to_n(buf, 4, L"{}", 1); (void)pp::formatted_size(L"{}", 1);
}
template <typename C, typename Str>
void use_args_x(std::basic_string_view<C> fmt)
{
    using ctx_t = format_context_traits<ctx_of<C>>;
    bool b = true; C c = C('a'); int i = 1; unsigned u = 2; long long ll = 3; unsigned long long ull = 4; char32_t c32 = U'a'; utf::codepoint cp;
    float f = 1; double d = 2; long double ld = 3; void* p = nullptr; std::basic_string<C> s; std::basic_string_view<C> sv = s;
    std::vector<int> v; std::map<int, int> m; std::pair<int, int> pr; user::boom_small bs; user::boom_big bb; user::attr_t at; std::tm tm{};
    (void)pp::vformat(fmt, ctx_t::make_format_args(b, c, i, u, ll, ull, f, d, ld, p, nullptr, s, sv, c32, cp, std::basic_string<C>()));
    (void)pp::vformat(fmt, ctx_t::make_format_args(v, m, pr, bs, bb, at, user::en::a));
    (void)tm;
}
[[gnu::used]] void use_x() {
    use_args_x<char8_t, std::u8string>(u8""); use_args_x<char16_t, std::u16string>(u""); use_args_x<char32_t, std::u32string>(U"");
    char8_t b8[8]; pp::format_to(b8, u8"{}", 1); (void)pp::format_to_n(b8, 4, u8"{}", 1); (void)pp::formatted_size(u8"{}", 1); (void)pp::format(u8"{}", 1);
    char16_t b16[8]; pp::format_to(b16, u"{}", 1); (void)pp::format_to_n(b16, 4, u"{}", 1); (void)pp::formatted_size(u"{}", 1); (void)pp::format(u"{}", 1);
    char32_t b32[8]; pp::format_to(b32, U"{}", 1); (void)pp::format_to_n(b32, 4, U"{}", 1); (void)pp::formatted_size(U"{}", 1); (void)pp::format(U"{}", 1);
}
