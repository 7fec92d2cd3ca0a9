From 31ceddcdadde5618d801a1f4fd3d93d377b895ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 01/70] fix: pass the string of the format string in format_to
 for char8_t, char16_t and char32_t

The format string object does not convert to a string view, so these overloads did not compile.
---
 include/papilio/xchar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/xchar.hpp b/include/papilio/xchar.hpp
index f9b2007..d0b7cc9 100644
--- a/include/papilio/xchar.hpp
+++ b/include/papilio/xchar.hpp
@@ -60,7 +60,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char8_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
@@ -157,7 +157,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char16_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
@@ -255,7 +255,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char32_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
-- 
2.43.0


From 966b4b7e3523e486970b656baf06859d84bd6a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 02/70] fix: make codepoint::replace compile for UTF-32 strings

---
 include/papilio/utf/codepoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 94889f8..6b3e5b1 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -433,7 +433,7 @@ public:
         {
             str.replace(pos, count, std::basic_string_view<CharT>(*this));
         }
-        else if(char16_like<CharT>)
+        else if constexpr(char16_like<CharT>)
         {
             auto result = decoder<CharT>::from_codepoint(*this);
             str.replace(pos, count, result.get());
-- 
2.43.0


From b27230b6c13387ae3a71913bdfe2638503c1f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 03/70] fix: return from string_container::assign(count, ch)

---
 include/papilio/utf/string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 9f9585c..b1cdea0 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -963,6 +963,7 @@ public:
     {
         string_type& str = to_str();
         str.assign(count, ch);
+        return *this;
     }
 
     basic_string_container& assign(size_type count, codepoint cp)
-- 
2.43.0


From 2b0e844dad7c6d025f90a5aca73714959609dde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 04/70] fix: string_container::assign(count, codepoint)
 replaces the old content

---
 include/papilio/utf/string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index b1cdea0..8168e0e 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -969,6 +969,7 @@ public:
     basic_string_container& assign(size_type count, codepoint cp)
     {
         string_type& str = to_str();
+        str.clear();
         if constexpr(char8_like<CharT>)
         {
             for(size_type i = 0; i < count; ++i)
-- 
2.43.0


From b0842b4c06c828271a6b5c03cac7fb784244fe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 05/70] fix: make to_variant() callable on an rvalue variable

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3b39259..666d8be 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -584,7 +584,7 @@ public:
     [[nodiscard]]
     variant_type&& to_variant() && noexcept
     {
-        return m_var;
+        return std::move(m_var);
     }
 
     [[nodiscard]]
-- 
2.43.0


From 185ae2e6fd430fbe68ee241fdb591103b9043d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 06/70] fix: return the type of a format argument handle by
 reference

std::type_info is not copyable, so calling handle::type() did not compile.
---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 666d8be..2a66d1e 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1175,7 +1175,7 @@ public:
         }
 
         [[nodiscard]]
-        std::type_info type()
+        const std::type_info& type() const noexcept
         {
             return ptr()->type();
         }
-- 
2.43.0


From 84b42a0c0153493252e462244dad4d3b9a8f7a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 07/70] fix: let errors of a skipped format specification leave
 skip_spec()

Parsing the specification of a field in an untaken branch may throw; a
noexcept skip_spec() turned every such error into std::terminate().
---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 2a66d1e..9fa3201 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2921,7 +2921,7 @@ struct formatter_traits
      * @param parse_ctx Parse context
      */
     template <typename ParseContext>
-    static void skip_spec(ParseContext& parse_ctx) noexcept
+    static void skip_spec(ParseContext& parse_ctx)
     {
         if constexpr(parsable<ParseContext>())
         {
-- 
2.43.0


From 72961b3b5648db16337f2fd98779922dcceaed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 08/70] fix: do not move from the lvalue bound to a named
 argument

"name"_a = s moved the caller's string into the argument list, so formatting emptied it.
---
 include/papilio/utility.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 8a41c03..903e45a 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -271,16 +271,26 @@ struct is_named_arg : public std::bool_constant<detail::is_named_arg_helper<T>>
 PAPILIO_EXPORT template <typename T>
 constexpr inline bool is_named_arg_v = is_named_arg<T>::value;
 
+namespace detail
+{
+    // An lvalue still belongs to the caller: it must never be moved from.
+    template <typename T>
+    using named_arg_value_t = std::conditional_t<
+        std::is_lvalue_reference_v<T>,
+        std::add_const_t<std::remove_reference_t<T>>,
+        std::remove_reference_t<T>>;
+} // namespace detail
+
 PAPILIO_EXPORT template <typename CharT, typename T>
 constexpr auto arg(const CharT* name, T&& value) noexcept
 {
-    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value);
+    return basic_named_arg<CharT, detail::named_arg_value_t<T>>(name, value);
 }
 
 PAPILIO_EXPORT template <typename CharT, typename T>
 constexpr auto arg(const std::basic_string_view<CharT> name, T&& value) noexcept
 {
-    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value);
+    return basic_named_arg<CharT, detail::named_arg_value_t<T>>(name, value);
 }
 
 namespace detail
-- 
2.43.0


From 4dda6438c6c666a1ac334b7dd313afe215b5f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 09/70] fix: dynamic format arguments refer to the named value
 itself

std::make_pair() decayed the value into a temporary, and the stored handle pointed into it.
---
 include/papilio/core.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 9fa3201..58694ad 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1847,10 +1847,10 @@ public:
                 "Invalid char type"
             );
 
-            m_named_args.emplace(std::make_pair(
-                PAPILIO_NS forward_like<T>(val.name),
+            m_named_args.emplace(
+                val.name,
                 PAPILIO_NS forward_like<T>(val.value)
-            ));
+            );
         }
         else
         {
-- 
2.43.0


From 1caf5b47e94e563dd0724aef58f67391751239dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 10/70] fix: accept a named argument passed as an lvalue

It was counted as named but stored as indexed, which overflowed the fixed storage and terminated.
---
 include/papilio/core.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 58694ad..fd9dca2 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1788,15 +1788,15 @@ private:
     map_type m_named_args;
 
     template <typename T>
-    requires(!is_named_arg_v<T>)
+    requires(!is_named_arg_v<std::remove_cvref_t<T>>)
     void emplace(T&& val) noexcept(std::is_nothrow_constructible_v<format_arg_type, T>)
     {
         m_indexed_args.emplace_back(std::forward<T>(val));
     }
 
     template <typename T>
-    requires(is_named_arg_v<T> && std::is_same_v<char_type, typename T::char_type>)
-    void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename T::value_type>)
+    requires(is_named_arg_v<std::remove_cvref_t<T>> && std::is_same_v<char_type, typename std::remove_cvref_t<T>::char_type>)
+    void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename std::remove_cvref_t<T>::value_type>)
     {
         m_named_args.insert_or_assign(
             na.name,
@@ -1843,7 +1843,7 @@ public:
         if constexpr(is_named_arg_v<std::remove_cvref_t<T>>)
         {
             static_assert(
-                std::is_same_v<char_type, typename T::char_type>,
+                std::is_same_v<char_type, typename std::remove_cvref_t<T>::char_type>,
                 "Invalid char type"
             );
 
-- 
2.43.0


From bc8c9999d42c05dd7f11855182856a220f194307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 11/70] fix: let invalid UTF-16 leave the string operations as
 an exception

Decoding an unpaired surrogate throws invalid_surrogate, but the operations on
strings that decode code points were noexcept, so that the program terminated.
---
 include/papilio/core.hpp          | 14 +++---
 include/papilio/utf/codepoint.hpp |  6 +--
 include/papilio/utf/string.hpp    | 74 +++++++++++++++----------------
 3 files changed, 47 insertions(+), 47 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index fd9dca2..b08d896 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -602,10 +602,10 @@ public:
      * @return std::partial_ordering The relationship between two variables.
      */
     [[nodiscard]]
-    std::partial_ordering compare(const basic_variable& var) const noexcept
+    std::partial_ordering compare(const basic_variable& var) const
     {
         return std::visit(
-            [](const auto& lhs, const auto& rhs) noexcept
+            [](const auto& lhs, const auto& rhs)
             {
                 return compare_impl(lhs, rhs);
             },
@@ -695,7 +695,7 @@ private:
     }
 
     template <typename T>
-    static std::partial_ordering compare_impl(const T& lhs, const T& rhs) noexcept
+    static std::partial_ordering compare_impl(const T& lhs, const T& rhs)
     {
         return lhs <=> rhs;
     }
@@ -3215,12 +3215,12 @@ protected:
     }
 
     // Skips white spaces
-    static iterator skip_ws(iterator start, iterator stop) noexcept
+    static iterator skip_ws(iterator start, iterator stop)
     {
         return std::find_if_not(start, stop, utf::is_whitespace);
     }
 
-    static iterator find_field_name_end(iterator start, iterator stop, bool first = true) noexcept
+    static iterator find_field_name_end(iterator start, iterator stop, bool first = true)
     {
         while(start != stop)
         {
@@ -3365,7 +3365,7 @@ protected:
         }
     }
 
-    static iterator skip_string(iterator start, iterator stop) noexcept
+    static iterator skip_string(iterator start, iterator stop)
     {
         bool esc = false;
         while(start != stop)
@@ -4253,7 +4253,7 @@ namespace detail
          * @param stop The end iterator.
          * @return True if the iterator is at the end of the parsing context or at a closing brace, otherwise false.
         */
-        static bool check_stop(iterator start, iterator stop) noexcept
+        static bool check_stop(iterator start, iterator stop)
         {
             return start == stop || *start == U'}';
         }
diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 6b3e5b1..2036ec5 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -748,17 +748,17 @@ public:
 
         reference_proxy(const reference_proxy&) = delete;
 
-        constexpr bool operator==(const reference_proxy& rhs) const noexcept
+        constexpr bool operator==(const reference_proxy& rhs) const noexcept(!char16_like<CharT>)
         {
             return static_cast<char32_t>(*this) == static_cast<char32_t>(rhs);
         }
 
-        constexpr operator codepoint() const noexcept
+        constexpr operator codepoint() const noexcept(!char16_like<CharT>)
         {
             return decoder<CharT>::to_codepoint(std::basic_string_view<CharT>(m_ptr, m_len)).first;
         }
 
-        constexpr operator char32_t() const noexcept
+        constexpr operator char32_t() const noexcept(!char16_like<CharT>)
         {
             return static_cast<codepoint>(*this);
         }
diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 8168e0e..67b0543 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -152,7 +152,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr codepoint index_or(size_type i, codepoint default_val) const noexcept
+    constexpr codepoint index_or(size_type i, codepoint default_val) const noexcept(!char16_like<CharT>)
     {
         size_type off = get_offset(i);
         if(off == npos) return default_val;
@@ -160,7 +160,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr codepoint index_or(reverse_index_t, size_type i, codepoint default_val) const noexcept
+    constexpr codepoint index_or(reverse_index_t, size_type i, codepoint default_val) const noexcept(!char16_like<CharT>)
     {
         size_type off = get_offset(reverse_index, i);
         if(off == npos) return default_val;
@@ -204,19 +204,19 @@ public:
     }
 
     [[nodiscard]]
-    constexpr codepoint front() const noexcept
+    constexpr codepoint front() const noexcept(!char16_like<CharT>)
     {
         return index(0);
     }
 
     [[nodiscard]]
-    constexpr codepoint back() const noexcept
+    constexpr codepoint back() const noexcept(!char16_like<CharT>)
     {
         return index(reverse_index, 0);
     }
 
     [[nodiscard]]
-    const_iterator find(codepoint ch, size_type pos = 0) const noexcept
+    const_iterator find(codepoint ch, size_type pos = 0) const noexcept(!char16_like<CharT>)
     {
         auto it = as_derived().cbegin();
         const auto sentinel = as_derived().cend();
@@ -230,7 +230,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr bool contains(codepoint ch) const noexcept
+    constexpr bool contains(codepoint ch) const noexcept(!char16_like<CharT>)
     {
         return find(ch) != as_derived().cend();
     }
@@ -248,7 +248,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr bool starts_with(codepoint cp) const noexcept
+    constexpr bool starts_with(codepoint cp) const noexcept(!char16_like<CharT>)
     {
         return !empty() && front() == cp;
     }
@@ -386,7 +386,7 @@ protected:
         }
     }
 
-    constexpr codepoint cp_from_off(size_type off) const noexcept
+    constexpr codepoint cp_from_off(size_type off) const noexcept(!char16_like<CharT>)
     {
         string_view_type str = get_view();
         PAPILIO_ASSERT(off < str.size());
@@ -556,7 +556,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr bool ends_with(codepoint cp) const noexcept
+    constexpr bool ends_with(codepoint cp) const noexcept(!char16_like<CharT>)
     {
         return !this->empty() && this->back() == cp;
     }
@@ -659,25 +659,25 @@ public:
     }
 
     template <char_like U>
-    constexpr int compare(basic_string_ref<U> other) const noexcept
+    constexpr int compare(basic_string_ref<U> other) const
     {
         return this->compare_impl(other);
     }
 
     template <char_like U>
-    constexpr int compare(const U* other) const noexcept
+    constexpr int compare(const U* other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(std::basic_string_view<U> other) const noexcept
+    constexpr int compare(std::basic_string_view<U> other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(const std::basic_string<U>& other) const noexcept
+    constexpr int compare(const std::basic_string<U>& other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
@@ -702,7 +702,7 @@ private:
     }
 
     template <typename Other>
-    constexpr int compare_impl(const Other& other) const noexcept
+    constexpr int compare_impl(const Other& other) const
     {
         auto i = this->cbegin();
         auto j = other.cbegin();
@@ -795,43 +795,43 @@ constexpr bool operator==(const std::basic_string<T>& lhs, basic_string_ref<U> r
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, basic_string_ref<U> rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const U* rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const U* rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const T* lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(const T* lhs, basic_string_ref<U> rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, std::basic_string_view<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, std::basic_string_view<U> rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, basic_string_ref<U> rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const std::basic_string<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const std::basic_string<U>& rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, basic_string_ref<U> rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
@@ -1211,31 +1211,31 @@ public:
     }
 
     template <char_like U>
-    constexpr int compare(const basic_string_container<U>& other) const noexcept
+    constexpr int compare(const basic_string_container<U>& other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(basic_string_ref<U> other) const noexcept
+    constexpr int compare(basic_string_ref<U> other) const
     {
         return this->compare_impl(other);
     }
 
     template <char_like U>
-    constexpr int compare(const U* other) const noexcept
+    constexpr int compare(const U* other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(std::basic_string_view<U> other) const noexcept
+    constexpr int compare(std::basic_string_view<U> other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(const std::basic_string<U>& other) const noexcept
+    constexpr int compare(const std::basic_string<U>& other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
@@ -1271,17 +1271,17 @@ public:
     public:
         reference_proxy(const reference_proxy&) = delete;
 
-        constexpr bool operator==(const reference_proxy& rhs) const noexcept
+        constexpr bool operator==(const reference_proxy& rhs) const noexcept(!char16_like<CharT>)
         {
             return static_cast<char32_t>(*this) == static_cast<char32_t>(rhs);
         }
 
-        constexpr operator codepoint() const noexcept
+        constexpr operator codepoint() const noexcept(!char16_like<CharT>)
         {
             return m_str->cp_from_off(m_offset);
         }
 
-        constexpr operator char32_t() const noexcept
+        constexpr operator char32_t() const noexcept(!char16_like<CharT>)
         {
             return static_cast<codepoint>(*this);
         }
@@ -1573,7 +1573,7 @@ private:
     }
 
     template <typename U>
-    constexpr int compare_impl(basic_string_ref<U> other) const noexcept
+    constexpr int compare_impl(basic_string_ref<U> other) const
     {
         auto i = this->cbegin();
         auto j = other.cbegin();
@@ -1652,43 +1652,43 @@ constexpr bool operator==(const std::basic_string<T>& lhs, const basic_string_co
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const basic_string_container<U>& rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const U* rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const U* rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const T* lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const T* lhs, const basic_string_container<U>& rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, std::basic_string_view<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, std::basic_string_view<U> rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, const basic_string_container<U>& rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const std::basic_string<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const std::basic_string<U>& rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, const basic_string_container<U>& rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
-- 
2.43.0


From eeb13d0251a9cabe3498bebbe4b4640a2b99e5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 12/70] fix: let a throwing copy leave the construction of an
 independent format argument

The constructor was noexcept, and the handle delegated to its default constructor,
so its destructor ran on storage in which nothing had been constructed.
---
 include/papilio/core.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index b08d896..7f67c83 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1110,7 +1110,6 @@ public:
 
         template <typename T>
         handle(independent_t, T&& val)
-            : handle()
         {
             construct<T>(independent, std::forward<T>(val));
         }
@@ -1365,7 +1364,7 @@ public:
 
     template <typename T>
     requires(use_handle_v<T>)
-    basic_format_arg(independent_t, T&& val) noexcept
+    basic_format_arg(independent_t, T&& val)
         : m_val(std::in_place_type<handle>, independent, std::forward<T>(val))
     {}
 
-- 
2.43.0


From 3379c3f819f557040996a4eb863216c1a2d2e3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 13/70] fix: the range of high surrogates is D800 to DBFF

---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index f5adb4c..78580aa 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -86,7 +86,7 @@ constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
 PAPILIO_EXPORT [[nodiscard]]
 constexpr inline bool is_high_surrogate(std::uint16_t ch) noexcept
 {
-    return 0xD7FF <= ch && ch <= 0xE000;
+    return 0xD800 <= ch && ch <= 0xDBFF;
 }
 
 PAPILIO_EXPORT [[nodiscard]]
-- 
2.43.0


From bbdbd6448c38021dca03b913f7edf8d7c96b081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 14/70] fix: decoder<char32_t>::from_codepoint() uses all four
 bytes of a four byte sequence

---
 include/papilio/utf/codepoint.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 142cbee..4383997 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -91,7 +91,7 @@ constexpr std::pair<char32_t, std::uint8_t> decoder<char32_t>::from_codepoint(co
     else if(0b1111'0000 <= bytes[0] && bytes[0] <= 0b1111'0111)
     {
         char32_t result = U'\0';
-        result |= bytes[0] & 0b0000'1111;
+        result |= bytes[0] & 0b0000'0111;
         result <<= 6;
         result |= bytes[1] & 0b0011'1111;
         result <<= 6;
@@ -99,7 +99,7 @@ constexpr std::pair<char32_t, std::uint8_t> decoder<char32_t>::from_codepoint(co
         result <<= 6;
         result |= bytes[3] & 0b0011'1111;
 
-        return std::make_pair(result, std::uint8_t(3));
+        return std::make_pair(result, std::uint8_t(4));
     }
 
     return std::make_pair(U'\0', std::uint8_t(0));
-- 
2.43.0


From 81956ed80038a37699a9759d9d4b2e53b7f2796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 15/70] fix: byte_count() has a value for bytes that begin no
 sequence

---
 include/papilio/utf/stralgo.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 78580aa..82f6efd 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -80,7 +80,8 @@ constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
     else if((leading_byte & 0b1111'1000) == 0b1111'0000)
         return 4;
 
-    PAPILIO_UNREACHABLE();
+    // Not the first byte of any sequence
+    return 1;
 }
 
 PAPILIO_EXPORT [[nodiscard]]
-- 
2.43.0


From 62504d1a977c17d4d51134da108481d82cff1aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 16/70] fix: do not read behind the string when it ends with an
 incomplete sequence

---
 include/papilio/utf/codepoint.hpp | 4 ++++
 include/papilio/utf/codepoint.inl | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 2036ec5..b6202eb 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -225,6 +225,8 @@ public:
         PAPILIO_ASSERT(len <= 4);
         for(std::uint8_t i = 0; i < len; ++i)
             m_data[i] = ptr[i];
+        for(std::uint8_t i = len; i < 4; ++i)
+            m_data[i] = 0;
 
         return *this;
     }
@@ -239,6 +241,8 @@ public:
         PAPILIO_ASSERT(len <= 4);
         for(std::uint8_t i = 0; i < len; ++i)
             m_data[i] = static_cast<char8_t>(ptr[i]);
+        for(std::uint8_t i = len; i < 4; ++i)
+            m_data[i] = 0;
 
         return *this;
     }
diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 4383997..6913aea 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -115,6 +115,8 @@ constexpr std::pair<codepoint, std::uint8_t> decoder<char8_t>::to_codepoint(std:
     if(ch.empty()) [[unlikely]]
         return std::make_pair(codepoint(), std::uint8_t(0));
     std::uint8_t len = size_bytes(ch[0]);
+    if(ch.size() < len) [[unlikely]]
+        len = static_cast<std::uint8_t>(ch.size());
     return std::make_pair(codepoint(ch.data(), len), len);
 }
 
-- 
2.43.0


From b340a6c84365ec69156607cf17f5ea95027af3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 17/70] fix: keep code point iterators inside strings with
 incomplete sequences

---
 include/papilio/utf/codepoint.hpp | 20 +++++++++++++++++++-
 include/papilio/utf/codepoint.inl |  4 ++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index b6202eb..88712d5 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -514,6 +514,7 @@ namespace detail
                     m_len = byte_count(ch);
                 else
                     m_len = 1;
+                limit_len();
             }
             else
             {
@@ -540,6 +541,7 @@ namespace detail
                 {
                     m_offset = next_offset;
                     m_len = PAPILIO_NS utf::byte_count(ch);
+                    limit_len();
                     break;
                 }
                 else if(next_offset == 0)
@@ -576,6 +578,13 @@ namespace detail
         }
 
     private:
+        // The last sequence of the string may be incomplete
+        constexpr void limit_len() noexcept
+        {
+            if(m_str.size() - m_offset < m_len) [[unlikely]]
+                m_len = static_cast<std::uint8_t>(m_str.size() - m_offset);
+        }
+
         string_view_type m_str;
         size_type m_offset = 0;
         std::uint8_t m_len = 0;
@@ -609,6 +618,7 @@ namespace detail
                     m_len = 2;
                 else
                     m_len = 1;
+                limit_len();
             }
             else
             {
@@ -621,10 +631,11 @@ namespace detail
         {
             PAPILIO_ASSERT(m_offset != 0);
             --m_offset;
-            while(PAPILIO_NS utf::is_low_surrogate(m_str[m_offset]))
+            while(m_offset != 0 && PAPILIO_NS utf::is_low_surrogate(m_str[m_offset]))
                 --m_offset;
 
             m_len = utf::is_high_surrogate(m_str[m_offset]) ? 2 : 1;
+            limit_len();
         }
 
         constexpr bool to_bool() const noexcept
@@ -651,6 +662,13 @@ namespace detail
         }
 
     private:
+        // The last surrogate pair of the string may be incomplete
+        constexpr void limit_len() noexcept
+        {
+            if(m_str.size() - m_offset < m_len) [[unlikely]]
+                m_len = static_cast<std::uint8_t>(m_str.size() - m_offset);
+        }
+
         string_view_type m_str;
         std::size_t m_offset = 0;
         std::uint8_t m_len = 0;
diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 6913aea..fe413e8 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -206,6 +206,8 @@ constexpr codepoint_iterator<CharU> codepoint_begin(std::basic_string_view<CharU
         std::uint8_t ch_size = PAPILIO_NS utf::is_leading_byte(ch) ?
                                    PAPILIO_NS utf::byte_count(ch) :
                                    1;
+        if(str.size() < ch_size) [[unlikely]]
+            ch_size = static_cast<std::uint8_t>(str.size());
         return result_t(str, 0, ch_size);
     }
     else if constexpr(char16_like<CharU>)
@@ -214,6 +216,8 @@ constexpr codepoint_iterator<CharU> codepoint_begin(std::basic_string_view<CharU
         std::uint8_t ch_size = PAPILIO_NS utf::is_high_surrogate(ch) ?
                                    2 :
                                    1;
+        if(str.size() < ch_size) [[unlikely]]
+            ch_size = static_cast<std::uint8_t>(str.size());
         return result_t(str, 0, ch_size);
     }
     else // char32_like
-- 
2.43.0


From 44dee886a913dc1e95f5d5be566ec29494eeabd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 18/70] fix: strlen() checks the bound before it reads the byte

---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 82f6efd..c715f71 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -123,7 +123,7 @@ constexpr std::size_t strlen(
     std::size_t result = 0;
     std::uint8_t bytes = 0;
     std::size_t i = 0;
-    for(; str[i] != CharT(0) && i < max_chars;)
+    for(; i < max_chars && str[i] != CharT(0);)
     {
         if(bytes != 0)
         {
-- 
2.43.0


From b1be56c2ca9803c0cbd14ac2406c6670fb08425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 19/70] fix: return the length of a UTF-32 text without a
 terminator from strlen()

---
 include/papilio/utf/stralgo.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index c715f71..6b1b572 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -315,6 +315,8 @@ constexpr inline std::size_t strlen(const CharT* str, std::size_t max_chars) noe
         if(str[i] == CharT(0))
             return i;
     }
+
+    return max_chars;
 }
 
 PAPILIO_EXPORT template <
-- 
2.43.0


From 84807fa9df6840670bc725aabd71c735d0f2bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 20/70] fix: reverse index of an empty UTF-32 text is out of
 range

---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 6b1b572..50c0d3f 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -475,7 +475,7 @@ constexpr inline std::size_t index_offset(
 ) noexcept
 {
     (void)str;
-    if(idx > max_chars - 1)
+    if(idx >= max_chars)
         return npos;
     return max_chars - 1 - idx;
 }
-- 
2.43.0


From 363b8924da2c5f6b9c4e3110a3573a870b3abc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 21/70] fix: strlen() of UTF-16 text accepts ordinary
 characters and notices lone surrogates

---
 include/papilio/utf/stralgo.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 50c0d3f..8ef6a4d 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -274,7 +274,14 @@ constexpr std::size_t strlen(
             }
             else
             {
-                PAPILIO_ASSERT(PAPILIO_NS utf::is_low_surrogate(ch));
+                if(prev_is_high != PAPILIO_NS utf::is_low_surrogate(ch)) [[unlikely]]
+                {
+                    // Invalid surrogate
+                    if constexpr(OnInvalid == strlen_behavior::stop)
+                        return result;
+                    else
+                        throw invalid_surrogate(ch);
+                }
 
                 prev_is_high = false;
                 ++result;
-- 
2.43.0


From 56646339fe9a359dfd2ecbf22ba03c8a9b151906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 22/70] fix: decoder<char16_t>::to_codepoint() returns the
 number of processed characters

---
 include/papilio/utf/codepoint.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index fe413e8..d5d7779 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -160,7 +160,8 @@ constexpr std::pair<codepoint, std::uint8_t> decoder<char16_t>::to_codepoint(std
 
 constexpr std::pair<codepoint, std::uint8_t> decoder<char16_t>::to_codepoint(char16_t first, char16_t second)
 {
-    return decoder<char32_t>::to_codepoint(to_char32_t(first, second).first);
+    auto [ch32, processed_size] = to_char32_t(first, second);
+    return std::make_pair(decoder<char32_t>::to_codepoint(ch32).first, processed_size);
 }
 
 constexpr auto decoder<char16_t>::from_codepoint(codepoint cp) -> from_codepoint_result
-- 
2.43.0


From 11a8a014eb09a8ed3f3707d55fb2cea5dcbd20fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 23/70] fix: advance the iterator of string_container by the
 character it points to

---
 include/papilio/utf/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 67b0543..a7b4926 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1451,7 +1451,7 @@ public:
         constexpr void next_pos()
         {
             PAPILIO_ASSERT(*this);
-            m_offset += m_str->ch_size_for_cp(to_address()[m_offset]);
+            m_offset += m_str->ch_size_for_cp(*to_address());
             if(m_offset > m_str->size())
                 m_offset = m_str->size();
         }
-- 
2.43.0


From 7448d74f0f6f341b3daa2655aef113bd8942941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 24/70] fix: keep the element access of strings inside strings
 with incomplete sequences

---
 include/papilio/utf/string.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index a7b4926..fde0e04 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -393,8 +393,7 @@ protected:
 
         if constexpr(char8_like<CharT>)
         {
-            std::uint8_t ch_size = ch_size_for_cp(str[off]);
-            return codepoint(str.data() + off, ch_size);
+            return decoder<CharT>::to_codepoint(str.substr(off)).first;
         }
         else if constexpr(char16_like<CharT>)
         {
@@ -1493,7 +1492,7 @@ public:
 
                 PAPILIO_ASSERT(m_offset != 0);
                 --m_offset;
-                while(PAPILIO_NS utf::is_low_surrogate(p[m_offset]))
+                while(m_offset != 0 && PAPILIO_NS utf::is_low_surrogate(p[m_offset]))
                     --m_offset;
             }
             else
-- 
2.43.0


From 6d43e4b846efc095e4c08f8847c3e2aa4296980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 25/70] fix: keep references to the characters of a string
 inside the string

---
 include/papilio/utf/string.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index fde0e04..950665e 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -104,8 +104,11 @@ public:
 private:
     constexpr const_reference make_const_reference(size_type off) const noexcept
     {
-        const CharT* p = data() + off;
-        return const_reference(p, ch_size_for_cp(*p));
+        string_view_type str = get_view();
+        std::uint8_t len = ch_size_for_cp(str[off]);
+        if(str.size() - off < len) [[unlikely]]
+            len = static_cast<std::uint8_t>(str.size() - off);
+        return const_reference(str.data() + off, len);
     }
 
 public:
-- 
2.43.0


From 86b8dfc079cb84b8efe4530d2422a26b88ca4eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 26/70] fix: strlen() of a UTF-16 string view follows the
 chosen behavior for lone surrogates

---
 include/papilio/utf/stralgo.hpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 8ef6a4d..288e36a 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -302,10 +302,34 @@ constexpr std::size_t strlen(
 {
     std::size_t result = 0;
 
-    for(std::size_t i = 0; i < str.size(); ++i)
+    if constexpr(OnInvalid == strlen_behavior::ignore || OnInvalid == strlen_behavior::replace)
     {
-        if(!PAPILIO_NS utf::is_low_surrogate(str[i]))
-            ++result;
+        for(std::size_t i = 0; i < str.size(); ++i)
+        {
+            if(!PAPILIO_NS utf::is_low_surrogate(str[i]))
+                ++result;
+        }
+    }
+    else
+    {
+        bool prev_is_high = false;
+        for(std::size_t i = 0; i < str.size(); ++i)
+        {
+            std::uint16_t ch = static_cast<std::uint16_t>(str[i]);
+
+            if(prev_is_high != PAPILIO_NS utf::is_low_surrogate(ch)) [[unlikely]]
+            {
+                // Invalid surrogate
+                if constexpr(OnInvalid == strlen_behavior::stop)
+                    return result;
+                else
+                    throw invalid_surrogate(ch);
+            }
+
+            prev_is_high = PAPILIO_NS utf::is_high_surrogate(ch);
+            if(!prev_is_high)
+                ++result;
+        }
     }
 
     return result;
-- 
2.43.0


From 5559ba2ba5b26923e370ef25d6f4050f903b778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 27/70] fix: accept all capital letters in field names

---
 src/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.cpp b/src/core.cpp
index 5cbaee3..6adfae0 100644
--- a/src/core.cpp
+++ b/src/core.cpp
@@ -137,7 +137,7 @@ bool script_base::is_field_name_ch(char32_t ch, bool first) noexcept
         return false;
 
     return digit ||
-           (U'A' <= ch && ch <= U'A') ||
+           (U'A' <= ch && ch <= U'Z') ||
            (U'a' <= ch && ch <= U'z') ||
            ch == U'_' ||
            ch >= 128;
-- 
2.43.0


From 4fd2591f3b17a30b0addd9676506ebda250cfced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 28/70] fix: check for the end of the string behind an index

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 7f67c83..1182a2e 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3471,7 +3471,7 @@ protected:
                 start, stop
             );
 
-            if(*next_it == U':')
+            if(next_it != stop && *next_it == U':')
             {
                 ++next_it;
                 if(next_it == stop) [[unlikely]]
-- 
2.43.0


From c77de0f5779cab8963e0aa359b78cfa2c1d2cea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 29/70] fix: report string literals without a closing quote

---
 include/papilio/core.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 1182a2e..7c4e0e6 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3389,8 +3389,11 @@ protected:
     static std::pair<string_container_type, iterator> parse_string(iterator start, iterator stop)
     {
         iterator it = start;
-        for(; it != stop; ++it)
+        while(true)
         {
+            if(it == stop) [[unlikely]]
+                throw_end_of_string();
+
             char32_t ch = *it;
 
             // Turn to another mode for parsing escape sequence
@@ -3416,8 +3419,11 @@ protected:
 
                 push_back_impl(get_esc_ch(*it++));
 
-                for(; it != stop; ++it)
+                while(true)
                 {
+                    if(it == stop) [[unlikely]]
+                        throw_end_of_string();
+
                     ch = *it;
                     if(ch == U'\\')
                     {
@@ -3436,6 +3442,8 @@ protected:
                     {
                         push_back_impl(ch);
                     }
+
+                    ++it;
                 }
 
                 return std::make_pair(std::move(result), it);
@@ -3444,6 +3452,8 @@ protected:
             {
                 break;
             }
+
+            ++it;
         }
 
         return std::make_pair(
-- 
2.43.0


From 2b584520437cc71eadff2fc8f7da085fbbc79d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 30/70] fix: detect overflow of integers in the format string

---
 include/papilio/core.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 7c4e0e6..1f773fb 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3314,7 +3314,10 @@ protected:
         if(start == stop) [[unlikely]]
             throw_end_of_string();
 
-        T value = 0;
+        using unsigned_t = std::make_unsigned_t<T>;
+
+        unsigned_t value = 0;
+        unsigned_t limit = static_cast<unsigned_t>(std::numeric_limits<T>::max());
         bool negative = false;
         if(*start == U'-')
         {
@@ -3328,20 +3331,23 @@ protected:
             if(!utf::is_digit(ch))
                 break;
 
-            value *= 10;
-            value += ch - U'0';
+            unsigned_t digit = static_cast<unsigned_t>(ch - U'0');
+            if(value > limit / 10 || value * 10 > limit - digit) [[unlikely]]
+                throw std::out_of_range("integer value out of range");
+            value = value * 10 + digit;
             ++start;
         }
 
+        T result = static_cast<T>(value);
         if(negative)
         {
             if constexpr(std::is_signed_v<T>)
-                value = -value;
+                result = -result;
             else
                 throw std::out_of_range("integer value out of range");
         }
 
-        return std::make_pair(value, start);
+        return std::make_pair(result, start);
     }
 
     // Converts [start, stop) to a floating point
-- 
2.43.0


From 470c9d97da5868f1fc7784470adfc4f763434c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 31/70] fix: detect overflow of argument indices

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 1f773fb..0e6a1c2 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4110,6 +4110,8 @@ private:
                 if(!utf::is_digit(ch))
                     break;
 
+                if(idx >= static_cast<std::size_t>(std::numeric_limits<ssize_t>::max()) / 10) [[unlikely]]
+                    my_base::throw_error(script_error_code::invalid_field_name, start);
                 idx *= 10;
                 idx += static_cast<std::size_t>(ch - U'0');
                 ++start;
-- 
2.43.0


From 1c544d60947fdf014098827ea6c63a11b4846021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 32/70] fix: detect overflow of the width and the precision

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 0e6a1c2..452e6b8 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4340,6 +4340,8 @@ namespace detail
                     char32_t ch = *start;
                     if(!utf::is_digit(ch))
                         break;
+                    if(val >= std::numeric_limits<std::size_t>::max() / 10) [[unlikely]]
+                        throw format_error("invalid format");
                     val *= 10;
                     val += static_cast<std::size_t>(ch - U'0');
 
-- 
2.43.0


From 759366e0f396bce2ec353f525669e16d5fffa664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 33/70] fix: execute at most one branch of a scripted field

---
 include/papilio/core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 452e6b8..6743c05 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3947,6 +3947,7 @@ private:
                 start = exec_branch_if(
                     exec_this_branch, parse_ctx, fmt_ctx
                 );
+                executed = true;
             }
         }
 
-- 
2.43.0


From 419a0c3014ebcbd041a476eddfe63f73017a612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 34/70] fix: do not look at the end when a key of
 fixed_flat_map is not found

---
 include/papilio/container.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 80079e0..afa6d48 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1378,28 +1378,28 @@ public:
     iterator find(const Key& k)
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     template <typename K>
     iterator find(const K& k) requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     [[nodiscard]]
     const_iterator find(const Key& k) const
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     template <typename K>
     const_iterator find(const K& k) const requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     [[nodiscard]]
-- 
2.43.0


From bc5ab8a65b52c469317570c083b02cec6d4f938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 35/70] fix: characters have a default alignment

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 6743c05..7c1f39e 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5119,6 +5119,8 @@ public:
         data() = dt;
         data().type = dt.type_or(U'c');
         data().fill = dt.fill_or(U' ');
+        if(data().align == format_align::default_align)
+            data().align = format_align::left;
     }
 
     void set_debug_format() noexcept
-- 
2.43.0


From 58eb53111877eb5298dfe05b7ca74173e03ca298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 36/70] fix: report integers that are no code point when
 formatted as a character

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 7c1f39e..b1d2ab4 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5561,7 +5561,7 @@ public:
     {
         if(m_data.type == U'c')
         {
-            if(std::cmp_greater(val, std::numeric_limits<std::uint32_t>::max()))
+            if(std::cmp_less(val, 0) || std::cmp_greater(val, 0x10FFFFu))
                 throw format_error("integer value out of range");
 
             codepoint_formatter fmt;
-- 
2.43.0


From 327ba2cd09b369868909d1db7a3ad0cf54083796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 37/70] fix: a format specification has at most one alignment

---
 include/papilio/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index b1d2ab4..ec9b7a3 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4398,7 +4398,7 @@ public:
 
         if(utils::check_stop(start, stop))
             goto parse_end;
-        if(char32_t ch = *start; is_align_ch(ch))
+        if(char32_t ch = *start; result.align == format_align::default_align && is_align_ch(ch))
         {
             result.align = get_align(ch);
             ++start;
@@ -4486,7 +4486,7 @@ public:
 
         if(utils::check_stop(start, stop))
             goto parse_end;
-        if(char32_t ch = *start; is_align_ch(ch))
+        if(char32_t ch = *start; result.align == format_align::default_align && is_align_ch(ch))
         {
             result.align = get_align(ch);
             ++start;
-- 
2.43.0


From e4ff28fe31d5a0b84ec147cb75d52503323a2b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 38/70] fix: show the value of bytes that are not part of a
 character

---
 include/papilio/core.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index ec9b7a3..707a045 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2483,11 +2483,14 @@ private:
                 std::uint8_t size_bytes = PAPILIO_NS utf::byte_count(str[i]);
                 if(i + size_bytes > str.size())
                 {
-                    for(std::size_t j = i; j < str.size(); ++j)
+                    auto stop = std::find_if_not(
+                        str.begin() + i + 1, str.end(), &utf::is_trailing_byte
+                    );
+                    for(auto it = str.begin() + i; it != stop; ++it, ++i)
                     {
-                        append_hex_digits(ctx, static_cast<std::uint8_t>(str[j]), false);
+                        append_hex_digits(ctx, static_cast<std::uint8_t>(*it), false);
                     }
-                    return;
+                    continue;
                 }
 
                 if(has_esc_seq<true, false>(str[i]))
@@ -2529,7 +2532,7 @@ private:
             }
             else
             {
-                append_hex_digits(ctx, str[i], false);
+                append_hex_digits(ctx, static_cast<std::uint8_t>(str[i]), false);
                 ++i;
             }
         }
-- 
2.43.0


From 31e5304c19ef97d87f5ba5a2af8c06d215f58024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 39/70] fix: do not drop the character behind a lone high
 surrogate

---
 include/papilio/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 707a045..41d55ee 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2560,13 +2560,13 @@ private:
                 else if(!PAPILIO_NS utf::is_low_surrogate(str[i + 1]))
                 {
                     append_hex_digits(ctx, ch, false);
+                    ++i;
                 }
                 else
                 {
                     append(ctx, str.begin() + i, str.begin() + i + 2);
+                    i += 2;
                 }
-
-                i += 2;
             }
             else
             {
-- 
2.43.0


From 28799e301c5d5b83b8e769d786eee6d993596136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 40/70] fix: show the value of UTF-32 units that are no code
 points

---
 include/papilio/core.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 41d55ee..6812c79 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2593,6 +2593,10 @@ private:
             {
                 append_as_esc_seq<true, false>(ctx, static_cast<std::uint32_t>(ch));
             }
+            else if(static_cast<std::uint32_t>(ch) > 0x10FFFF || (static_cast<std::uint32_t>(ch) & 0xFFFF'F800) == 0xD800)
+            {
+                append_hex_digits(ctx, static_cast<std::uint32_t>(ch), false);
+            }
             else
             {
                 append(ctx, ch, 1);
-- 
2.43.0


From 64b9eea23c10519ce4b5f4d9b4b49dc22338dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:44 +0000
Subject: [PATCH 41/70] fix: show the value of bytes that do not occur in UTF-8

---
 include/papilio/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 6812c79..cbd5fa5 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2478,7 +2478,8 @@ private:
         std::size_t i = 0;
         while(i < str.size())
         {
-            if(PAPILIO_NS utf::is_leading_byte(str[i]))
+            // 0xF8 to 0xFF do not occur in UTF-8
+            if(PAPILIO_NS utf::is_leading_byte(str[i]) && static_cast<std::uint8_t>(str[i]) < 0xF8)
             {
                 std::uint8_t size_bytes = PAPILIO_NS utf::byte_count(str[i]);
                 if(i + size_bytes > str.size())
-- 
2.43.0


From fcfc8bb9f36783028af37a0dd1705dd2914ba074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:44 +0000
Subject: [PATCH 42/70] fix: floating point numbers are padded with zeros on
 request

---
 include/papilio/core.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index cbd5fa5..4548838 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4900,7 +4900,9 @@ public:
 
         data() = dt;
         data().fill = dt.fill_or(U' ');
-        if(data().align == format_align::default_align)
+        if(data().align != format_align::default_align)
+            data().fill_zero = false;
+        else
             data().align = format_align::right;
     }
 
@@ -4938,7 +4940,12 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
-        auto [left, right] = fill_size(used);
+        // Infinity and NaN are never padded with zeros
+        const bool fill_zero = data().fill_zero && std::isfinite(val);
+
+        auto [left, right] = fill_zero ?
+                                 std::make_pair<std::size_t, std::size_t>(0, 0) :
+                                 fill_size(used);
 
         fill(ctx, left);
 
@@ -4962,6 +4969,11 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
+        if(fill_zero && used < data().width)
+        {
+            context_t::append(ctx, static_cast<CharT>('0'), data().width - used);
+        }
+
         context_t::append(ctx, buf, buf + fp_size);
 
         fill(ctx, right);
-- 
2.43.0


From 3e984cdaf113449173397f0ccc1bc5e3930f9450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:58 +0000
Subject: [PATCH 43/70] fix: strings in ranges are formatted as strings

---
 include/papilio/core.hpp | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 4548838..3db73fc 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5831,6 +5831,43 @@ private:
     std_formatter_data m_data;
 };
 
+namespace detail
+{
+    // Formatter for string types which are nested in other types, e.g. elements of a range
+    template <typename String, typename CharT>
+    class nested_string_formatter
+    {
+    public:
+        template <typename ParseContext>
+        auto parse(ParseContext& ctx) -> typename ParseContext::iterator
+        {
+            return m_fmt.parse(ctx);
+        }
+
+        template <typename FormatContext>
+        auto format(const String& str, FormatContext& ctx) const -> typename FormatContext::iterator
+        {
+            return m_fmt.format(
+                utf::basic_string_container<CharT>(std::basic_string_view<CharT>(str.data(), str.size())),
+                ctx
+            );
+        }
+
+    private:
+        formatter<utf::basic_string_container<CharT>, CharT> m_fmt;
+    };
+} // namespace detail
+
+PAPILIO_EXPORT template <typename Traits, typename Allocator, typename CharT>
+class formatter<std::basic_string<CharT, Traits, Allocator>, CharT> :
+    public detail::nested_string_formatter<std::basic_string<CharT, Traits, Allocator>, CharT>
+{};
+
+PAPILIO_EXPORT template <typename Traits, typename CharT>
+class formatter<std::basic_string_view<CharT, Traits>, CharT> :
+    public detail::nested_string_formatter<std::basic_string_view<CharT, Traits>, CharT>
+{};
+
 /**
  * @brief Formatter for pointers.
  *
-- 
2.43.0


From ce4756dd5188ecd0ff08f70bab0283def73fd7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:58 +0000
Subject: [PATCH 44/70] fix: formatting std::array in a range is not ambiguous

---
 include/papilio/formatter/tuple.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/papilio/formatter/tuple.hpp b/include/papilio/formatter/tuple.hpp
index 7085346..56057d9 100644
--- a/include/papilio/formatter/tuple.hpp
+++ b/include/papilio/formatter/tuple.hpp
@@ -50,6 +50,7 @@ namespace detail
 } // namespace detail
 
 PAPILIO_EXPORT template <tuple_like Tuple, typename CharT>
+requires(!std::ranges::input_range<Tuple>) // std::array is formatted as a range
 class formatter<Tuple, CharT> : public detail::tuple_fmt_base<CharT>
 {
     using my_base = detail::tuple_fmt_base<CharT>;
-- 
2.43.0


From 66141ce2d15bb9a76dc0569e45ad5199dd53539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:56 +0000
Subject: [PATCH 45/70] fix: encode the code points of a range assigned to a
 string

---
 include/papilio/utf/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 950665e..9a145cf 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1042,7 +1042,7 @@ public:
     template <std::ranges::input_range R>
     basic_string_container& assign_range(R&& r) noexcept
     {
-        if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT>)
+        if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT> && !std::same_as<std::ranges::range_value_t<R>, utf::codepoint>)
         {
             string_type buf;
             if constexpr(std::ranges::sized_range<R>)
-- 
2.43.0


From 251f6520ef952daee2b48e84b04dbf6482f4cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:56 +0000
Subject: [PATCH 46/70] fix: assign_range() may throw

---
 include/papilio/utf/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 9a145cf..3c255da 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1040,7 +1040,7 @@ public:
     }
 
     template <std::ranges::input_range R>
-    basic_string_container& assign_range(R&& r) noexcept
+    basic_string_container& assign_range(R&& r)
     {
         if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT> && !std::same_as<std::ranges::range_value_t<R>, utf::codepoint>)
         {
-- 
2.43.0


From 92933bf6118b34d2b6d53cddf8e098df61bee57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:29 +0000
Subject: [PATCH 47/70] fix: return statement of the move assignment of
 formatted_range iterators

---
 include/papilio/format.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 207b09f..6cadd09 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -80,6 +80,8 @@ public:
             m_intp_ctx = m_intp.create_context(rhs.m_intp_ctx.input_context(), m_fmt_ctx);
             m_buf = std::move(rhs.m_buf);
             m_offset = std::exchange(rhs.m_offset, 0);
+
+            return *this;
         }
 
         bool operator==(sentinel_t) const
-- 
2.43.0


From ce6529a34dc6943256d3bb087fd601fa18f97a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:29 +0000
Subject: [PATCH 48/70] fix: steps of formatted_range may produce no output

---
 include/papilio/format.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 6cadd09..93c4eb9 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -86,9 +86,7 @@ public:
 
         bool operator==(sentinel_t) const
         {
-            if(m_offset < m_buf.size())
-                return false;
-            return m_intp_ctx.input_at_end();
+            return !produce();
         }
 
         /**
@@ -107,10 +105,8 @@ public:
 
         CharT operator*() const
         {
-            if(m_offset >= m_buf.size())
-            {
-                m_intp.run_n(m_intp_ctx, m_buf.size() - m_offset + 1);
-            }
+            produce();
+
             return m_buf[m_offset];
         }
 
@@ -120,6 +116,20 @@ public:
         mutable intp_ctx_t m_intp_ctx;
         mutable std::basic_string<CharT> m_buf;
         std::size_t m_offset = 0;
+
+        // Interpret the format string until the current character is available.
+        // Returns false if there are no more characters, because some steps may produce no output.
+        bool produce() const
+        {
+            while(m_offset >= m_buf.size())
+            {
+                if(m_intp_ctx.input_at_end())
+                    return false;
+                m_intp.run_n(m_intp_ctx, 1);
+            }
+
+            return true;
+        }
     };
 
     const_iterator cbegin() const
-- 
2.43.0


From 5bbb7c3b0c04432bdaa8a5e53605a5d052781e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:42 +0000
Subject: [PATCH 49/70] fix: format_to_n() and formatted_size() count
 characters written by *it++

---
 include/papilio/format.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 93c4eb9..fd38f12 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -286,7 +286,7 @@ namespace detail
             return *this;
         }
 
-        format_to_n_wrapper operator++(int) noexcept
+        format_to_n_wrapper& operator++(int) noexcept
         {
             return *this;
         }
@@ -469,11 +469,9 @@ namespace detail
             return *this;
         }
 
-        constexpr formatted_size_counter operator++(int) noexcept
+        constexpr formatted_size_counter& operator++(int) noexcept
         {
-            formatted_size_counter tmp(*this);
-            ++(*this);
-            return tmp;
+            return *this;
         }
     };
 
-- 
2.43.0


From 8493b590c6873530a355b02e9d32e113015feeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:22 +0000
Subject: [PATCH 50/70] fix: joined elements keep the locale and the character
 type of the context

---
 include/papilio/format.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index fd38f12..a96d044 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -623,9 +623,10 @@ public:
     requires formattable_with<value_type, FormatContext>
     auto format(const joiner_t& j, ParseContext& parse_ctx, FormatContext& fmt_ctx) const
     {
+        using context_t = format_context_traits<FormatContext>;
         using formatter_t = typename FormatContext::template formatter_type<value_type>;
 
-        if constexpr(formatter_traits<formatter_t>::template parsable<FormatContext>())
+        if constexpr(formatter_traits<formatter_t>::template parsable<ParseContext>())
         {
             formatter_t fmt;
             parse_ctx.advance_to(fmt.parse(parse_ctx));
@@ -651,9 +652,7 @@ public:
                     append_sep(fmt_ctx, j);
                 first = false;
 
-                fmt_ctx.advance_to(
-                    PAPILIO_NS format_to(fmt_ctx.out(), "{}", i)
-                );
+                context_t::format_to(fmt_ctx, PAPILIO_TSTRING_VIEW(CharT, "{}"), i);
             }
         }
 
-- 
2.43.0


From 69e7039a9319a78d024838d620a4238af7bd2b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:25 +0000
Subject: [PATCH 51/70] fix: format_to() accepts a constant locale

---
 include/papilio/format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index a96d044..d4f38d4 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -190,7 +190,7 @@ OutputIt format_to(OutputIt out, format_string<Args...> fmt, Args&&... args)
 PAPILIO_EXPORT template <typename OutputIt, typename... Args>
 OutputIt format_to(
     OutputIt out,
-    std::locale& loc,
+    const std::locale& loc,
     format_string<Args...> fmt,
     Args&&... args
 )
@@ -222,7 +222,7 @@ OutputIt format_to(
 PAPILIO_EXPORT template <typename OutputIt, typename... Args>
 OutputIt format_to(
     OutputIt out,
-    std::locale& loc,
+    const std::locale& loc,
     wformat_string<Args...> fmt,
     Args&&... args
 )
-- 
2.43.0


From 27b9ac768ee180c622505ec4bfa286fbdecc025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 52/70] fix: a style that only has a background color is not
 ignored

---
 include/papilio/color.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/papilio/color.hpp b/include/papilio/color.hpp
index b9c95f6..0e985e3 100644
--- a/include/papilio/color.hpp
+++ b/include/papilio/color.hpp
@@ -155,6 +155,10 @@ public:
         {
             it = set_color(it, to_underlying(m_fg), to_underlying(m_bg));
         }
+        else if(has_background())
+        {
+            it = PAPILIO_NS format_to(it, "\033[{}m", to_underlying(m_bg) + 10);
+        }
 
         return it;
     }
@@ -163,7 +167,7 @@ public:
     Iterator reset(Iterator it) const
     {
         constexpr char esc[] = "\033[0m";
-        if(has_style() || has_foreground())
+        if(has_style() || has_foreground() || has_background())
             it = std::copy_n(esc, 4, it);
         return it;
     }
-- 
2.43.0


From 6c78773e8823559fbc325db5bfcfa0cb83c2e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 53/70] fix: output_nonconv() reports that flushing the file
 failed

---
 src/os/general.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/os/general.cpp b/src/os/general.cpp
index 3b0438c..496cd68 100644
--- a/src/os/general.cpp
+++ b/src/os/general.cpp
@@ -20,7 +20,12 @@ void output_nonconv(
         );
     }
 
-    fflush(file);
+    if(fflush(file) != 0)
+    {
+        throw std::system_error(
+            std::make_error_code(std::errc::io_error)
+        );
+    }
 }
 } // namespace papilio::os
 
-- 
2.43.0


From 30820a986606aaba451a0b6ea7fb2e25b6d28c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:50 +0000
Subject: [PATCH 54/70] fix: intermediate values of chained access stay alive
 while the field is processed

---
 include/papilio/core.hpp | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3db73fc..e26bd75 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -15,6 +15,7 @@
 #include <typeinfo>
 #include <map>
 #include <span>
+#include <forward_list>
 #include <array>
 #include <charconv>
 #include <typeindex>
@@ -2803,6 +2804,24 @@ public:
         throw format_error("no default argument after an explicit argument");
     }
 
+    /**
+     * @brief Keep an intermediate value of chained access alive until the end of the replacement field
+     *
+     * @return The value
+     */
+    const basic_format_arg<FormatContext>& keep_alive(basic_format_arg<FormatContext> arg)
+    {
+        return m_kept.emplace_front(std::move(arg));
+    }
+
+    /**
+     * @brief Destroy all values passed to @ref keep_alive
+     */
+    void release() noexcept
+    {
+        m_kept.clear();
+    }
+
     /**
      * @brief Default implementation of skipping unused format specification.
      *
@@ -2833,6 +2852,7 @@ private:
     string_ref_type m_ref;
     iterator m_it;
     format_args_type m_args;
+    std::forward_list<basic_format_arg<FormatContext>> m_kept;
     size_type m_default_arg_idx = 0;
     mutable bool m_manual_indexing = false;
 
@@ -3698,6 +3718,7 @@ public:
 
                 intp_ctx.update_input_context();
                 exec_script(intp_ctx.input_context(), intp_ctx.output_context());
+                intp_ctx.input_context().release();
 
                 intp_ctx.advance_input_to(intp_ctx.parse_begin());
                 if(intp_ctx.input_at_end()) [[unlikely]]
@@ -3710,6 +3731,7 @@ public:
             {
                 intp_ctx.update_input_context();
                 exec_repl(intp_ctx.input_context(), intp_ctx.output_context());
+                intp_ctx.input_context().release();
 
                 intp_ctx.advance_input_to(intp_ctx.parse_begin());
                 if(intp_ctx.input_at_end()) [[unlikely]]
@@ -3787,7 +3809,7 @@ private:
 
         auto [arg, next_it] = parse_field_name(ctx, start, stop);
 
-        std::tie(arg, next_it) = parse_chained_access(arg, next_it, stop);
+        std::tie(arg, next_it) = parse_chained_access(ctx, arg, next_it, stop);
 
         return std::make_pair(std::move(arg), next_it);
     }
@@ -4153,11 +4175,19 @@ private:
     }
 
     static std::pair<format_arg_type, iterator> parse_chained_access(
-        format_arg_type& base_arg, iterator start, iterator stop
+        parse_context& ctx, format_arg_type& base_arg, iterator start, iterator stop
     )
     {
         format_arg_type current = base_arg;
 
+        // The result of an accessor may refer to the value it was obtained from
+        auto owner = [&ctx, &current]() -> const format_arg_type&
+        {
+            if(!current.has_ownership())
+                return current;
+            return ctx.keep_alive(std::move(current));
+        };
+
         while(start != stop)
         {
             char32_t first_ch = *start;
@@ -4172,7 +4202,7 @@ private:
                 if(attr_name.empty())
                     my_base::throw_error(script_error_code::invalid_attribute, str_end);
 
-                current = current.attribute(attr_name);
+                current = owner().attribute(attr_name);
 
                 start = str_end;
             }
@@ -4186,7 +4216,7 @@ private:
                     my_base::throw_error(script_error_code::invalid_index, next_it);
                 ++next_it;
 
-                current = current.index(idx);
+                current = owner().index(idx);
 
                 start = next_it;
             }
-- 
2.43.0


From 1df38102abbf84baed2ad99544120df558f73a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:34 +0000
Subject: [PATCH 55/70] fix: strings owned by a temporary argument are moved
 into the script variable

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index e26bd75..2e9d188 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -457,7 +457,7 @@ private:
             {
                 return convert_arg(std::forward<T>(v));
             },
-            var
+            std::forward<Variant>(var)
         );
     }
 
-- 
2.43.0


From 313f868e257e8d112ff50676da7723cb1d891f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:29 +0000
Subject: [PATCH 56/70] fix: small_vector can be copied and asked for its
 allocator

---
 include/papilio/container.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index afa6d48..716dc8f 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -568,6 +568,11 @@ private:
         return m_data.second();
     }
 
+    const allocator_type& get_alloc() const noexcept
+    {
+        return m_data.second();
+    }
+
     void set_ptrs(pointer p_begin, size_type capacity_offset) noexcept
     {
         m_p_begin = p_begin;
-- 
2.43.0


From 251671a3c18525f6e438801a66b14772cf87437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:29 +0000
Subject: [PATCH 57/70] fix: the non-member swap of small_vector did not
 compile

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 716dc8f..d240ea5 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -537,7 +537,7 @@ public:
             swap(get_alloc(), other.get_alloc());
     }
 
-    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(std::is_nothrow_swappable_v<small_vector>)
+    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(noexcept(lhs.swap(rhs)))
     {
         lhs.swap(rhs);
     }
-- 
2.43.0


From 9792d72459f5abc66ea19024cfe057ec6365216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:29 +0000
Subject: [PATCH 58/70] fix: appending a range to a small_vector wrote behind
 its memory

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index d240ea5..ed48863 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -858,7 +858,7 @@ private:
             Iterator>;
         if constexpr(sized)
         {
-            reserve(static_cast<size_type>(last - first));
+            reserve(this->size() + static_cast<size_type>(last - first));
             for(auto it = first; it != last; ++it)
             {
                 emplace_back_impl(*it);
-- 
2.43.0


From 1d7c2831df8f72740e30d6c12c49e5251d108f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:29 +0000
Subject: [PATCH 59/70] fix: adding an element of a small_vector to itself used
 released memory

---
 include/papilio/container.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index ed48863..15e2123 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -441,8 +441,11 @@ public:
     {
         if(m_p_end == m_p_capacity)
         {
+            // the arguments may refer to an element
+            value_type tmp(std::forward<Args>(args)...);
             size_type current = this->size();
             reserve(this->get_mem_size(current, current + 1));
+            return emplace_back_impl(std::move(tmp));
         }
         return emplace_back_impl(std::forward<Args>(args)...);
     }
@@ -496,7 +499,14 @@ public:
         }
         else if(count > this->size())
         {
-            reserve(count);
+            if(count > this->capacity())
+            {
+                // the value may be an element
+                const value_type tmp(val);
+                reserve(count);
+                resize(count, tmp);
+                return;
+            }
             while(this->size() != count)
                 emplace_back_impl(val);
         }
@@ -631,14 +641,16 @@ private:
     template <typename... Args>
     iterator emplace_impl(size_type off, Args&&... args)
     {
-        reserve(this->size() + 1);
-
         if(off == this->size())
         {
-            emplace_back_impl(std::forward<Args>(args)...);
+            emplace_back(std::forward<Args>(args)...);
             return std::prev(this->end());
         }
 
+        // the arguments may refer to an element
+        value_type tmp(std::forward<Args>(args)...);
+        reserve(this->size() + 1);
+
         emplace_back_impl(std::move(this->back()));
 
         auto move_dst = std::prev(this->end());
@@ -646,7 +658,7 @@ private:
         auto move_src_begin = this->begin() + off;
         std::move_backward(move_src_begin, move_src_end, move_dst);
 
-        *move_src_begin = value_type(std::forward<Args>(args)...);
+        *move_src_begin = std::move(tmp);
 
         return this->begin() + static_cast<difference_type>(off);
     }
-- 
2.43.0


From 70dcceabdee8502c4b4b35d4c0c0e937991af436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:29 +0000
Subject: [PATCH 60/70] fix: small_vector lost elements or memory when a move
 failed

---
 include/papilio/container.hpp | 44 +++++++----------------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 15e2123..264f3fe 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -305,12 +305,7 @@ public:
 
     small_vector(small_vector&& other) noexcept(std::is_nothrow_move_constructible_v<value_type>)
         requires std::is_nothrow_move_constructible_v<Allocator>
-        : my_base(),
-          m_data(
-              std::piecewise_construct,
-              std::forward_as_tuple(),
-              std::forward_as_tuple(std::move(other.get_alloc()))
-          )
+        : small_vector(other.get_alloc())
     {
         if(other.dynamic_allocated())
         {
@@ -321,8 +316,6 @@ public:
         }
         else [[likely]]
         {
-            set_ptrs(getbuf(), static_capacity());
-
             PAPILIO_ASSERT(other.size() <= this->capacity());
             for(auto&& i : other)
             {
@@ -704,29 +697,12 @@ private:
             return;
         }
 
-        pointer tmp_ptr = m_p_begin;
         size_type tmp_size = this->size();
-        size_type tmp_capacity = this->capacity();
-
-        set_ptrs(getbuf(), static_capacity());
-
-        try
-        {
-            std::uninitialized_move_n(tmp_ptr, tmp_size, m_p_begin);
-            std::destroy_n(tmp_ptr, tmp_size);
-        }
-        catch(...)
-        {
-            std::allocator_traits<Allocator>::deallocate(
-                get_alloc(), tmp_ptr, tmp_capacity
-            );
-            throw;
-        }
 
-        std::allocator_traits<Allocator>::deallocate(
-            get_alloc(), tmp_ptr, tmp_capacity
-        );
-        m_p_end = m_p_begin + tmp_size;
+        std::uninitialized_move_n(m_p_begin, tmp_size, getbuf());
+        destroy_all();
+        free_mem();
+        set_ptrs(getbuf(), tmp_size, static_capacity());
     }
 
     void shrink_dyn()
@@ -808,16 +784,12 @@ private:
         pointer tmp_p_begin = other.m_p_begin;
         pointer tmp_p_end = other.m_p_end;
         pointer tmp_p_capacity = other.m_p_capacity;
-        other.set_ptrs(other.getbuf(), static_capacity());
+        size_type tmp_size = this->size();
 
-        for(size_type i = 0; i < this->size(); ++i)
-        {
-            other.emplace_back_impl(
-                std::move(*(m_p_begin + i))
-            );
-        }
+        std::uninitialized_move_n(m_p_begin, tmp_size, other.getbuf());
         destroy_all();
 
+        other.set_ptrs(other.getbuf(), tmp_size, static_capacity());
         set_ptrs(tmp_p_begin, tmp_p_end, tmp_p_capacity);
     }
 
-- 
2.43.0


From 1be56e8516745d385c9494326f9d48400360e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:29 +0000
Subject: [PATCH 61/70] fix: fixed_vector leaked elements when its construction
 failed

---
 include/papilio/container.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 264f3fe..4edf3f5 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -896,6 +896,7 @@ public:
         : m_size(0) {}
 
     fixed_vector(const fixed_vector& other) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        : fixed_vector()
     {
         for(size_type i = 0; i < other.size(); ++i)
         {
@@ -904,6 +905,7 @@ public:
     }
 
     fixed_vector(fixed_vector&& other) noexcept(std::is_nothrow_move_constructible_v<T>)
+        : fixed_vector()
     {
         for(size_type i = 0; i < other.size(); ++i)
         {
@@ -912,6 +914,7 @@ public:
     }
 
     fixed_vector(size_type count, const T& value)
+        : fixed_vector()
     {
         for(size_type i = 0; i < count; ++i)
         {
-- 
2.43.0


From 6aafa91021fce1ae844f6ea1bf72aff4f71e77e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:29 +0000
Subject: [PATCH 62/70] fix: inserting an element of a fixed_vector into itself
 inserted its neighbour

---
 include/papilio/container.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 4edf3f5..8fbc680 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1068,6 +1068,8 @@ public:
             throw_length_error();
         }
 
+        // the arguments may refer to an element
+        value_type tmp(std::forward<Args>(args)...);
         emplace_back(std::move(back()));
         if(size() > 2)
         {
@@ -1078,7 +1080,7 @@ public:
         }
 
         iterator nonconst_pos = const_cast<iterator>(pos);
-        *nonconst_pos = std::move(value_type(std::forward<Args>(args)...));
+        *nonconst_pos = std::move(tmp);
 
         return nonconst_pos;
     }
-- 
2.43.0


From 6f18da217d09ce40ce8b7698d29b1ff269e93739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:29 +0000
Subject: [PATCH 63/70] fix: optional_unique_ptr can be assigned

---
 include/papilio/memory.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 9d9bea8..5f53734 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -205,7 +205,14 @@ public:
 
     optional_unique_ptr& operator=(const optional_unique_ptr& other)
     {
-        reset(other.get());
+        if(this != std::addressof(other))
+            reset(other.get(), false);
+        return *this;
+    }
+
+    optional_unique_ptr& operator=(optional_unique_ptr&& other) noexcept
+    {
+        optional_unique_ptr(std::move(other)).swap(*this);
         return *this;
     }
 
@@ -379,7 +386,14 @@ public:
 
     optional_unique_ptr& operator=(const optional_unique_ptr& other)
     {
-        reset(other.get());
+        if(this != std::addressof(other))
+            reset(other.get(), false);
+        return *this;
+    }
+
+    optional_unique_ptr& operator=(optional_unique_ptr&& other) noexcept
+    {
+        optional_unique_ptr(std::move(other)).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From b2482ad17b7a7e9f8612bedc39ae7e534e2365fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:29 +0000
Subject: [PATCH 64/70] fix: optional_unique_ptr of arrays can be swapped and
 take over a unique_ptr

---
 include/papilio/memory.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 5f53734..fb84483 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -373,10 +373,10 @@ public:
     {}
 
     template <typename D>
-    optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
+    optional_unique_ptr(std::unique_ptr<T[], D>&& ptr) noexcept
         : m_ptr(ptr.release())
     {
-        m_has_ownership = !m_ptr;
+        m_has_ownership = m_ptr;
     }
 
     ~optional_unique_ptr()
@@ -426,7 +426,7 @@ public:
     }
 
     template <typename D>
-    void reset(std::unique_ptr<T, D>&& ptr) noexcept
+    void reset(std::unique_ptr<T[], D>&& ptr) noexcept
     {
         reset(nullptr);
         if(ptr)
@@ -459,7 +459,7 @@ public:
     }
 
     template <typename D>
-    void swap(optional_unique_ptr<T, D>& other) noexcept
+    void swap(optional_unique_ptr<T[], D>& other) noexcept
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
-- 
2.43.0


From 38fe0342f6831eaa62565ccc9bb14ce61fe42132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:29 +0000
Subject: [PATCH 65/70] fix: optional_unique_ptr lost the deleter of an object
 it took over

---
 include/papilio/memory.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index fb84483..2b7ae87 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -178,7 +178,7 @@ public:
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
         : m_ptr(std::exchange(other.m_ptr, pointer())),
-          m_del(),
+          m_del(std::move(other.m_del)),
           m_has_ownership(std::exchange(other.m_has_ownership, false)) {}
 
     optional_unique_ptr(pointer ptr, bool ownership) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
@@ -193,9 +193,9 @@ public:
 
     template <typename D>
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
-        : m_ptr(ptr.release())
+        : m_ptr(), m_has_ownership(false)
     {
-        m_has_ownership = m_ptr;
+        reset(std::move(ptr));
     }
 
     ~optional_unique_ptr()
@@ -255,6 +255,8 @@ public:
         reset(nullptr);
         if(ptr)
         {
+            if constexpr(std::is_assignable_v<Deleter&, D&&>)
+                m_del = std::forward<D>(ptr.get_deleter());
             m_ptr = ptr.release();
             m_has_ownership = true;
         }
@@ -287,6 +289,7 @@ public:
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
+        swap(m_del, other.m_del);
         swap(m_has_ownership, other.m_has_ownership);
     }
 
@@ -363,7 +366,7 @@ public:
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept
         : m_ptr(std::exchange(other.m_ptr, pointer())),
-          m_del(),
+          m_del(std::move(other.m_del)),
           m_has_ownership(std::exchange(other.m_has_ownership, false)) {}
 
     template <typename U>
@@ -374,9 +377,9 @@ public:
 
     template <typename D>
     optional_unique_ptr(std::unique_ptr<T[], D>&& ptr) noexcept
-        : m_ptr(ptr.release())
+        : m_ptr(), m_has_ownership(false)
     {
-        m_has_ownership = m_ptr;
+        reset(std::move(ptr));
     }
 
     ~optional_unique_ptr()
@@ -431,6 +434,8 @@ public:
         reset(nullptr);
         if(ptr)
         {
+            if constexpr(std::is_assignable_v<Deleter&, D&&>)
+                m_del = std::forward<D>(ptr.get_deleter());
             m_ptr = ptr.release();
             m_has_ownership = true;
         }
@@ -463,6 +468,7 @@ public:
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
+        swap(m_del, other.m_del);
         swap(m_has_ownership, other.m_has_ownership);
     }
 
-- 
2.43.0


From 0ec27cecc6a9f7fbbb12a3338449157bd15015a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:04 +0000
Subject: [PATCH 66/70] fix: slices of ranges that begin before the first
 element read out of bounds

---
 include/papilio/accessor/ranges.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index f336043..6500f3c 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -94,6 +94,9 @@ struct contiguous_range_accessor
         std::size_t sz = stdr::size(rng);
         s = s.normalize(sz);
 
+        if(s.first < 0)
+            s.first = 0;
+
         if(std::cmp_greater_equal(s.first, sz))
             return format_arg_type();
         else if(std::cmp_greater(s.second, sz))
-- 
2.43.0


From 7f195c888a2068c1a10f3743dca15f285909bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:04 +0000
Subject: [PATCH 67/70] fix: map indices are not truncated to the type of the
 keys

---
 include/papilio/accessor/ranges.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index 6500f3c..a117b44 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -214,6 +214,13 @@ struct map_accessor
                 return format_arg_type();
         }
 
+        if(std::is_signed_v<key_type> || sizeof(key_type) < sizeof(ssize_t))
+        {
+            // the index may not be a value of the key's type
+            if(static_cast<ssize_t>(static_cast<key_type>(i)) != i)
+                return format_arg_type();
+        }
+
         auto it = m.find(static_cast<key_type>(i));
         return it != m.end() ?
                    static_cast<mapped_type>(it->second) :
-- 
2.43.0


From 4f4760b15e5dcfb1f99a63df1f990fa33f19daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:04 +0000
Subject: [PATCH 68/70] fix: assertions about index_range rejected ranges that
 begin at zero

---
 include/papilio/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 903e45a..0964bb3 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -208,8 +208,8 @@ public:
     [[nodiscard]]
     constexpr size_type length() const noexcept
     {
-        PAPILIO_ASSERT(first > 0);
-        PAPILIO_ASSERT(second > 0);
+        PAPILIO_ASSERT(first >= 0);
+        PAPILIO_ASSERT(second >= first);
         PAPILIO_ASSERT(second != npos);
         return static_cast<size_type>(second - first);
     }
-- 
2.43.0


From a7370a5c50abe9c7cbe8972f28bfd5ad2c1cd338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:04 +0000
Subject: [PATCH 69/70] fix: the value found by a map index was a copy that had
 already been destroyed

---
 include/papilio/accessor/ranges.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index a117b44..be5b97e 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -222,9 +222,9 @@ struct map_accessor
         }
 
         auto it = m.find(static_cast<key_type>(i));
-        return it != m.end() ?
-                   static_cast<mapped_type>(it->second) :
-                   format_arg_type();
+        if(it == m.end())
+            return format_arg_type();
+        return format_arg_type(it->second);
     }
 
     [[nodiscard]]
@@ -234,16 +234,16 @@ struct map_accessor
         if constexpr(is_transparent_v<typename MapType::key_compare>)
         {
             auto it = m.find(k);
-            return it != m.end() ?
-                       static_cast<mapped_type>(it->second) :
-                       format_arg_type();
+            if(it == m.end())
+                return format_arg_type();
+            return format_arg_type(it->second);
         }
         else
         {
             auto it = m.find(static_cast<key_type>(k));
-            return it != m.end() ?
-                       static_cast<mapped_type>(it->second) :
-                       format_arg_type();
+            if(it == m.end())
+                return format_arg_type();
+            return format_arg_type(it->second);
         }
     }
 
-- 
2.43.0


From bf18fd8479121b2b4ce7a7e54b245013da8ee210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:04 +0000
Subject: [PATCH 70/70] fix: negation of the smallest index of a character
 overflowed

---
 include/papilio/utf/string.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 3c255da..f365ec6 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -326,12 +326,10 @@ public:
             }
             else
             {
-                idx = -idx; // abs(idx)
-
                 const auto sentinel = cbegin();
 
                 const_iterator it = cend();
-                for(index_range::index_type i = 0; i < idx; ++i)
+                for(index_range::index_type i = 0; i > idx; --i)
                 {
                     if(it == sentinel)
                     {
-- 
2.43.0

