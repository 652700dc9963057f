From 3c2b0c564f67c036878ddb1c932d4f1407f6d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 01/98] fix: from_chars parses negatives, empty and bare-sign
 ranges correctly

It read past an empty range, lost the sign when characters followed the
number, accepted '-' alone, rejected the minimum value, and on overflow
skipped characters that are no digits of the requested base.
---
 src/estd/internal/charconv/from_chars.hpp | 63 ++++++++++-------------
 src/estd/internal/raise_and_add.h         |  3 +-
 2 files changed, 29 insertions(+), 37 deletions(-)

diff --git a/src/estd/internal/charconv/from_chars.hpp b/src/estd/internal/charconv/from_chars.hpp
index 8fb20cd..7d3a890 100644
--- a/src/estd/internal/charconv/from_chars.hpp
+++ b/src/estd/internal/charconv/from_chars.hpp
@@ -24,7 +24,7 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
 #endif
 
     CharIt current = first;
-    bool negate;
+    bool negate = false;
     // "If no characters match the pattern or if the value obtained by parsing
     // the matched characters is not representable in the type of value, value is unmodified," [1]
     T local_value = 0;
@@ -40,65 +40,58 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
     while (estd::internal::ascii_isspace(*current))
         current++; */
 
-    if (estd::is_signed<T>::value)
+    if (estd::is_signed<T>::value && current != last)
     {
         negate = *current == '-';
 
         if (negate) ++current;
     }
 
+    const CharIt digits = current;
+
     while (current != last)
     {
         // DEBT: Use has_value() and friends for clarity here
         const optional_type digit = cbase_type::from_char(*current, base);
-        if (digit.has_value())
-        {
-            bool success = raise_and_add(local_value, base, digit.value());
 
-            // If we didn't succeed, that means we overflowed
-            if (!success)
-            {
-                // skip to either end or next spot which isn't a number
-                // "ptr points at the first character not matching the pattern." [1]
-                while (++current != last && cbase_type::is_in_base(*current)) {}
+        if (!digit.has_value()) break;
 
-#ifdef FEATURE_CPP_INITIALIZER_LIST
-                return result_type{current, estd::errc::result_out_of_range};
-#else
-                return result_type(current, estd::errc::result_out_of_range);
-#endif
-            }
-        }
-        else if(current == first)
+        // Accumulate downwards for negatives so that the minimum value is reachable
+        const bool success = negate ?
+            raise_and_sub(local_value, base, digit.value()) :
+            raise_and_add(local_value, base, digit.value());
+
+        // If we didn't succeed, that means we overflowed
+        if (!success)
         {
-            return result_type
+            // skip to either end or next spot which isn't a number
+            // "ptr points at the first character not matching the pattern." [1]
+            while (++current != last && cbase_type::is_in_base(*current, base)) {}
+
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-                {current, estd::errc::invalid_argument};
+            return result_type{current, estd::errc::result_out_of_range};
 #else
-            (current, estd::errc::invalid_argument);
+            return result_type(current, estd::errc::result_out_of_range);
 #endif
         }
-        else
-        {
-            value = local_value;
+        ++current;
+    }
+
+    // "If there is no pattern match, [...] ptr equals first" [1]
+    if (current == digits)
+    {
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-            return result_type{current, estd::errc(0)};
+        return result_type{first, estd::errc::invalid_argument};
 #else
-            return result_type(current, estd::errc(0));
+        return result_type(first, estd::errc::invalid_argument);
 #endif
-        }
-        ++current;
     }
 
-    // prepend with constexpr so we can optimize out non-signed flavors
-    if (estd::is_signed<T>::value && negate)
-        local_value = -local_value;
-
     value = local_value;
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-    return result_type{last,estd::errc(0)};
+    return result_type{current, estd::errc(0)};
 #else
-    return result_type(last,estd::errc(0));
+    return result_type(current, estd::errc(0));
 #endif
 }
 
diff --git a/src/estd/internal/raise_and_add.h b/src/estd/internal/raise_and_add.h
index f4fb526..726c41d 100644
--- a/src/estd/internal/raise_and_add.h
+++ b/src/estd/internal/raise_and_add.h
@@ -33,8 +33,7 @@ inline raise_and_add(_Tp& __val, const unsigned short __base, unsigned char __c)
 }   */
 
 template<typename T, typename Subtrahend>
-typename estd::enable_if<estd::is_signed<T>::value, bool>::type
-inline raise_and_sub(T& __val, const unsigned short __base, Subtrahend sub)
+bool inline raise_and_sub(T& __val, const unsigned short __base, Subtrahend sub)
 {
     if (__builtin_mul_overflow(__val, __base, &__val)
         || __builtin_sub_overflow(__val, sub, &__val))
-- 
2.43.0


From e38903cdc2bbda2a8409f41127cf775badd8c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 02/98] fix: to_chars converts minimum values and uses the
 whole buffer

The first slot of the range was never used, so exactly fitting output was
refused, an empty range was written in front of, and the minimum value of a
signed type cannot be negated.
---
 src/estd/internal/charconv.hpp         | 22 +++++++++++++++-------
 src/estd/internal/charconv/reverse.hpp | 11 +++++------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/estd/internal/charconv.hpp b/src/estd/internal/charconv.hpp
index 088fcb5..dcdb771 100644
--- a/src/estd/internal/charconv.hpp
+++ b/src/estd/internal/charconv.hpp
@@ -51,27 +51,35 @@ inline detail::to_chars_result<CharIt> to_chars_integer_opt(
     static_assert(is_same<typename cbase_type::char_type, char_type>::value, "CharIt must align with cbase");
 #endif
 
-    if(numeric_limits::is_signed && negative) value *= -1;
+    const int b = base();
 
-    while(first != --last)
+    while(first != last)
     {
 // EXPERIMENTAL, not sure if this helps at all
 #if FEATURE_ESTD_TO_CHARS_LIBC_DIV
         using d = div<Int>;
-        const typename d::result v = d::eval(value, base());
-        *last = cbase_type::to_char(v.rem);
+        const typename d::result v = d::eval(value, b);
+        const int digit = v.rem;
         value = v.quot;
 #else
         // DEBT: Pretty sure there's a div and mod combined operation, use that
         // i.e. https://riscv.org/wp-content/uploads/2017/05/riscv-spec-v2.2.pdf page 36 section 6.2
-        *last = cbase.to_char(value % base());
-        value /= base();
+        const int digit = value % b;
+        value /= b;
 #endif
 
+        // Remainder of a negative value is negative.  Converting it rather than value itself
+        // since the minimum value has no positive counterpart
+        *--last = cbase.to_char(negative ? -digit : digit);
+
         if(value == 0)
         {
-            if(numeric_limits::is_signed && negative)
+            if(negative)
+            {
+                if(first == last) break;    // no room for sign
+
                 *--last = '-';
+            }
 
 #ifdef __cpp_initializer_lists
             return result_type{last, estd::errc(0)};
diff --git a/src/estd/internal/charconv/reverse.hpp b/src/estd/internal/charconv/reverse.hpp
index c3a2711..9ccff99 100644
--- a/src/estd/internal/charconv/reverse.hpp
+++ b/src/estd/internal/charconv/reverse.hpp
@@ -15,18 +15,17 @@ to_chars_result to_chars_integer_reverse(char* first, char* last, TInt value, co
     typedef cbase<char, b, classic_locale_type> cbase_type;
     typedef typename cbase_type::char_type char_type;
 
-    if(estd::numeric_limits<TInt>::is_signed && value < 0)
-    {
-        *first++ = '-';
-        value *= -1;
-    }
+    const bool negative = estd::numeric_limits<TInt>::is_signed && value < 0;
+
+    if(negative && first != last) *first++ = '-';
 
     char_type* current = first;
 
     while(current != last)
     {
         // DEBT: instance method in case its runtime casing
-        *current = cbase_type().to_char(value % base);
+        const int digit = value % base;
+        *current = cbase_type().to_char(negative ? -digit : digit);
         value /= base;
 
         current++;
-- 
2.43.0


From a5f6a7a78ec8d4e6d82ba387cf21e6a3e22b9abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 03/98] fix: string find, rfind, find_first_of and find_last_of
 stay within the string

---
 src/estd/internal/runtime_array.h | 53 +++++++++++++++----------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index a189959..465cd60 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -398,17 +398,20 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
-        const_pointer data = clock();
-        const_pointer end = data + size();
+        const size_type sz = size();
 
-        data += pos;
+        // not enough characters at & after pos to fit 's'
+        if(pos > sz || sz - pos < count) return npos;
 
-        for(const_pointer i = data; i != end; ++i)
+        const size_type last = sz - count;
+        const_pointer data = clock();
+
+        for(size_type i = pos; i <= last; ++i)
         {
-            if(memcmp(s, i, count) == 0)
+            if(memcmp(s, data + i, count * sizeof(value_type)) == 0)
             {
                 cunlock();
-                return i - data;
+                return i;
             }
         }
 
@@ -428,37 +431,26 @@ public:
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
         const size_type sz = size();
-        if(pos >= sz) pos = sz - 1;
 
-        unsigned remainder = sz - pos;
+        // 's' can't fit anywhere
+        if(count > sz) return npos;
 
-        // if remaining characters including & after pos wouldn't fit 's'
-        // i.e. "Hello" finding "llo" at pos 4 ("o" = remainder 1, count 3)
-        if(remainder < count)
-        {
-            // Make sure there's enough room to move backwards for a useful
-            // comparison
-            // i.e. "Hello" finding "llo" at pos 4 (can we move back 2 to pos=2 reach a new remainder of 3?)
-            if(pos < count - remainder) return npos;
-
-            // skip over compares that can't succeed where pos is too close
-            // to end
-            // i.e. "Hello" finding "llo" at pos 4 ("o") moves back 2
-            pos -= count - remainder;
-        }
+        // skip over compares that can't succeed where pos is too close
+        // to end
+        // i.e. "Hello" finding "llo" at pos 4 ("o") moves back to pos 2
+        if(pos > sz - count) pos = sz - count;
 
         const_pointer data = clock();
-        const_pointer rend = data - 1;
-
-        data += pos;
 
-        for(; data != rend; --pos, --data)
+        for(;; --pos)
         {
-            if(memcmp(s, data, count) == 0)
+            if(memcmp(s, data + pos, count * sizeof(value_type)) == 0)
             {
                 cunlock();
                 return pos;
             }
+
+            if(pos == 0) break;
         }
 
         cunlock();
@@ -469,6 +461,8 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
+        if(pos >= size()) return npos;
+
         const_pointer data = clock();
         const_pointer end = data + size();
 
@@ -482,7 +476,10 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
-        if(pos == npos) pos = size() - 1;   // DEBT: I think this line should go back up to string
+        const size_type sz = size();
+
+        if(sz == 0) return npos;
+        if(pos >= sz) pos = sz - 1;   // DEBT: I think this line should go back up to string
 
         const_pointer data = clock();
         const_pointer rend = data - 1;
-- 
2.43.0


From 9b5a6d6a3df0067dc14dbf3e71f49eecfa56c004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:27 +0000
Subject: [PATCH 04/98] fix: vector erase and insert move whole elements

---
 src/estd/internal/dynamic_array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 0e83625..1748cb3 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -233,7 +233,7 @@ protected:
     {
         const size_t sz = last - first;
 
-        memmove(d_last - sz, first, sz);
+        memmove(d_last - sz, first, sz * sizeof(value_type));
     }
 #endif
 
@@ -335,7 +335,7 @@ protected:
         // to_insert_pos to to_insert_pos + 1
         copy_assist(data + to_insert_pos, data + sz, data + sz + 1);
 
-        new (data + to_insert_pos) value_type(to_insert_value);
+        new (data + to_insert_pos) value_type(*to_insert_value);
 
         unlock();
     }
@@ -500,7 +500,7 @@ public:
         else
             impl().size(prev_size - count);
 
-        memmove(raw, raw + count, prev_size - (index + count));
+        memmove(raw, raw + count, (prev_size - (index + count)) * sizeof(value_type));
 
         unlock();
     }
-- 
2.43.0


From c2534db2c7413cc627063fb4a0f64329c8a6a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:39 +0000
Subject: [PATCH 05/98] fix: starts_with and ends_with on equal and empty
 strings

---
 src/estd/internal/container/starts_with.h | 8 +++++---
 src/estd/internal/runtime_array.h         | 8 +++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/container/starts_with.h b/src/estd/internal/container/starts_with.h
index dae9c13..84c008d 100644
--- a/src/estd/internal/container/starts_with.h
+++ b/src/estd/internal/container/starts_with.h
@@ -12,14 +12,16 @@ inline ESTD_CPP_CONSTEXPR(14) bool starts_with_n(It1 lhs, It2 rhs, int count_lhs
 {
     // DEBT: Using signed int here is fiddly, since incoming count likely won't be signed
 
-    while(count_lhs-- && count_rhs--)
+    // if compare_to is longer than we are, then it's a fail
+    if(count_rhs > count_lhs) return false;
+
+    while(count_rhs-- > 0)
         if(*lhs++ != *rhs++)
         {
             return false;
         }
 
-    // if compare_to is longer than we are, then it's also a fail
-    return count_lhs != -1;
+    return true;
 }
 
 
diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index 465cd60..7b0b2ae 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -153,6 +153,8 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool starts_with(const_reference ch) const
     {
+        if(size() == 0) return false;
+
         const bool r = *clock(0, 1) == ch;
 
         cunlock();
@@ -170,7 +172,11 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool ends_with(const_reference ch) const
     {
-        const bool r = *clock(size() - 1, 1) == ch;
+        const size_type sz = size();
+
+        if(sz == 0) return false;
+
+        const bool r = *clock(sz - 1, 1) == ch;
 
         cunlock();
 
-- 
2.43.0


From 04b056b2e000aa69d3c0d15dff303a67e5d6f35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 06/98] fix: empty() of a fixed-length read-only array was
 inverted

---
 src/estd/internal/impl/dynamic_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/dynamic_array.h b/src/estd/internal/impl/dynamic_array.h
index c855988..a55b874 100644
--- a/src/estd/internal/impl/dynamic_array.h
+++ b/src/estd/internal/impl/dynamic_array.h
@@ -226,7 +226,7 @@ public:
 
     ESTD_CPP_CONSTEXPR_RET bool empty(const handle_descriptor& hd) const
     {
-        return hd.size() > 0;
+        return hd.size() == 0;
     }
 
     ESTD_CPP_CONSTEXPR_RET size_type size(const handle_descriptor& hd) const
-- 
2.43.0


From ae651c4e710ba2014485b80bc540d9f9b09ab671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 07/98] fix: string copy with an unbounded count from a
 position

---
 src/estd/internal/container/specializer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 75234fd..4f659a8 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -44,7 +44,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
         // TODO: since we aren't gonna throw an exception, determine what to do if
         // pos > size()
 
-        if(pos + count > a.size())
+        if(count > a.size() - pos)
             count = a.size() - pos;
 
         estd::copy_n(src, count, dest);
@@ -184,7 +184,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
         // TODO: since we aren't gonna throw an exception, determine what to do if
         // pos > size()
 
-        if(pos + count > a.size())
+        if(count > a.size() - pos)
             count = a.size() - pos;
 
         // TODO: Do the m_impl.copy_from here
-- 
2.43.0


From 5b5523ef669ee5fc6040e824f5fa761728272422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 08/98] fix: string_view substr does not reach past the end

---
 src/estd/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/string_view.h b/src/estd/string_view.h
index 2ed3669..a5bff94 100644
--- a/src/estd/string_view.h
+++ b/src/estd/string_view.h
@@ -112,7 +112,7 @@ public:
         basic_string_view copy(*this);
 
         copy.remove_prefix(pos);
-        if(count != base_type::npos)
+        if(count < copy.size())
         {
             allocator_type& a = copy.get_allocator();
 
-- 
2.43.0


From 56b6856e9717674c9b71b4cd2ff969bd0501b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:28 +0000
Subject: [PATCH 09/98] fix: string_view empty() did not compile

---
 src/estd/internal/impl/allocated_array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/impl/allocated_array.h b/src/estd/internal/impl/allocated_array.h
index 53dfcf5..a2b1016 100644
--- a/src/estd/internal/impl/allocated_array.h
+++ b/src/estd/internal/impl/allocated_array.h
@@ -14,6 +14,8 @@ struct allocated_array : estd::handle_descriptor<Allocator>
 
     ESTD_CPP_DEFAULT_CTOR(allocated_array)
     ESTD_CPP_FORWARDING_CTOR(allocated_array)
+
+    constexpr bool empty() const { return base_type::size() == 0; }
 };
 
 
-- 
2.43.0


From 2cde10b0b08d376673e48757d4545ba61113cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:54 +0000
Subject: [PATCH 10/98] fix: a moved-to deque refers to its own storage

---
 src/estd/queue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 353d0b0..e82ac4c 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -191,8 +191,8 @@ public:
 #ifdef FEATURE_CPP_MOVESEMANTIC
     constexpr deque(deque&& move_from) :
         m_array(std::move(move_from.m_array)),
-        m_front(std::move(move_from.m_front)),
-        m_back(std::move(move_from.m_back)),
+        m_front(m_array.begin() + (move_from.m_front - move_from.m_array.begin())),
+        m_back(m_array.begin() + (move_from.m_back - move_from.m_array.begin())),
         m_empty(std::move(move_from.m_empty))
     {}
 #endif
-- 
2.43.0


From 48cfe5a14c3ef1472ae5cfcbd1a2c2d4beb0267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:11 +0000
Subject: [PATCH 11/98] fix: deque emplace_front no longer overwrites the front
 element

---
 src/estd/queue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index e82ac4c..074ad01 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -379,11 +379,12 @@ public:
     template <class ...TArgs>
     reference emplace_front(TArgs&&...args)
     {
+        decrement(&m_front);
+
         value_type& retval = *m_front;
 
         new (&retval) value_type(std::forward<TArgs>(args)...);
 
-        decrement(&m_front);
         m_empty = false;
 
         return retval;
-- 
2.43.0


From f1ca01f67ab9a8d5c3b17f06a5d119177c6329d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:15 +0000
Subject: [PATCH 12/98] fix: iterating a full deque visits its elements

---
 src/estd/queue.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 074ad01..0015515 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -215,24 +215,30 @@ public:
     {
         const deque& parent;
         array_iterator current;
+        // begin and end of a full deque share one position, this tells them apart
+        bool at_front;
 
         // DEBT: Do we need a copy constructor here?
 
-        ESTD_CPP_CONSTEXPR_RET forward_iterator(const deque& parent, array_iterator current)
+        ESTD_CPP_CONSTEXPR_RET forward_iterator(const deque& parent, array_iterator current,
+            bool at_front = false)
             : parent(parent),
-              current(current)
+              current(current),
+              at_front(at_front)
         {}
 
         forward_iterator& operator++()
         {
             parent.increment(&current);
+            at_front = false;
             return *this;
         }
 
         // FIX: perhaps we can do reverse iteration easily here after all
         forward_iterator& operator--()
         {
-            parent.decrement(&current);
+            parent.decrement((const_array_iterator*)&current);
+            at_front = current == parent.m_front;
             return *this;
         }
 
@@ -250,19 +256,19 @@ public:
 
         bool operator==(const forward_iterator& compare_to) const
         {
-            return compare_to.current == current;
+            return compare_to.current == current && compare_to.at_front == at_front;
         }
 
         bool operator!=(const forward_iterator& compare_to) const
         {
-            return compare_to.current != current;
+            return !operator==(compare_to);
         }
     };
 
     typedef forward_iterator iterator;
     typedef const iterator const_iterator;
 
-    iterator begin() { return iterator(*this, m_front); }
+    iterator begin() { return iterator(*this, m_front, !m_empty); }
 
     iterator end() { return iterator(*this, m_back); }
 
-- 
2.43.0


From 510f74d3de64bd584371331604966a1fd228558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:29 +0000
Subject: [PATCH 13/98] fix: deque push on full and pop on empty report failure
 instead of corrupting the queue

---
 src/estd/queue.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 0015515..e84c382 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -180,6 +180,8 @@ class deque : protected TPolicy
             return m_back - m_front;
     }
 
+    bool _full() const { return !m_empty && m_front == m_back; }
+
 public:
     deque() :
         m_front(m_array.begin()),
@@ -289,6 +291,8 @@ public:
 
     bool push_back(const_reference value)
     {
+        if(_full()) return false;
+
         *m_back++ = value;
         m_empty = false;
 
@@ -308,6 +312,8 @@ public:
     ///
     bool push_front(const_reference value)
     {
+        if(_full()) return false;
+
         // NOTE: doesn't do a before-begin style, but for consistency probably should
         evaluate_rollunder((const_array_iterator*)&m_front);
         m_front--; // due to the non-before-begin approach. confusing
@@ -322,6 +328,8 @@ public:
 
     bool pop_back()
     {
+        if(empty()) return false;
+
         back().~value_type();
 
         decrement(&m_back);
@@ -333,6 +341,8 @@ public:
 
     bool pop_front()
     {
+        if(empty()) return false;
+
         front().~value_type();
 
         m_front++;
@@ -413,6 +423,8 @@ public:
 #ifdef FEATURE_CPP_MOVESEMANTIC
     bool push_back(value_type&& value)
     {
+        if(_full()) return false;
+
         value_type& back = *m_back++;
 
         new (&back) value_type(std::move(value));
-- 
2.43.0


From 4badb74c94072e2a1eee067bae5e29eee2fdb8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:00 +0000
Subject: [PATCH 14/98] fix: make_heap of an empty range, as after erasing the
 last priority_queue element

---
 src/estd/internal/algorithm/heap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/algorithm/heap.h b/src/estd/internal/algorithm/heap.h
index 790770a..63707e7 100644
--- a/src/estd/internal/algorithm/heap.h
+++ b/src/estd/internal/algorithm/heap.h
@@ -162,6 +162,8 @@ struct heap
 
     void make()
     {
+        if(empty()) return;
+
         int last_nonleaf_idx = (size() - 1) / k;
         // FIX: this is not sufficient, because restore_up doesn't evaluate all children
         //while(!restore_up());
-- 
2.43.0


From 747fc45083cc37f95d1062ac8dff3b8aaba2c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 15/98] fix: back() of a const deque did not compile

---
 src/estd/queue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index e84c382..d6b21b6 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -150,7 +150,7 @@ class deque : protected TPolicy
             --(*i);
     }
 
-    void decrement(array_iterator* i)
+    void decrement(array_iterator* i) const
     {
         decrement((const_array_iterator*)i);
     }
@@ -239,7 +239,7 @@ public:
         // FIX: perhaps we can do reverse iteration easily here after all
         forward_iterator& operator--()
         {
-            parent.decrement((const_array_iterator*)&current);
+            parent.decrement(&current);
             at_front = current == parent.m_front;
             return *this;
         }
-- 
2.43.0


From d85fc31a3eb3e58632372291ebe3099a199ef4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:45 +0000
Subject: [PATCH 16/98] fix: swapping an integer with itself zeroed it

---
 src/estd/utility.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/utility.h b/src/estd/utility.h
index 18090e2..b46c9c9 100644
--- a/src/estd/utility.h
+++ b/src/estd/utility.h
@@ -195,6 +195,8 @@ namespace internal {
 template <class T>
 inline void xor_swap(T& a, T& b)
 {
+    if(&a == &b) return;
+
     a ^= b;
     b ^= a;
     a ^= b;
-- 
2.43.0


From 797f2c9d69f6382633bfc1aa11b71d0a4adf6989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:12 +0000
Subject: [PATCH 17/98] fix: clamp needs assert.h

---
 src/estd/algorithm.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/algorithm.h b/src/estd/algorithm.h
index 33c510e..66028c8 100644
--- a/src/estd/algorithm.h
+++ b/src/estd/algorithm.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <assert.h>
+
 #include "internal/platform.h"
 #include "internal/heap.h"
 #include "internal/functional.h"
-- 
2.43.0


From 2cd00a8fb0f17419ccc6174e124f39f2630d7605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:00 +0000
Subject: [PATCH 18/98] fix: unordered containers no longer read outside their
 slots

---
 src/estd/internal/container/unordered/base.h | 12 ++++++------
 src/estd/internal/container/unordered_map.h  |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 9be2a91..d0f42a6 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -93,7 +93,7 @@ protected:
     template <class It, class It2>
     static ESTD_CPP_CONSTEXPR(14) It skip_empty(It it, It2 end)
     {
-        for(; traits::is_empty(*it) && it != end; ++it)   {}
+        for(; it != end && traits::is_empty(*it); ++it)   {}
 
         return it;
     }
@@ -107,7 +107,7 @@ protected:
     template <class Control>
     ESTD_CPP_CONSTEXPR(14) Control skip_sparse(Control p, unsigned n) const
     {
-        for(; traits::is_sparse(*p, n) && p != container_.cend(); ++p)    {}
+        for(; p != container_.cend() && traits::is_sparse(*p, n); ++p)    {}
 
         return p;
     }
@@ -219,7 +219,7 @@ protected:
 
         // Move over occupied spots.  Sparse does NOT count as occupied
         // DEBT: optimize is_null/is_sparse together
-        for(;traits::is_empty(*it) == false; ++it)
+        for(;it == container_.cend() || traits::is_empty(*it) == false; ++it)
         {
             // if we get to the complete end, that's a fail
             // if we've moved to the next bucket, that's also a fail
@@ -389,7 +389,7 @@ protected:
 
             // skip over any sparse entries belonging to this bucket.  They are invisible
             // null entries for this iterator
-            for(; traits::is_sparse(*it_, n_) && it_ != parent_->container_.cend(); ++it_)   {}
+            for(; it_ != parent_->container_.cend() && traits::is_sparse(*it_, n_); ++it_)   {}
 
             return *this;
         }
@@ -456,13 +456,13 @@ protected:
 
         // No housekeeping if next guy is null (sparse is OK, but
         // not yet accounted for here)
-        if (base_type::is_empty(*pos))
+        if (pos == container_.cend() || base_type::is_empty(*pos))
             return;
 
         // Quick-deduce our bucket#
         size_type n = start - container_.cbegin();
         // Find last one in bucket
-        for(;n == index(traits::key(*pos)) && pos < container_.cend(); ++pos) {}
+        for(;pos < container_.cend() && n == index(traits::key(*pos)); ++pos) {}
         // Decrement to position on actual last one in bucket
         --pos;
 
diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index a9bda66..403845c 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -151,7 +151,7 @@ public:
     {
         --start;
 
-        for(; is_sparse(*pos, n) && pos != start; --pos)
+        for(; pos != start && is_sparse(*pos, n); --pos)
             gc_sparse_ll(pos);
     }
 
@@ -164,7 +164,7 @@ public:
 
         // get to end of identified bucket, skipping past sparse and active bucket items
         // DEBT: Be careful of index(0)
-        for(;(is_sparse(*pos, n) || index(pos->first) == n) && pos != container_.cend(); ++pos)
+        for(;pos != container_.cend() && (is_sparse(*pos, n) || index(pos->first) == n); ++pos)
         {
         }
 
-- 
2.43.0


From 86a481632a0648395d580204b8c0e91d6782b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:03 +0000
Subject: [PATCH 19/98] fix: unordered_map sparse markers hold any bucket and
 are not left stale

---
 src/estd/internal/container/unordered/traits.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 7603817..7547101 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -89,7 +89,7 @@ struct unordered_map_traits_control
             // aka "sparse" - exists specifically to mark as deleted, but physically unmoved
             uint16_t marked_for_gc : 1;
             // which bucket this empty slot *used to* belong to
-            uint16_t bucket : 6;
+            uint16_t bucket : 15;
         };
 
         uint16_t raw;
@@ -181,6 +181,8 @@ struct unordered_map_traits :
     static ESTD_CPP_CONSTEXPR(14) void set_null(control_type* v)
     {
         nullable{}.set(&v->first);
+        // an unused mapped area doubles as meta: do not leave a stale sparse marker in it
+        v->second.raw = 0;
     }
 
 private:
-- 
2.43.0


From 658cdd743f69aa8f25a42a48126a1b51ae94814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:06 +0000
Subject: [PATCH 20/98] fix: erase_and_gc keeps the remainder of the bucket
 reachable

---
 src/estd/internal/container/unordered/base.h | 25 +++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index d0f42a6..9941d7a 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -449,24 +449,21 @@ protected:
     void erase_and_gc_ll(control_pointer pos)
     {
         auto start = pos;
+        auto last = pos;
+        const size_type n = index(traits::key(*pos));
 
         destruct(pos);
 
-        ++pos;
-
-        // No housekeeping if next guy is null (sparse is OK, but
-        // not yet accounted for here)
-        if (pos == container_.cend() || base_type::is_empty(*pos))
-            return;
-
-        // Quick-deduce our bucket#
-        size_type n = start - container_.cbegin();
-        // Find last one in bucket
-        for(;pos < container_.cend() && n == index(traits::key(*pos)); ++pos) {}
-        // Decrement to position on actual last one in bucket
-        --pos;
+        // Find last one in bucket, looking past sparse entries
+        for(++pos; pos != container_.cend(); ++pos)
+        {
+            if(traits::is_sparse(*pos, n)) continue;
+            if(traits::is_empty(*pos) || n != index(traits::key(*pos))) break;
+            last = pos;
+        }
 
-        traits::swap(*pos, *start);
+        // Fill the gap, otherwise the rest of the bucket can't be reached
+        if(last != start) traits::swap(*last, *start);
     }
 
 public:
-- 
2.43.0


From 241bc5b0490c82e2a57741822aa92444d609efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:08 +0000
Subject: [PATCH 21/98] fix: unordered insert looks for the key past erased
 slots and leaves other buckets intact

---
 src/estd/internal/container/unordered/base.h  | 25 +++++++++++++++----
 .../internal/container/unordered/traits.h     |  1 +
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 9941d7a..9fe904b 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -216,15 +216,30 @@ protected:
         // linear probing
 
         control_pointer it = &container_[n];
+        control_pointer sparse = nullptr;
 
-        // Move over occupied spots.  Sparse does NOT count as occupied
+        // Move over occupied spots.  Our own bucket's sparse does NOT count as occupied, but
+        // the key may still follow it
         // DEBT: optimize is_null/is_sparse together
-        for(;it == container_.cend() || traits::is_empty(*it) == false; ++it)
+        for(;; ++it)
         {
             // if we get to the complete end, that's a fail
+            if(it == container_.cend()) return { sparse, sparse != nullptr };
+
+            if(traits::is_empty(*it))
+            {
+                if(traits::is_null_not_sparse(*it)) break;
+
+                // if it's another bucket's sparse, using it would cut that bucket in two
+                if(!traits::is_sparse(*it, n)) return { sparse, sparse != nullptr };
+
+                if(sparse == nullptr) sparse = it;
+                continue;
+            }
+
             // if we've moved to the next bucket, that's also a fail
-            if(it == container_.cend() || index(base_type::key(*it)) != n)
-                return { nullptr, false };
+            if(index(base_type::key(*it)) != n)
+                return { sparse, sparse != nullptr };
             else if(!permit_duplicates)
             {
                 if(key_eq_c(key, *it))
@@ -238,7 +253,7 @@ protected:
         }
 
         // Success, but someone else still needs to initialize 'it'
-        return { it, true };
+        return { sparse == nullptr ? it : sparse, true };
     }
 
 
diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 7547101..5ae3df8 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -233,6 +233,7 @@ struct unordered_set_traits : unordered_traits<Key, Key, Hash, KeyEqual ESTD_UNO
         return nullable{}.is_null(v);
     }
 
+    static constexpr bool is_null_not_sparse(const value_type& v) { return is_empty(v); }
     static constexpr bool is_sparse(const value_type&) { return false; }
     static constexpr bool is_sparse(const value_type&, unsigned) { return false; }
 
-- 
2.43.0


From 4ea6922c69eb92426f2cba285354403abaed5a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:04 +0000
Subject: [PATCH 22/98] fix: equality of unordered containers does not depend
 on insertion order

---
 src/estd/internal/container/unordered/base.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 9fe904b..faab7a6 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -588,9 +588,10 @@ ESTD_CPP_CONSTEXPR(14) bool operator==(const unordered_base<Container, Traits>&
     // DEBT: Not optimal, since we have to iterate inside size() to make this determination
     if(lhs.size() != rhs.size())    return false;
 
-    for(it l = lhs.begin(), r = rhs.begin(); l != lhs.cend(); ++l, ++r)
+    // order depends on insertion history, so it plays no part
+    for(it l = lhs.begin(); l != lhs.cend(); ++l)
     {
-        if(traits::key(*l) != traits::key(*r)) return false;
+        if(!rhs.contains(traits::key(*l))) return false;
     }
 
     return true;
-- 
2.43.0


From 6e8e327cb144f552106bccfa6a76988df472d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:07 +0000
Subject: [PATCH 23/98] fix: variant, optional and expected storage is aligned
 for its types

---
 src/estd/internal/variant/storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index 1fea032..5d60681 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -39,7 +39,7 @@ inline static monostate construct_at(void* placement, TArgs&&...args)
 template <class ...T>
 union variant_union<false, T...>
 {
-    estd::byte raw[sizeof(typename largest_type<T...>::type)];
+    alignas(T...) estd::byte raw[sizeof(typename largest_type<T...>::type)];
 };
 
 template <>
-- 
2.43.0


From 5a01336ad43a418363f7baf5545fe5a576456682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:39 +0000
Subject: [PATCH 24/98] fix: variant emplace by index selects that index among
 equal types

---
 src/estd/internal/variant.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index 6e98476..401195b 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -363,9 +363,18 @@ public:
     template <unsigned I, class... TArgs>
     variant_alternative_t<I>& emplace(TArgs&&...args)
     {
-        typedef variant_alternative_t<I> T_i;
+        destroy_if_valid();
+
+        // Unset index just in case exception is thrown during construction
+        index_ = variant_npos();
 
-        return emplace<T_i>(std::forward<TArgs>(args)...);
+        variant_alternative_t<I>* const v =
+            base_type::template emplace<I>(std::forward<TArgs>(args)...);
+
+        // Not looked up by type, since the same type may appear more than once
+        index_ = I;
+
+        return *v;
     }
 };
 
-- 
2.43.0


From 2e90d475aeb50fc09e3f55bfa9af8b704091ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:41 +0000
Subject: [PATCH 25/98] fix: get from an rvalue variant did not compile

---
 src/estd/variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/variant.h b/src/estd/variant.h
index fe6ffda..544eb98 100644
--- a/src/estd/variant.h
+++ b/src/estd/variant.h
@@ -59,7 +59,7 @@ internal::type_at_index<index, Types...>&& get(variant<Types...>&& v)
 {
     internal::assert_index_matches<index>(v);
 
-    return * internal::get_ll<index>(v);
+    return std::move(* internal::get_ll<index>(v));
 }
 
 
@@ -78,7 +78,7 @@ constexpr const T& get(const variant<Types...>& v)
 template <class T, class ...Types>
 T&& get(variant<Types...>&& v)
 {
-    return get<internal::select_type<T, Types...>::first::index>(v);
+    return get<internal::select_type<T, Types...>::first::index>(std::move(v));
 }
 
 
-- 
2.43.0


From f5d0b9b720687ed4b570e47cf38e0a441efffb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:48 +0000
Subject: [PATCH 26/98] fix: value() of a const expected and dereference of an
 rvalue expected did not compile

---
 src/estd/expected.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/expected.h b/src/estd/expected.h
index b0b7fb6..87b3770 100644
--- a/src/estd/expected.h
+++ b/src/estd/expected.h
@@ -71,7 +71,7 @@ class expected : public internal::expected<T, E>
             base_type::destroy_error();
     }
 
-    void assert_has_value()
+    void assert_has_value() const
     {
         if(!has_value_)
 #if __cpp_exceptions
@@ -256,12 +256,12 @@ public:
 #if __cpp_rvalue_references
     nonvoid_value_type&& operator*() &&
     {
-        return base_type::value();
+        return std::move(base_type::value());
     }
 
     const nonvoid_value_type&& operator*() const&&
     {
-        return base_type::value();
+        return std::move(base_type::value());
     }
 #endif
 
-- 
2.43.0


From 615be10a25ce8f85c5a146db1f3b42ca2f8d583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:33 +0000
Subject: [PATCH 27/98] fix: inequality of two optionals agrees with their
 equality

---
 src/estd/optional.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index 6a54c65..bd735d8 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -420,6 +420,18 @@ ESTD_CPP_CONSTEXPR_RET bool operator!=(const optional<T, TBase>& opt, const U& v
     return opt.has_value() ? *opt != value : true;
 }
 
+template <class T, class U, class TBase>
+ESTD_CPP_CONSTEXPR_RET bool operator!=(const U& value, const optional<T, TBase>& opt)
+{
+    return opt.has_value() ? value != *opt : true;
+}
+
+template <class T, class T2, class Base, class Base2>
+ESTD_CPP_CONSTEXPR_RET bool operator!=(const optional<T, Base>& lhs, const optional<T2, Base2>& rhs)
+{
+    return !(lhs == rhs);
+}
+
 
 template <class T, class U, class TBase>
 ESTD_CPP_CONSTEXPR_RET bool operator>(const optional<T, TBase>& opt, const U& value)
-- 
2.43.0


From 945d89a1a0d721c3c67ef3af9019cc919553e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:20 +0000
Subject: [PATCH 28/98] fix: keep ospanbuf writes inside the span, and count
 its elements rather than bytes

---
 src/estd/internal/impl/streambuf/span.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 1eee046..a605243 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -73,12 +73,16 @@ struct out_span_streambuf :
     }
 
     char_type* pptr() const { return pbase() + base_out_type::pos(); }
-    char_type* epptr() const { return pbase() + out().size_bytes(); }
+    char_type* epptr() const { return pbase() + out().size(); }
 
     streamsize xsputn(const char_type* s, streamsize count)
     {
-        // TODO: do proper bounds checking here
-        memcpy(pptr(), s, count);
+        // DEBT: Deviates from spec a bit, as overflow is left to sputn
+        const streamsize avail = epptr() - pptr();
+        if(count > avail) count = avail;
+        if(count <= 0) return 0;
+
+        estd::copy_n(s, count, pptr());
         this->pbump(count);
         return count;
     }
@@ -86,7 +90,7 @@ struct out_span_streambuf :
     int_type sputc(char_type ch)
     {
         const pos_type& pos = base_out_type::pos();
-        if(pos >= out().size_bytes())
+        if(pos >= out().size())
             return base_out_type::overflow();
 
         *(pptr()) = ch;
@@ -115,7 +119,7 @@ protected:
 
             case ios_base::end:
                 // UNTESTED
-                base_out_type::seekpos(out().size_bytes() + off);
+                base_out_type::seekpos(out().size() + off);
                 break;
         }
 
-- 
2.43.0


From 33484020f48189b1c7d47b32760e562d1d9323a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:43 +0000
Subject: [PATCH 29/98] fix: num_get skips the digits after an overflow, and
 stops at the first non digit

---
 src/estd/internal/locale/iterated/num_get.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 34995e6..80ec1d7 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -251,7 +251,7 @@ struct num_get
 
             case Overflow:
                 // Merely consumed numbers in this mode
-                return cbase_type::from_char(c).has_value();
+                return !cbase_type::from_char(c).has_value();
 
             // FIX: Just to satisfy compilation
             default:
-- 
2.43.0


From b4675ddc25fdd3984771f3f65f711b4692ea887a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:52 +0000
Subject: [PATCH 30/98] fix: ctype islower and combined/alpha masks

---
 src/estd/internal/locale/ctype.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/locale/ctype.h b/src/estd/internal/locale/ctype.h
index ce77fad..ac3c445 100644
--- a/src/estd/internal/locale/ctype.h
+++ b/src/estd/internal/locale/ctype.h
@@ -73,7 +73,7 @@ public:
 
     static bool islower(char ch)
     {
-        return 'a' <= ch && ch <= 'a';
+        return 'a' <= ch && ch <= 'z';
     }
 
     typedef char char_type;
@@ -94,16 +94,16 @@ public:
             if(estd::cbase<char, 16, locale_type>::is_in_base(ch))
                 return true;
         }
-        else if(m & digit)
+        if(m & digit)
         {
             if(estd::cbase<char, 10, locale_type>::is_in_base(ch))
                 return true;
         }
-        if(m & upper)
+        if(m & (upper | alpha))
         {
             if(isupper(ch)) return true;
         }
-        else if(m & lower)
+        if(m & (lower | alpha))
         {
             if(islower(ch)) return true;
         }
-- 
2.43.0


From bd6ff892880a7140cba13fb2a0b7a2a98aac81b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:05 +0000
Subject: [PATCH 31/98] fix: num_get fails on a minus sign which no digit
 follows

---
 src/estd/internal/locale/iterated/num_get.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 80ec1d7..ed42452 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -213,7 +213,7 @@ struct num_get
                 // to ensure this hyphen compare is proper
                 if (is_signed<T>() && c == ctype_type::widen('-'))
                 {
-                    state_.state_ = NominalNegative;
+                    state_.state_ = FirstNegative;
                     return false;
                 }
                 else
@@ -234,6 +234,8 @@ struct num_get
                     return false;
 
             case FirstNegative:
+                state_.state_ = NominalNegative;
+
                 if(nominal<false>(c, err, v))
                 {
                     // "if the conversion function fails std::ios_base::failbit is assigned to err" [1]
-- 
2.43.0


From 141554d1a67a3cc7a15f086cbadf21a449f69fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:54 +0000
Subject: [PATCH 32/98] fix: num_get fails when the input ends before any digit

---
 src/estd/internal/locale/iterated/num_get.h | 6 ++++++
 src/estd/internal/locale/num_get.h          | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index ed42452..2396357 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -272,6 +272,12 @@ struct num_get
         return true;
     }
 
+    /// @return true if no digit has been seen (yet)
+    bool empty() const
+    {
+        return state_.state_ == Start || state_.state_ == FirstNegative;
+    }
+
     // Just a bit of future proofing
     ESTD_CPP_CONSTEXPR_RET num_get(locale_type) {}
     ESTD_CPP_DEFAULT_CTOR(num_get)
diff --git a/src/estd/internal/locale/num_get.h b/src/estd/internal/locale/num_get.h
index 3282384..03174c9 100644
--- a/src/estd/internal/locale/num_get.h
+++ b/src/estd/internal/locale/num_get.h
@@ -70,6 +70,7 @@ private:
             }
 
             err |= ios_base::eofbit;
+            if(n.empty()) err |= ios_base::failbit;
             n.finalize(v, is_integer());
             return i;
         }
-- 
2.43.0


From 1c0a30ddbff5fceca50a930489fc1cf344d35735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:24 +0000
Subject: [PATCH 33/98] fix: chooser rejects a first character which starts no
 candidate

---
 src/estd/internal/chooser.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/estd/internal/chooser.h b/src/estd/internal/chooser.h
index 043ed01..95965cb 100644
--- a/src/estd/internal/chooser.h
+++ b/src/estd/internal/chooser.h
@@ -54,6 +54,11 @@ public:
                     break;
                 }
             }
+
+            // nobody starts with this one, so there is nothing to follow up on
+            if(chosen_ == -1) return true;
+
+            if(get_size(containers[chosen_]) == 1) return true;
         }
         else
         {
-- 
2.43.0


From b4b6c08231d42468283c078fe54e927041e03545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:43 +0000
Subject: [PATCH 34/98] fix: num_get of a bool fails when the input ends early

---
 src/estd/internal/locale/iterated/num_get.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 2396357..5609d1f 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -337,7 +337,9 @@ struct bool_get<TChar, TLocale, false> : num_get<2, TChar, TLocale>
     {
         if(i != end) return get(*i++, err, v);
 
-        err |= ios_base::eofbit;
+        // input ran out before a value was recognized
+        v = false;
+        err |= ios_base::eofbit | ios_base::failbit;
         return true;
     }
 
@@ -388,7 +390,9 @@ struct bool_get<Char, Locale, true>
     {
         if(i != end) return get(*i++, err, v);
 
-        err |= ios_base::eofbit;
+        // input ran out before a value was recognized
+        v = false;
+        err |= ios_base::eofbit | ios_base::failbit;
         return true;
     }
 
-- 
2.43.0


From e030f2b7396f82e414d87e6b7c852ad7b84e3e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:46 +0000
Subject: [PATCH 35/98] fix: readsome at the end of the input no longer rewinds
 it

---
 src/estd/internal/istream.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index c8d2b42..2dc9528 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -142,6 +142,13 @@ public:
         // otherwise read all of count
         streamsize m = estd::min(count, rdbuf.in_avail());
 
+        if(m < 0)
+        {
+            // -1 denotes that no further characters shall arrive
+            this->setstate(ios_base::eofbit);
+            m = 0;
+        }
+
 #if FEATURE_ESTD_IOS_GCOUNT
         _gcount = m;
 #endif
-- 
2.43.0


From 21556724cf3da1d622b999e0d0daad691e9d8ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:49 +0000
Subject: [PATCH 36/98] fix: getline stays inside its buffer, loses no
 character and succeeds at the delimiter

---
 src/estd/internal/istream.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index 2dc9528..22e9fef 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -180,29 +180,41 @@ public:
         _gcount = 0;
 #endif
 
+        bool extracted = false;
+
         for (;;)
         {
-            int_type c = stream->sbumpc();
+            const int_type c = stream->sgetc();
 
-            if (traits_type::eq(c, traits_type::eof()))
+            if (c == traits_type::eof())
             {
-                this->setstate(base_type::eofbit);
+                this->setstate(extracted ? base_type::eofbit :
+                    (base_type::eofbit | base_type::failbit));
                 break;
             }
 
-            if (!count-- || traits_type::eq(c, delim))
+            const bool is_delim = c == traits_type::to_int_type(delim);
+
+            // leave room for null termination
+            if (!is_delim && count <= 1)
             {
                 this->setstate(base_type::failbit);
                 break;
             }
 
-            *s++ = c;
+            stream->sbumpc();
+            extracted = true;
 #if FEATURE_ESTD_IOS_GCOUNT
             _gcount++;
 #endif
+            // delimiter is extracted, but not stored
+            if (is_delim) break;
+
+            *s++ = traits_type::to_char_type(c);
+            --count;
         }
 
-        *s = 0;
+        if (count > 0) *s = 0;
 
         return *this;
     }
-- 
2.43.0


From 25f8a9d26af05e0c51f79bc474b8980973ea83ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:13 +0000
Subject: [PATCH 37/98] fix: gcount reflects what get, read and ignore really
 extracted, and a short read fails

---
 src/estd/internal/istream.h | 51 +++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index 22e9fef..b3986a2 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -98,10 +98,7 @@ public:
 public:
     int_type get()
     {
-#if FEATURE_ESTD_IOS_GCOUNT
-        ++_gcount;
-#endif
-        int_type c = this->rdbuf()->sbumpc();
+        const int_type c = this->rdbuf()->sbumpc();
 
         if(c == traits_type::eof())
         {
@@ -109,6 +106,8 @@ public:
                 ios_base::failbit | ios_base::eofbit);
         }
 
+        gcount(c == traits_type::eof() ? 0 : 1);
+
         return c;
     }
 
@@ -160,13 +159,12 @@ public:
         // TODO: optimization point.  We want to do something
         // so that we don't inline this (and other read/write operations like it)
         // all over the place
-        if (this->rdbuf()->sgetn(s, n) != n)
-            // TODO: Consider setting _gcount here to what *was* returned
-            this->setstate(base_type::eofbit);
+        const streamsize count = this->rdbuf()->sgetn(s, n);
 
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = n;
-#endif
+        if (count != n)
+            this->setstate(base_type::failbit | base_type::eofbit);
+
+        gcount(count);
 
         return *this;
     }
@@ -272,20 +270,19 @@ public:
     // delim test is disabled if delim is default value, which would be EOF
     basic_istream& ignore(streamsize count = 1)
     {
-        while (count--)
-        {
-            int_type ch = get();
+        streamsize ignored = 0;
 
-            if (ch == traits_type::eof())
+        for (; ignored < count; ++ignored)
+        {
+            if (this->rdbuf()->sbumpc() == traits_type::eof())
             {
                 this->setstate(ios_base::eofbit);
-                return *this;
+                break;
             }
-
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
         }
+
+        gcount(ignored);
+
         return *this;
     }
 
@@ -295,21 +292,25 @@ public:
         // "This [delimiter] test is disabled if delim is Traits::eof()"
         if (delim == traits_type::eof()) return ignore(count);
 
-        while (count--)
+        streamsize ignored = 0;
+
+        while (ignored < count)
         {
-            int_type ch = get();
+            const int_type ch = this->rdbuf()->sbumpc();
 
             if (ch == traits_type::eof())
             {
                 this->setstate(ios_base::eofbit);
                 break;
             }
-            else if (ch == delim) break;
 
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
+            ++ignored;
+
+            if (ch == delim) break;
         }
+
+        gcount(ignored);
+
         return *this;
     }
 
-- 
2.43.0


From 15ab6e514a2c8803bb07d3ab5d4a4c99521b3c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:24 +0000
Subject: [PATCH 38/98] fix: NUL characters and partial writes are no longer
 lost (istream >> char, out_buffered_stringbuf)

---
 src/estd/internal/impl/streambuf/buffer.h | 6 ++++--
 src/estd/istream.h                        | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/buffer.h b/src/estd/internal/impl/streambuf/buffer.h
index d88b72e..f4c0b22 100644
--- a/src/estd/internal/impl/streambuf/buffer.h
+++ b/src/estd/internal/impl/streambuf/buffer.h
@@ -70,7 +70,7 @@ protected:
             if(ll_sync() != 0)  return traits_type::eof();
         }
 
-        if(traits_type::not_eof(ch))
+        if(ch != traits_type::eof())
         {
             buf_ += traits_type::to_char_type(ch);
         }
@@ -84,7 +84,9 @@ protected:
     {
         const estd::streamsize maximum = remaining();
 
-        buf_.append(s, count > maximum ? maximum : count);
+        if(count > maximum) count = maximum;
+
+        buf_.append(s, count);
 
         // wrapper sputn handles this via 'overflow' - a little clumsy though
         //if(full())
diff --git a/src/estd/istream.h b/src/estd/istream.h
index 007f613..ea5367d 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -161,7 +161,7 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 
     const typename traits::int_type c = in.get();
 
-    if(traits::not_eof(c))  value = traits::to_char_type(c);
+    if(c != traits::eof())  value = traits::to_char_type(c);
 
     return in;
 }
-- 
2.43.0


From 953963fd3cc8b0ecfbb29ce2aa9132da4c60a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:24 +0000
Subject: [PATCH 39/98] fix: seekp returns its stream

---
 src/estd/internal/ostream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estd/internal/ostream.h b/src/estd/internal/ostream.h
index fd064cc..7ab3fd4 100644
--- a/src/estd/internal/ostream.h
+++ b/src/estd/internal/ostream.h
@@ -156,6 +156,7 @@ public:
     __ostream_type& seekp(off_type off, ios_base::seekdir dir)
     {
         this->rdbuf()->pubseekoff(off, dir, ios_base::out);
+        return *this;
     }
 
     // When the time comes, these will replace the old virtual ones
-- 
2.43.0


From 75656e885062ec3758d1faaa9133c4bba6041c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 40/98] fix: setfill works for the upper half of its documented
 range

---
 src/estd/internal/ios_base.h | 2 +-
 src/estd/internal/ostream.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/ios_base.h b/src/estd/internal/ios_base.h
index c670124..9b01c4e 100644
--- a/src/estd/internal/ios_base.h
+++ b/src/estd/internal/ios_base.h
@@ -225,7 +225,7 @@ protected:
         positioning alignment : 2;  // DEBT: Unused
 
         // DEBT: Presumes ASCII, 7-bit.  Unicode and friends are out
-        char fillchar : 6;          // + 32 (from ' ' to '`' ASCII)
+        unsigned char fillchar : 6;          // + 32 (from ' ' to '`' ASCII)
         //bool showbase : 1;          // DEBT: Unused
 
         ESTD_CPP_CONSTEXPR_RET ostream_internal() :
diff --git a/src/estd/internal/ostream.h b/src/estd/internal/ostream.h
index 7ab3fd4..97841a0 100644
--- a/src/estd/internal/ostream.h
+++ b/src/estd/internal/ostream.h
@@ -98,7 +98,7 @@ public:
     char_type fill(char_type ch)
     {
         char_type old_fill = fill();
-        ostream_.fillchar = 0x20 + ch;
+        ostream_.fillchar = ch - 0x20;
         return old_fill;
     }
 
-- 
2.43.0


From 26970e56e6c0b0f330b541abad05ecb94757a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 41/98] fix: bipbuf peek/poll stay inside the contiguous
 region, bipbuf streambufs honour both regions

---
 src/estd/ext/willemt/bipbuffer/bipbuffer.c |  4 +--
 src/estd/internal/bip/buffer.h             | 16 ++++++++-
 src/estd/internal/impl/streambuf/bipbuf.h  | 38 +++++++++++++++-------
 3 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/src/estd/ext/willemt/bipbuffer/bipbuffer.c b/src/estd/ext/willemt/bipbuffer/bipbuffer.c
index fdcc2eb..6b2a543 100644
--- a/src/estd/ext/willemt/bipbuffer/bipbuffer.c
+++ b/src/estd/ext/willemt/bipbuffer/bipbuffer.c
@@ -97,7 +97,7 @@ int bipbuf_offer(bipbuf_t* me, const unsigned char *data, const int size)
 unsigned char *bipbuf_peek(const bipbuf_t* me, const unsigned int size)
 {
     /* make sure we can actually peek at this data */
-    if (me->size < me->a_start + size)
+    if (me->a_end - me->a_start < size)
         return NULL;
 
     if (bipbuf_is_empty(me))
@@ -112,7 +112,7 @@ unsigned char *bipbuf_poll(bipbuf_t* me, const unsigned int size)
         return NULL;
 
     /* make sure we can actually poll this data */
-    if (me->size < me->a_start + size)
+    if (me->a_end - me->a_start < size)
         return NULL;
 
     void *end = me->data + me->a_start;
diff --git a/src/estd/internal/bip/buffer.h b/src/estd/internal/bip/buffer.h
index 1c699c2..935ee6a 100644
--- a/src/estd/internal/bip/buffer.h
+++ b/src/estd/internal/bip/buffer.h
@@ -77,7 +77,7 @@ class bipbuf
     // https://stackoverflow.com/questions/11373203/accessing-inactive-union-member-and-undefined-behavior
     // NOTE: Above comment N/A we have left union behind
 
-    byte backing_buffer_[sizeof(bipbuf_t) + N];
+    alignas(bipbuf_t) byte backing_buffer_[sizeof(bipbuf_t) + N];
 
     // Can't do union here
     // https://github.com/malachi-iot/estdlib/issues/30
@@ -149,6 +149,13 @@ public:
     {
         return (unsigned)bipbuf_unused(buf());
     }
+
+    /// Amount which peek and poll can reach as one contiguous chunk.  The remainder of 'used', if
+    /// any, shows up once all this has been polled
+    unsigned contiguous() const
+    {
+        return buf()->a_end - buf()->a_start;
+    }
 };
 
 }
@@ -207,6 +214,13 @@ public:
     {
         return (unsigned) bipbuf_unused(buf_);
     }
+
+    /// Amount which peek and poll can reach as one contiguous chunk.  The remainder of 'used', if
+    /// any, shows up once all this has been polled
+    unsigned contiguous() const
+    {
+        return buf_->a_end - buf_->a_start;
+    }
 };
 
 }
diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 3187c62..220f657 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -47,17 +47,20 @@ protected:
 
     void pbump(int count)
     {
-        buf_.offer_end(count);
+        buf_.offer_end(count * sizeof(char_type));
     }
 
     int sync()
     {
         // DEBT: A lot of tuning opportunity here
-        const unsigned sz = buf_.used();
-        auto b = (char_type*)buf_.peek(sz);
-        unsigned written = base_type::rdbuf().sputn(b, sz);
-        if(written == 0) return -1;
-        buf_.poll(written);
+        while(buf_.used() != 0)
+        {
+            const unsigned sz = buf_.contiguous();
+            auto b = (char_type*)buf_.peek(sz);
+            const streamsize written = base_type::rdbuf().sputn(b, sz / sizeof(char_type));
+            if(written <= 0) return -1;
+            buf_.poll(written * sizeof(char_type));
+        }
         return 0;
     }
 
@@ -99,6 +102,9 @@ protected:
         if(xout_avail() == 0)
             sync();
 
+        // sink didn't take anything
+        if(xout_avail() == 0) return traits_type::eof();
+
         *pptr() = traits_type::to_char_type(ch);
         pbump(1);
 
@@ -159,7 +165,7 @@ protected:
 
         const streamsize actually_read = base_type::rdbuf().sgetn(buffer, unused);
 
-        if(actually_read == 0)  return -1;
+        if(actually_read <= 0)  return -1;
 
         buf_.offer_end(actually_read);
 
@@ -179,12 +185,20 @@ protected:
 
     streamsize xsgetn(nonconst_char_type* s, streamsize count)
     {
-        if(count > xin_avail())
-            count = xin_avail();
+        streamsize remaining = count;
 
-        copy_n(buf_.peek(), count, s);
+        while(remaining > 0 && xin_avail() > 0)
+        {
+            const streamsize avail = buf_.contiguous();
+            const streamsize chunk = remaining < avail ? remaining : avail;
 
-        return count;
+            copy_n(gptr(), chunk, s);
+            gbump(chunk);
+            s += chunk;
+            remaining -= chunk;
+        }
+
+        return count - remaining;
     }
 
     ESTD_CPP_FORWARDING_CTOR(in_buffered_bipbuf)
@@ -230,7 +244,7 @@ public:
 
     const char_type* egptr() const
     {
-        return gptr() + buf_.used();
+        return gptr() + buf_.contiguous();
     }
 };
 
-- 
2.43.0


From 8fa8233326ff21416db8e61cbb2d12f5b9486081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:36 +0000
Subject: [PATCH 42/98] fix: a char which sign extends to eof no longer counts
 as a failed write

---
 src/estd/internal/impl/streambuf.h        | 2 +-
 src/estd/internal/impl/streambuf/bipbuf.h | 5 ++---
 src/estd/internal/impl/streambuf/buffer.h | 2 +-
 src/estd/streambuf.h                      | 2 +-
 4 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/estd/internal/impl/streambuf.h b/src/estd/internal/impl/streambuf.h
index 30662a2..923ca1f 100644
--- a/src/estd/internal/impl/streambuf.h
+++ b/src/estd/internal/impl/streambuf.h
@@ -76,7 +76,7 @@ protected:
 
 public:
     // DEBT: Not well thought out, just getting things compiling
-    int_type sputc(char_type ch) { return overflow(ch); }
+    int_type sputc(char_type ch) { return overflow(traits_type::to_int_type(ch)); }
 };
 
 }}}
diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 220f657..0dfa133 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -71,7 +71,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 
 protected:
@@ -211,8 +211,7 @@ protected:
             if(sync() == -1)    return -1;
         }
 
-        // DEBT: Wrap with traits
-        return xsgetc();
+        return traits_type::to_int_type(xsgetc());
     }
 
     int_type uflow()
diff --git a/src/estd/internal/impl/streambuf/buffer.h b/src/estd/internal/impl/streambuf/buffer.h
index f4c0b22..ed17120 100644
--- a/src/estd/internal/impl/streambuf/buffer.h
+++ b/src/estd/internal/impl/streambuf/buffer.h
@@ -104,7 +104,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 };
 
diff --git a/src/estd/streambuf.h b/src/estd/streambuf.h
index 1ef327d..169c2c2 100644
--- a/src/estd/streambuf.h
+++ b/src/estd/streambuf.h
@@ -135,7 +135,7 @@ public:
         {
             s += written;
 
-            if(this->overflow(*s) != traits_type::eof())
+            if(this->overflow(traits_type::to_int_type(*s)) != traits_type::eof())
             {
                 // getting here means one more character was placed into put area
                 count -= ++written;
-- 
2.43.0


From 9d46a46ad18d9f06f6d887b3ef80ce25f0425fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:05 +0000
Subject: [PATCH 43/98] fix: wrapped (virtual) streambuf no longer drops single
 characters

---
 src/estd/internal/streambuf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/streambuf.h b/src/estd/internal/streambuf.h
index 1fb28c5..2cc7c2f 100644
--- a/src/estd/internal/streambuf.h
+++ b/src/estd/internal/streambuf.h
@@ -50,7 +50,9 @@ protected:
 
     virtual int_type overflow(int_type ch = traits_type::eof()) OVERRIDE
     {
-        return _rdbuf.overflow();
+        if(ch == traits_type::eof())    return _rdbuf.overflow();
+
+        return _rdbuf.sputc(traits_type::to_char_type(ch));
     }
 
 public:
-- 
2.43.0


From 6f45993c9e18a20517e1129471bd36a1d84f1e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:08 +0000
Subject: [PATCH 44/98] fix: stringbuf clear resets the read position, relative
 seek reports it

---
 src/estd/internal/impl/streambuf/string.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index 64eef37..b14b364 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -137,7 +137,10 @@ struct basic_stringbuf :
 
             case ios_base::cur:
                 if(which & ios_base::in)
+                {
                     in_base_type::gbump(off);
+                    return pos();
+                }
                 break;
 
             case ios_base::end:
@@ -149,6 +152,13 @@ struct basic_stringbuf :
         return pos_type(off_type(-1));
     }
 
+    // non-standard, as per out_stringbuf.  There's nothing left to read afterwards
+    void clear()
+    {
+        base_type::clear();
+        in_base_type::seekpos(0);
+    }
+
     int_type sungetc()
     {
         if(pos() == 0)
-- 
2.43.0


From 73a11a96331530194a91982f640878c2bd4e2be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:04 +0000
Subject: [PATCH 45/98] fix: ispanbuf over const char uses the traits of char,
 so 0xFF is no end of file

---
 src/estd/internal/impl/streambuf/span.h | 2 +-
 src/estd/istream.h                      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index a605243..750fabc 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -139,7 +139,7 @@ public:
 // be implemented in a derived class
 // DEBT: Refactor this to take CharTraits directly
 template <class TChar,
-        class TCharTraits =  estd::char_traits<TChar>,
+        class TCharTraits =  estd::char_traits<typename estd::remove_const<TChar>::type>,
         std::size_t Extent = detail::dynamic_extent::value,
         class TBase = estd::experimental::instance_provider<estd::span<TChar, Extent> > >
 struct in_span_streambuf :
diff --git a/src/estd/istream.h b/src/estd/istream.h
index ea5367d..e620b6c 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -170,13 +170,13 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 // live in estd itself rather than estd::detail
 namespace detail {
 
-template <class Char, class CharTraits = estd::char_traits<Char>>
+template <class Char, class CharTraits = estd::char_traits<typename estd::remove_const<Char>::type>>
 using basic_ispanbuf = estd::internal::streambuf<estd::internal::impl::in_span_streambuf<Char, CharTraits> >;
 
 using ispanbuf = basic_ispanbuf<char>;
 
-template <class Char, class CharTraits = estd::char_traits<Char>>
-using basic_ispanstream = estd::detail::basic_istream<basic_ispanbuf<Char>>;
+template <class Char, class CharTraits = estd::char_traits<typename estd::remove_const<Char>::type>>
+using basic_ispanstream = estd::detail::basic_istream<basic_ispanbuf<Char, CharTraits>>;
 
 using ispanstream = basic_ispanstream<char>;
 }
-- 
2.43.0


From 9e769828de8907c859feac2f7e2a230d67dae183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:07 +0000
Subject: [PATCH 46/98] fix: a failed put makes the ostream fail

---
 src/estd/internal/ostream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/ostream.h b/src/estd/internal/ostream.h
index 97841a0..52928ce 100644
--- a/src/estd/internal/ostream.h
+++ b/src/estd/internal/ostream.h
@@ -171,7 +171,7 @@ public:
     __ostream_type& put(char_type ch, bool bypass_sentry = false)
     {
         if (this->rdbuf()->sputc(ch) == estd::char_traits<char_type>::eof())
-            this->setstate(base_type::eofbit);
+            this->setstate(base_type::badbit);
 
         if (!bypass_sentry)
             sentry::destroy(*this);
-- 
2.43.0


From c113b099bf3a443991bc442a7ad05c129b7c472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:05 +0000
Subject: [PATCH 47/98] fix: forward_list remove_if unlinks neighbouring
 matches

---
 src/estd/forward_list.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 81ca246..f9e76a8 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -223,8 +223,10 @@ public:
 
                 if (first_only) return;
             }
+            else
+                // a removed node precedes nothing any longer
+                previous = current;
 
-            previous = current;
             current = _next;
         }
     }
@@ -265,8 +267,9 @@ public:
 
                 if(first_only) return;
             }
+            else
+                previous = current;
 
-            previous = current;
             current = _next;
         }
 #endif
-- 
2.43.0


From 780a1d271a1e1335c6d429a9f2c628c872475a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:17 +0000
Subject: [PATCH 48/98] fix: forward list with back accepts push_back again
 once it was emptied

---
 src/estd/internal/list_node.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/estd/internal/list_node.h b/src/estd/internal/list_node.h
index ff5d4ba..9398844 100644
--- a/src/estd/internal/list_node.h
+++ b/src/estd/internal/list_node.h
@@ -415,6 +415,14 @@ public:
         set_front(base_type::get_traits().allocate(value));
     }
 
+    void pop_front()
+    {
+        base_type::pop_front();
+
+        // once the last one is gone, there is no back to append to either
+        if(base_type::empty())
+            base_type::m_back = base_type::after_end_node();
+    }
 };
 
 }
-- 
2.43.0


From 48ccaf779222324eb43d35a7a750158b27668ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 49/98] fix: a node appended to a list ends it

---
 src/estd/internal/list_node.h | 3 +++
 src/estd/list.h               | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/estd/internal/list_node.h b/src/estd/internal/list_node.h
index 9398844..26427f7 100644
--- a/src/estd/internal/list_node.h
+++ b/src/estd/internal/list_node.h
@@ -378,6 +378,9 @@ protected:
             base_type::m_front = new_back;
         }
 
+        // new_back ends the list, whichever list it was part of before
+        base_type::set_next(new_back, base_type::after_end_node());
+
         // set the current 'back' tracker to this new_back
         base_type::m_back = new_back;
     }
diff --git a/src/estd/list.h b/src/estd/list.h
index bccb345..9311a50 100644
--- a/src/estd/list.h
+++ b/src/estd/list.h
@@ -52,6 +52,8 @@ class list_base :
         if(base_t::m_front == before_beginning_node())
             base_t::m_front = new_back;
 
+        // new_back ends the list, whichever list it was part of before
+        base_t::set_next(new_back, base_t::after_end_node());
         base_t::set_back(new_back);
     }
 
@@ -69,6 +71,7 @@ class list_base :
         if(base_t::m_back == base_t::after_end_node())
             base_t::m_back = new_front;
 
+        base_t::set_prev(new_front, before_beginning_node());
         base_t::set_front(new_front);
     }
 
-- 
2.43.0


From da381f30101f5efb3287f8759fa76af7e7b437fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:36 +0000
Subject: [PATCH 50/98] fix: copying a shared_ptr counts even after its master
 was reset

---
 src/estd/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index 2bfdf37..7a5d628 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -309,7 +309,9 @@ public:
     shared_ptr2_base(estd::internal::shared_ptr_control_block<T>* master_shared_ptr) :
         base_type(master_shared_ptr)
     {
-        if(master_shared_ptr && master_shared_ptr->is_active)
+        // An inactive (reset) master is no reason not to count: another shared_ptr may
+        // still hold the managed object
+        if(master_shared_ptr)
             master_shared_ptr->shared_count++;
     }
 
-- 
2.43.0


From 88ce3356787d545ca4cb273f48b09f7f34db5c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:44 +0000
Subject: [PATCH 51/98] fix: shared_ptr survives assignment to itself

---
 src/estd/memory.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index 7a5d628..311b5c5 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -585,6 +585,8 @@ public:
     shared_ptr& operator=(TSharedPtr&
                          copy_from)
     {
+        if((const void*)&copy_from == (const void*)this) return *this;
+
         this->reset();
         new (this) shared_ptr(copy_from);
         return *this;
-- 
2.43.0


From 4e048f037ab4acc52be28041e04e60a3b04f7e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:13 +0000
Subject: [PATCH 52/98] fix: moving the only linked_ref does not leave it
 pointing to its source

---
 src/estd/internal/linked_ref.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/linked_ref.h b/src/estd/internal/linked_ref.h
index c8a0e28..fdc80cb 100644
--- a/src/estd/internal/linked_ref.h
+++ b/src/estd/internal/linked_ref.h
@@ -82,8 +82,16 @@ public:
     }
 
     linked_ref(linked_ref&& move_from) noexcept :
-        value_(move_from.value_)
+        value_(move_from.value_),
+        next_(this)
     {
+        // The only reference: there are no others to find us among
+        if(move_from.next_ == &move_from)
+        {
+            move_from.next_ = nullptr;
+            return;
+        }
+
         // NOTE: Sad truth is move operation is pretty slow, since we have to remove ourselves
         // from a forward list necessitating a full loop through.  Naturally doubly linked list
         // is superior here, but that's
-- 
2.43.0


From aa7ab236b77ffd8d2f48fca419652e9078141b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:21 +0000
Subject: [PATCH 53/98] fix: get of an empty layer3 shared_ptr is null

---
 src/estd/memory.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index 311b5c5..736f542 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -268,7 +268,7 @@ public:
 #ifdef FEATURE_ESTD_SHARED_PTR_ALIAS
         return stored;
 #else
-        return control().shared;
+        return base_type::managed();
 #endif
     }
 
@@ -371,6 +371,7 @@ struct shared_ptr_base :
 
 protected:
     bool is_active() const { return base_type::value().is_active; }
+    managed_type* managed() const { return base_type::value().shared; }
     void activate() { base_type::value().is_active = true; }
     void deactivate() { base_type::value().is_active = false; }
 };
@@ -462,6 +463,7 @@ struct shared_ptr_base :
 
 protected:
     bool is_active() const { return this->value().is_active; }
+    T* managed() const { return this->value().shared; }
     void deactivate() { this->value().is_active = false; }
 };
 
@@ -516,6 +518,7 @@ struct shared_ptr_base :
 
 protected:
     bool is_active() const { return this->value_ptr() != NULLPTR; }
+    T* managed() const { return is_active() ? this->value().shared : NULLPTR; }
     void deactivate() { this->value_ptr(NULLPTR); }
 
     shared_ptr_base(estd::internal::shared_ptr_control_block<T>* assign_from) :
-- 
2.43.0


From 5fc25c145480012ecbe00569137d65dd0173db8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:09 +0000
Subject: [PATCH 54/98] fix: years divisible by four are leap years unless a
 century

---
 src/estd/internal/chrono/units.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/chrono/units.hpp b/src/estd/internal/chrono/units.hpp
index 4ca044b..885f585 100644
--- a/src/estd/internal/chrono/units.hpp
+++ b/src/estd/internal/chrono/units.hpp
@@ -76,7 +76,10 @@ public:
     static constexpr year min() NOEXCEPT { return year(-32767); }
     static constexpr year max() NOEXCEPT { return year(32767); }
 
-    constexpr bool is_leap() const NOEXCEPT { return value_ % 400 == 0; }
+    constexpr bool is_leap() const NOEXCEPT
+    {
+        return value_ % 4 == 0 && (value_ % 100 != 0 || value_ % 400 == 0);
+    }
 
     // upper end of 16-bit value can never be out of range
     constexpr bool ok() const NOEXCEPT { return *this >= min(); }
-- 
2.43.0


From 73fe5c74b19c56914f8436276cc1fc54efa764e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:11 +0000
Subject: [PATCH 55/98] fix: the last day of September is the 30th

---
 src/estd/internal/chrono/formatter.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 8cc5f08..5f45d15 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -91,13 +91,14 @@ public:
     {
         switch(month_.value())
         {
-            case 2: return year_.is_leap() ? day(29) : day(28);
+            case 2: return year_.is_leap() ? chrono::day(29) : chrono::day(28);
 
-            case 4: return day(30);
-            case 6: return day(30);
-            case 11: return day(30);
+            case 4: return chrono::day(30);
+            case 6: return chrono::day(30);
+            case 9: return chrono::day(30);
+            case 11: return chrono::day(30);
 
-            default:    return day(31);
+            default:    return chrono::day(31);
         }
     }
 
-- 
2.43.0


From 99b9e4e8652f7917666f70ff0e100f3bba40747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:13 +0000
Subject: [PATCH 56/98] fix: hh_mm_ss gives the seconds of durations over 255
 minutes

---
 src/estd/internal/chrono/formatter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 5f45d15..fa58ffb 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -184,7 +184,8 @@ public:
     inline seconds_type seconds() const NOEXCEPT
     {
         duration_type a = _abs();
-        auto v = a - minutes_type{a};
+        // minutes_type is too small for the total minutes of a long duration
+        auto v = a - hours() - minutes();
         return seconds_type{v};
     }
 
-- 
2.43.0


From 38aa0dcf70c568df327169d59ca0bcdfefa141ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:17 +0000
Subject: [PATCH 57/98] fix: a unit converted from one of another projection
 keeps its count

---
 src/estd/internal/units/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/units/base.h b/src/estd/internal/units/base.h
index 7f03925..5eae819 100644
--- a/src/estd/internal/units/base.h
+++ b/src/estd/internal/units/base.h
@@ -183,7 +183,7 @@ public:
     // Converting only precision or F modified
     template <class Rep2, ESTD_CPP_CONCEPT(Adder<Rep2>) F2>
     constexpr unit_base(const unit_base<Rep2, Period, Tag, F2>& s) :    // NOLINT
-        rep_{s.count()}
+        rep_(typename F::reversal{}(typename F::value_type{s.count()}))
     {
     }
 
-- 
2.43.0


From ed51d2de7e97c7240d01a058aecb5e0c331d975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:19 +0000
Subject: [PATCH 58/98] fix: year_month_day follows the calendar

---
 src/estd/internal/chrono/formatter.hpp | 44 ++++++++++++++++++++------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index fa58ffb..d4304c8 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -26,28 +26,54 @@ class year_month_day
 
     sys_days days_;
 
+    // Days since 1 March 0000, which puts the leap day at the end of its year
+    long shifted() const NOEXCEPT
+    {
+        return long(days_.time_since_epoch().count()) + 719468;
+    }
+
+    // 400 years always are 146097 days
+    static long era(long z) { return (z >= 0 ? z : z - 146096) / 146097; }
+
+    static long day_of_era(long z) { return z - era(z) * 146097; }
+
+    static long year_of_era(long doe)
+    {
+        return (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
+    }
+
+    static long day_of_year(long doe)
+    {
+        const long yoe = year_of_era(doe);
+        return doe - (365 * yoe + yoe / 4 - yoe / 100);
+    }
+
+    // March = 0 ... February = 11
+    static long month_of_year(long doy) { return (5 * doy + 2) / 153; }
+
 public:
     chrono::day days() const NOEXCEPT
     {
-        chrono::months m = days_.time_since_epoch();
-        chrono::days d = days_.time_since_epoch() - m;
-        return clock_traits::adjust_epoch(chrono::day(d.count() + 1));
+        const long doy = day_of_year(day_of_era(shifted()));
+        const long d = doy - (153 * month_of_year(doy) + 2) / 5 + 1;
+        return clock_traits::adjust_epoch(chrono::day(int(d)));
     }
 
     //constexpr
     chrono::month month() const NOEXCEPT
     {
-        chrono::years y = days_.time_since_epoch();
-        chrono::days d{y};
-        chrono::months m = days_.time_since_epoch() - d;
-        return clock_traits::adjust_epoch(chrono::month(m.count() + 1));
+        const long mp = month_of_year(day_of_year(day_of_era(shifted())));
+        return clock_traits::adjust_epoch(chrono::month(int(mp < 10 ? mp + 3 : mp - 9)));
     }
 
     //constexpr
     chrono::year year() const NOEXCEPT
     {
-        chrono::years y = days_.time_since_epoch();
-        return clock_traits::adjust_epoch(chrono::year(y.count()));
+        const long z = shifted();
+        const long doe = day_of_era(z);
+        const bool next = month_of_year(day_of_year(doe)) >= 10;
+        const long y = year_of_era(doe) + era(z) * 400 + (next ? 1 : 0);
+        return clock_traits::adjust_epoch(chrono::year(int(y - 1970)));
     }
 
     constexpr year_month_day(const sys_days& dp) NOEXCEPT :
-- 
2.43.0


From 5a506dc3eddd0e280f631c9cbb966591044472b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:19 +0000
Subject: [PATCH 59/98] fix: num_put writes the number when no adjustment is
 set

---
 src/estd/internal/locale/num_put.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/estd/internal/locale/num_put.h b/src/estd/internal/locale/num_put.h
index 37ecf0b..ba7369a 100644
--- a/src/estd/internal/locale/num_put.h
+++ b/src/estd/internal/locale/num_put.h
@@ -154,12 +154,7 @@ private:
             width -= result_width;
 
             const ios_base::fmtflags adj = str.flags() & ios_base::adjustfield;
-            if(adj == ios_base::right)
-            {
-                out = fill_n(out, width, fill);
-                return copy(result.ptr, buffer + N, out);
-            }
-            else if(adj == ios_base::left)
+            if(adj == ios_base::left)
             {
                 out = copy(result.ptr, buffer + N, out);
                 return fill_n(out, width, fill);
@@ -167,7 +162,8 @@ private:
             else
             {
                 // DEBT: 'internal' flavor, needs work
-                return out;
+                out = fill_n(out, width, fill);
+                return copy(result.ptr, buffer + N, out);
             }
         }
         else
-- 
2.43.0


From ccfa35d5c423ccb39d984bfef34787cd14b0fb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:09 +0000
Subject: [PATCH 60/98] fix: istreambuf_iterator over an empty streambuf is at
 the end

---
 src/estd/internal/istreambuf_iterator.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/estd/internal/istreambuf_iterator.h b/src/estd/internal/istreambuf_iterator.h
index 81f5065..a3e3f68 100644
--- a/src/estd/internal/istreambuf_iterator.h
+++ b/src/estd/internal/istreambuf_iterator.h
@@ -42,6 +42,13 @@ private:
     //bool end() const { return rdbuf_->in_avail() == -1; }
     ESTD_CPP_CONSTEXPR_RET bool end() const { return rdbuf_ == NULLPTR; }
 
+    // A streambuf with nothing at all to offer makes this an 'end' iterator right away
+    void check_eof()
+    {
+        if(rdbuf_ && rdbuf_->sgetc() == traits_type::eof() && rdbuf_->in_avail() == -1)
+            rdbuf_ = NULLPTR;
+    }
+
 
     // https://en.cppreference.com/w/cpp/iterator/istreambuf_iterator/equal
     // [2] Tells suggests that only validity of the streambufs are of interest here
@@ -67,17 +74,20 @@ public:
 
     istreambuf_iterator(streambuf_type& s) : rdbuf_(&s)
     {
+        check_eof();
     }
 
     template <class TIstreamBase>
     istreambuf_iterator(estd::detail::basic_istream<TStreambuf, TIstreamBase>& is) :
         rdbuf_(is.rdbuf())
     {
+        check_eof();
     }
 
     istreambuf_iterator(streambuf_type* s) :
         rdbuf_(s)
     {
+        check_eof();
     }
 
 #ifdef FEATURE_CPP_DEFAULT_CTOR
-- 
2.43.0


From c06dceed0d45edd8562c34becf1c385555906857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:22 +0000
Subject: [PATCH 61/98] fix: array::back gives the last element

---
 src/estd/internal/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/array.h b/src/estd/internal/array.h
index ac95c54..fe3967f 100644
--- a/src/estd/internal/array.h
+++ b/src/estd/internal/array.h
@@ -151,8 +151,8 @@ struct array : Impl
     reference front() { return *begin(); }
     constexpr const_reference front() const { return *begin(); }
 
-    reference back() { return *base_type::end(); }
-    constexpr const_reference back() const { return *base_type::end(); }
+    reference back() { return *(end() - 1); }
+    constexpr const_reference back() const { return *(end() - 1); }
 
     reference operator[](size_type pos) { return *base_type::get_at(pos); }
     constexpr const_reference operator[](size_type pos) const
-- 
2.43.0


From fb9c91a71db7bee17e210c0dd9811522228167ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:45 +0000
Subject: [PATCH 62/98] fix: array elements without an initializer are value
 initialized

---
 src/estd/internal/array.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/array.h b/src/estd/internal/array.h
index fe3967f..2dae732 100644
--- a/src/estd/internal/array.h
+++ b/src/estd/internal/array.h
@@ -99,7 +99,9 @@ protected:
     constexpr traditional_array() = default;
 
 #ifdef __cpp_initializer_lists
-    inline ESTD_CPP_CONSTEXPR(17) traditional_array(::std::initializer_list<value_type> init)
+    // elements without an initializer are value initialized
+    inline ESTD_CPP_CONSTEXPR(17) traditional_array(::std::initializer_list<value_type> init) :
+        data_{}
     {
         estd::copy(init.begin(), init.end(), data());
     }
-- 
2.43.0


From eba25da83c2c068824cadee42b68e9281d70f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:22 +0000
Subject: [PATCH 63/98] fix: subspan to the end stops at the end

---
 src/estd/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/span.h b/src/estd/span.h
index 83fe184..697de4f 100644
--- a/src/estd/span.h
+++ b/src/estd/span.h
@@ -200,7 +200,7 @@ public:
 
     span<element_type> subspan(size_type offset, size_type count = detail::dynamic_extent())
     {
-        if(count == detail::dynamic_extent::value) count = base_type::size();
+        if(count == detail::dynamic_extent::value) count = base_type::size() - offset;
 
         pointer data = base_type::data();
 
-- 
2.43.0


From dec5ee74b6353392b47d3c8954cd74558ebd2056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:02 +0000
Subject: [PATCH 64/98] fix: estd::byte may alias the objects whose bytes it
 shows

---
 src/estd/internal/raw/cstddef.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/estd/internal/raw/cstddef.h b/src/estd/internal/raw/cstddef.h
index 98a716f..cf852fc 100644
--- a/src/estd/internal/raw/cstddef.h
+++ b/src/estd/internal/raw/cstddef.h
@@ -11,7 +11,13 @@
 namespace estd {
 
 #ifdef FEATURE_CPP_ENUM_CLASS
+#if defined(__GNUC__)
+// bytes are how other objects are looked at (i.e. span's as_bytes), and only std's own byte
+// is excluded from aliasing rules on its own
+enum class __attribute__((__may_alias__)) byte : unsigned char {};
+#else
 enum class byte : unsigned char {};
+#endif
 #else
 // non-member operator overloads want a full struct or enum
 struct byte
-- 
2.43.0


From 34496d17d4cc44b9430dce7f872e2b71991b31b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:14 +0000
Subject: [PATCH 65/98] fix: default constructed tuples value initialize their
 elements

---
 src/estd/internal/tuple/sparse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/tuple/sparse.h b/src/estd/internal/tuple/sparse.h
index 222a665..87ec32f 100644
--- a/src/estd/internal/tuple/sparse.h
+++ b/src/estd/internal/tuple/sparse.h
@@ -48,10 +48,10 @@ public:
 
     constexpr tuple_storage(tuple_storage&&) noexcept = default;
     constexpr tuple_storage(const tuple_storage&) = default;
-    constexpr tuple_storage() = default;
+    constexpr tuple_storage() : value() {}
 #else
     tuple_storage(const T& value) : value(value) {}
-    tuple_storage() {};
+    tuple_storage() : value() {};
 #endif
 };
 
-- 
2.43.0


From bc30ba1f0c7e1d7dd5e2f1a1b6b2a20d911915be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:22 +0000
Subject: [PATCH 66/98] fix: function copies a callable it does not own

---
 src/estd/functional.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index dc23f7e..1fd4d52 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -179,7 +179,8 @@ public:
         typedef typename base_type::template model<incoming_function_type> model_type;
         //allocator_traits::rebind_alloc<model_type>
         // FIX: Don't want to dynamically allocate memory quite this way
-        auto m = new model_type(std::move(t));
+        // lvalues are copied, they still belong to the caller
+        auto m = new model_type(incoming_function_type(std::forward<T>(t)));
         base_type::m = m;
     }
 
@@ -190,7 +191,7 @@ public:
     {
         typedef typename estd::decay<T>::type incoming_function_type;
         typedef typename base_type::template model<incoming_function_type> model_type;
-        auto m = new model_type(std::forward<T>(t));
+        auto m = new model_type(incoming_function_type(std::forward<T>(t)));
         base_type::m = m;
     }
 
@@ -231,7 +232,7 @@ public:
     function& operator=(F&& f)
     {
         reset();
-        new (this) function(std::move(f));
+        new (this) function(std::forward<F>(f));
         return *this;
     }
 
-- 
2.43.0


From 7b3dff3fddc9704843a5026bfe2f1973e474dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:38 +0000
Subject: [PATCH 67/98] fix: copies of a function own a model of their own

---
 src/estd/functional.h | 48 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index 1fd4d52..5ab0f0b 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -149,6 +149,34 @@ private:
     // Jumping through some hoops to avoid overhead of a virtual destructor.  On a plus note
     const deleter_type _deleter;
 
+    typedef model_base* (*cloner_type)(const model_base*);
+
+    template <class Model>
+    static model_base* clone(const model_base* c, estd::true_type)
+    {
+        return new Model(*static_cast<const Model*>(c));
+    }
+
+    // Move only callables have no copy
+    template <class Model>
+    static model_base* clone(const model_base*, estd::false_type)
+    {
+        return nullptr;
+    }
+
+    template <class F>
+    static model_base* cloner(const model_base* c)
+    {
+        typedef typename estd::decay_t<F> incoming_function_type;
+        typedef typename base_type::template model<incoming_function_type> model_type;
+
+        return clone<model_type>(c, estd::bool_constant<
+            estd::is_copy_constructible<incoming_function_type>::value>());
+    }
+
+    // Each function owns a model of its own, so a copy of a function needs a copy of the model
+    const cloner_type _cloner;
+
     void reset()
     {
         // DEBT: function_base does not check for nullptr before () is called
@@ -170,10 +198,12 @@ public:
         estd::enable_if_t<!estd::is_base_of<function_base_tag,
             estd::remove_cv_t<T>
             >::value, bool> = true> */
-    template <typename T>
+    template <typename T,
+        estd::enable_if_t<!estd::is_same<function, estd::decay_t<T> >::value, bool> = true>
     function(T&& t) :
         allocator_provider_type(TAllocator()),
-        _deleter{deleter<T>}
+        _deleter{deleter<T>},
+        _cloner{cloner<T>}
     {
         typedef typename estd::decay<T>::type incoming_function_type;
         typedef typename base_type::template model<incoming_function_type> model_type;
@@ -187,7 +217,8 @@ public:
     template <typename T>
     function(T&& t, TAllocator& allocator) :
         allocator_provider_type(allocator),
-        _deleter{deleter<T>}
+        _deleter{deleter<T>},
+        _cloner{cloner<T>}
     {
         typedef typename estd::decay<T>::type incoming_function_type;
         typedef typename base_type::template model<incoming_function_type> model_type;
@@ -210,13 +241,20 @@ public:
         auto h = allocator_traits::allocate(alloc, sizeof(model_type));
     } */
 
-    function(const function& other) = default;
+    function(const function& other) :
+        base_type(other.getm() == nullptr ? nullptr : other._cloner(other.getm())),
+        allocator_provider_type(other),
+        _deleter{other._deleter},
+        _cloner{other._cloner}
+    {
+    }
 
 #ifdef FEATURE_CPP_MOVESEMANTIC
     // FIX: SFINAE remove this when nullable == false
     function(function&& other) NOEXCEPT :
         allocator_provider_type(std::move(other)),
-        _deleter{other._deleter}
+        _deleter{other._deleter},
+        _cloner{other._cloner}
     {
         base_type::m = other.getm();
         other.clear();
-- 
2.43.0


From 009a1bf0d02eb4db6e25935d010770f02ca0fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:44 +0000
Subject: [PATCH 68/98] fix: function assignment survives self assignment and
 keeps its source

---
 src/estd/functional.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index 5ab0f0b..9d35fe4 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -269,8 +269,10 @@ public:
     template <typename F>
     function& operator=(F&& f)
     {
+        // made ahead of the reset, since what is assigned may depend on this very function
+        function temp(std::forward<F>(f));
         reset();
-        new (this) function(std::forward<F>(f));
+        new (this) function(std::move(temp));
         return *this;
     }
 
@@ -280,6 +282,14 @@ public:
         return inline_function<F, TResult(TArgs...)>(std::move(f));
     }
 
+    function& operator=(const function& other)
+    {
+        function temp(other);
+        reset();
+        new (this) function(std::move(temp));
+        return *this;
+    }
+
     explicit operator bool() const noexcept
     {
         return nullable ? base_type::m != nullptr : true;
-- 
2.43.0


From 838e42decedec24a38262084b17fcc8179ea54a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:56 +0000
Subject: [PATCH 69/98] fix: copied inline functions call their own model

---
 src/estd/functional.h          | 14 ++++++++++----
 src/estd/internal/functional.h |  7 +++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index 9d35fe4..3e4fe8f 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -336,14 +336,20 @@ public:
 
     }
 
-    /*
-    inline_function(const inline_function& copy_from) = default;
+    // base refers to our own model, not to the one we're copied from
+    inline_function(const inline_function& copy_from) :
+        base_type(&m),
+        m(copy_from.m)
+    {
+
+    }
+
     inline_function(inline_function&& move_from) :
-        base_type(std::move(move_from)),
+        base_type(&m),
         m(std::move(move_from.m))
     {
 
-    } */
+    }
 };
 
 template <class TFunc, typename F>
diff --git a/src/estd/internal/functional.h b/src/estd/internal/functional.h
index 33d274e..20e0999 100644
--- a/src/estd/internal/functional.h
+++ b/src/estd/internal/functional.h
@@ -312,6 +312,13 @@ public:
     {
     }
 
+    // base refers to our own model, not to the one we're copied from
+    constexpr thisify_function(const thisify_function& copy_from) :
+        base_type(&m_),
+        m_(copy_from.m_)
+    {
+    }
+
     // UNUSED, and you're probably better off using inline_function
     template <class T, function_type<T> f>
     static thisify_function create(T* foreign_this)
-- 
2.43.0


From 8bede382b58f39b18a96158e67d687ece361e591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:11 +0000
Subject: [PATCH 70/98] fix: cref refers to a constant

---
 src/estd/functional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index 3e4fe8f..f478d1a 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -82,9 +82,9 @@ reference_wrapper<T> ref(T& t) NOEXCEPT
 }
 
 template <class T>
-reference_wrapper<T> cref(const T& t) NOEXCEPT
+reference_wrapper<const T> cref(const T& t) NOEXCEPT
 {
-    return reference_wrapper<T>(t);
+    return reference_wrapper<const T>(t);
 }
 
 #if defined (FEATURE_CPP_VARIADIC) && defined (FEATURE_CPP_MOVESEMANTIC)
-- 
2.43.0


From c82ac636f8e47860c850daed89a7b9f06edd26de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:26 +0000
Subject: [PATCH 71/98] fix: unique_lock unlocks what it owns

---
 src/estd/mutex.h | 46 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/estd/mutex.h b/src/estd/mutex.h
index bc1be48..e32ca18 100644
--- a/src/estd/mutex.h
+++ b/src/estd/mutex.h
@@ -50,6 +50,13 @@ class unique_lock : protected TBase
 {
     typedef TBase base_type;
 
+    // whether it's up to us to unlock
+    bool owns_;
+
+    // two owners would unlock twice
+    unique_lock(const unique_lock&);
+    unique_lock& operator=(const unique_lock&);
+
 public:
     typedef TMutex mutex_type;
 
@@ -59,43 +66,60 @@ public:
     {
         mutex_type* temp = mutex();
         base_type::value(NULLPTR);
+        owns_ = false;
         return temp;
     }
 
-    void lock() { mutex()->lock(); }
+    bool owns_lock() const { return owns_; }
+
+    void lock()
+    {
+        mutex()->lock();
+        owns_ = true;
+    }
 
-    void unlock() { mutex()->unlock(); }
+    void unlock()
+    {
+        mutex()->unlock();
+        owns_ = false;
+    }
 
 #ifdef FEATURE_ESTD_CHRONO2
     template< class Rep, class Period >
     bool try_lock_for( const estd::chrono::duration<Rep,Period>& timeout_duration )
     {
-        return mutex()->try_lock_for(timeout_duration);
+        return owns_ = mutex()->try_lock_for(timeout_duration);
     }
 #endif
 
-    unique_lock() : base_type(NULLPTR) {}
+    unique_lock() : base_type(NULLPTR), owns_(false) {}
 
-    explicit unique_lock(mutex_type& m) : base_type(&m)
+    explicit unique_lock(mutex_type& m) : base_type(&m), owns_(false)
     {
         m.lock();
+        owns_ = true;
     }
 
-    unique_lock(mutex_type& m, defer_lock_t) : base_type(&m) {}
-    unique_lock(mutex_type& m, adopt_lock_t) : base_type(&m) {}
+    unique_lock(mutex_type& m, defer_lock_t) : base_type(&m), owns_(false) {}
+    unique_lock(mutex_type& m, adopt_lock_t) : base_type(&m), owns_(true) {}
+
+    unique_lock( mutex_type& m, try_to_lock_t) : base_type(&m),
+        owns_(m.try_lock())
+    {
+    }
 
-    unique_lock( mutex_type& m, try_to_lock_t) : base_type(&m)
+    ~unique_lock()
     {
-        m.try_lock();
+        if(owns_) mutex()->unlock();
     }
 
 #ifdef FEATURE_ESTD_CHRONO2
     template< class Rep, class Period >
     unique_lock( mutex_type& m, 
              const estd::chrono::duration<Rep,Period>& timeout_duration ) :
-            base_type(&m)
+            base_type(&m),
+            owns_(m.try_lock_for(timeout_duration))
     {
-        m.try_lock_for(timeout_duration);
     }
 #endif
 };
-- 
2.43.0


From d8a0b8ca56b284d86851ea71bde94f6cfdcfe81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:16 +0000
Subject: [PATCH 72/98] fix: byteswap of every integer size

---
 src/estd/bit.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/estd/bit.h b/src/estd/bit.h
index a432108..6e8e3db 100644
--- a/src/estd/bit.h
+++ b/src/estd/bit.h
@@ -89,10 +89,30 @@ byteswap(uint64_t n) noexcept
 #endif // not xor (gcc)
 }
 
+namespace detail {
+
+constexpr uint8_t byteswap(uint8_t n) noexcept
+{
+    return n;
+}
+
+// Selects by size, since integer promotion lands narrow types on a swap wider than they are
+template <unsigned size> struct byteswap_type;
+template <> struct byteswap_type<1> { typedef uint8_t type; };
+template <> struct byteswap_type<2> { typedef uint16_t type; };
+template <> struct byteswap_type<4> { typedef uint32_t type; };
+template <> struct byteswap_type<8> { typedef uint64_t type; };
+
+}
+
 // Since spec indicates a templated function, we wrap up the specific ones
 // in detail.  This is better than specializing, since that can lead to linker ambiguities
 template <class T>
-constexpr T byteswap(T n) noexcept { return detail::byteswap(n); }
+constexpr T byteswap(T n) noexcept
+{
+    return static_cast<T>(detail::byteswap(
+        static_cast<typename detail::byteswap_type<sizeof(T)>::type>(n)));
+}
 
 }
 
-- 
2.43.0


From 9cfe437f877e742aa5e34287e2c2517339278fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:58 +0000
Subject: [PATCH 73/98] fix: flags can be accumulated, whatever the size of the
 enum

---
 src/estd/flags.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/estd/flags.h b/src/estd/flags.h
index 5234911..5a6db62 100644
--- a/src/estd/flags.h
+++ b/src/estd/flags.h
@@ -36,7 +36,7 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) flags& operator|=(const flags& v)
     {
-        value_ |= v;
+        value_ = value_type(int_type(value_) | int_type(v.value_));
         return *this;
     }
 
@@ -50,22 +50,22 @@ public:
 
     constexpr flags operator~() const
     {
-        return flags(~int_type(value_));
+        return flags(int_type(~int_type(value_)));
     }
 
     constexpr flags operator ^(const value_type& v) const
     {
-        return flags{int_type(v) ^ int_type(value_)};
+        return flags(int_type(int_type(v) ^ int_type(value_)));
     }
 
     constexpr flags operator |(const value_type& v) const
     {
-        return flags{int_type(v) | int_type(value_)};
+        return flags(int_type(int_type(v) | int_type(value_)));
     }
 
     constexpr flags operator &(const value_type& v) const
     {
-        return flags{int_type(v) & int_type(value_)};
+        return flags(int_type(int_type(v) & int_type(value_)));
     }
 };
 
-- 
2.43.0


From 4622aea61d2a35b51aa1a7cdc729d07282fa103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:11 +0000
Subject: [PATCH 74/98] fix: ostreambuf_iterator reports the writes that failed

---
 src/estd/iterator.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/estd/iterator.h b/src/estd/iterator.h
index fcac627..4aa6653 100644
--- a/src/estd/iterator.h
+++ b/src/estd/iterator.h
@@ -86,14 +86,16 @@ public:
     }
 
     ostreambuf_iterator(streambuf_type* rdbuf) :
-        rdbuf(rdbuf)
+        rdbuf(rdbuf),
+        last_written(traits_type::to_int_type(char_type()))
     {
 
     }
 
     template <class TBase>
     ostreambuf_iterator(estd::detail::basic_ostream<TStreambuf, TBase>& stream) :
-        rdbuf(stream.rdbuf())
+        rdbuf(stream.rdbuf()),
+        last_written(traits_type::to_int_type(char_type()))
     {
 
     }
@@ -113,7 +115,7 @@ public:
     }
 
     // postfix version
-    ostreambuf_iterator operator++(int)
+    ostreambuf_iterator& operator++(int)
     {
         return *this;
     }
@@ -121,7 +123,7 @@ public:
 
     bool failed() const
     {
-        return last_written != traits_type::eof();
+        return last_written == traits_type::eof();
     }
 };
 
-- 
2.43.0


From 8c1fbe8a62fb05dd84791bfd0e3a6be16596bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:12 +0000
Subject: [PATCH 75/98] fix: invoke is not ambiguous with its result type
 helper

---
 src/estd/internal/invoke.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/invoke.h b/src/estd/internal/invoke.h
index 13b196f..dd9958c 100644
--- a/src/estd/internal/invoke.h
+++ b/src/estd/internal/invoke.h
@@ -16,7 +16,7 @@ template <class T>
 constexpr bool is_reference_wrapper_v = is_reference_wrapper<T>::value;
 
 template <class T, class Type, class T1, class... Args>
-decltype(auto) INVOKE(Type T::* f, T1&& t1, Args&&... args)
+decltype(auto) invoke_dispatch(Type T::* f, T1&& t1, Args&&... args)
 {
     if constexpr (std::is_member_function_pointer_v<decltype(f)>) {
         if constexpr (estd::is_base_of_v<T, std::decay_t<T1>>)
@@ -38,7 +38,7 @@ decltype(auto) INVOKE(Type T::* f, T1&& t1, Args&&... args)
 }
 
 template <class F, class... Args>
-decltype(auto) INVOKE(F&& f, Args&&... args)
+decltype(auto) invoke_dispatch(F&& f, Args&&... args)
 {
       return std::forward<F>(f)(std::forward<Args>(args)...);
 }
@@ -49,7 +49,7 @@ template< class F, class... Args>
 estd::invoke_result_t<F, Args...> invoke(F&& f, Args&&... args)
   noexcept(std::is_nothrow_invocable_v<F, Args...>)
 {
-    return detail::INVOKE(std::forward<F>(f), std::forward<Args>(args)...);
+    return detail::invoke_dispatch(std::forward<F>(f), std::forward<Args>(args)...);
 }
 
 
-- 
2.43.0


From e5bd7c4ab15b54631ad618c33eac1ef6788bf71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:20 +0000
Subject: [PATCH 76/98] fix: isspace knows all six white space characters

---
 src/estd/cctype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/cctype.h b/src/estd/cctype.h
index 212a26a..0cb4b37 100644
--- a/src/estd/cctype.h
+++ b/src/estd/cctype.h
@@ -23,7 +23,7 @@ inline int isalpha(int ch)
 
 inline int isspace(int ch)
 {
-    return internal::ascii_isspace(ch);
+    return ch == ' ' || ('\t' <= ch && ch <= '\r');
 }
 
 inline int isdigit(int ch)
-- 
2.43.0


From 63ebd2441ebf31d355acff2290d060e5764cf29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:33 +0000
Subject: [PATCH 77/98] fix: octal digits of 16 and 64 bit integers are counted
 in full

---
 src/estd/internal/limits/traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/limits/traits.h b/src/estd/internal/limits/traits.h
index 4153773..28c4591 100644
--- a/src/estd/internal/limits/traits.h
+++ b/src/estd/internal/limits/traits.h
@@ -35,7 +35,7 @@ struct uint_strlen<16, bits> :
 // DEBT: calculation approximate, higher the bitcount the more wasted space
 template <unsigned bits>
 struct uint_strlen<8, bits> :
-    estd::integral_constant<unsigned, (bits + 1) / 3> {};
+    estd::integral_constant<unsigned, (bits + 2) / 3> {};
 
 // Not the same as boost's version
 template <class T, bool is_signed_>
-- 
2.43.0


From 5b3ebd5f51ab81031013a83a46590640111f6ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:53 +0000
Subject: [PATCH 78/98] fix: dynamic containers construct and destroy elements
 with stateless allocators too

---
 src/estd/internal/impl/handle_desc.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/impl/handle_desc.h b/src/estd/internal/impl/handle_desc.h
index a31f7c7..1592069 100644
--- a/src/estd/internal/impl/handle_desc.h
+++ b/src/estd/internal/impl/handle_desc.h
@@ -231,7 +231,7 @@ public:
     template <class ...TArgs>
     void construct(size_type pos, TArgs&&...args)
     {
-        allocator_type& a = base_t::get_allocator();
+        typename base_t::allocator_ref a = base_t::get_allocator();
         allocator_traits::construct(a, &lock(pos, 1), std::forward<TArgs>(args)...);
         unlock();
     }
@@ -239,23 +239,30 @@ public:
 
     void destroy(size_type pos)
     {
-        allocator_type& a = base_t::get_allocator();
+        typename base_t::allocator_ref a = base_t::get_allocator();
         allocator_traits::destroy(a, &lock(pos, 1));
         unlock();
     }
 
     ESTD_CPP_CONSTEXPR(14) void copy_into(const value_type* source, size_type pos, size_type len)
     {
+        typename base_t::allocator_ref a = base_t::get_allocator();
+
         contiguous_base::copy_into(
-                base_t::get_allocator(),
+                a,
                 handle_base_t::handle(),
                 source, pos, len);
     }
 
     bool reallocate(size_type size)
     {
-        handle_base_t::handle(base_t::get_allocator().reallocate(handle_base_t::handle(), size));
-        return handle_base_t::handle() != allocator_traits::invalid();
+        const handle_type h = base_t::get_allocator().reallocate(handle_base_t::handle(), size);
+
+        // As with realloc, a failure leaves the original allocation in place
+        if(h == allocator_traits::invalid()) return false;
+
+        handle_base_t::handle(h);
+        return true;
     }
 
     bool is_allocated() const
-- 
2.43.0


From ed1958f245bbef17ed49e5d3bbf5c243dfc10311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:53 +0000
Subject: [PATCH 79/98] fix: a failed allocation leaves a dynamic container as
 it was

---
 src/estd/allocators/handle_desc.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/estd/allocators/handle_desc.h b/src/estd/allocators/handle_desc.h
index 792866d..363fad0 100644
--- a/src/estd/allocators/handle_desc.h
+++ b/src/estd/allocators/handle_desc.h
@@ -74,14 +74,18 @@ public:
 
     bool allocate(size_type size)   // NOLINT
     {
+        if(!base_type::allocate(size)) return false;
+
         m_size = size;
-        return base_type::allocate(size);
+        return true;
     }
 
     bool reallocate(size_type size) // NOLINT
     {
+        if(!base_type::reallocate(size)) return false;
+
         m_size = size;
-        return base_type::reallocate(size);
+        return true;
     }
 };
 
-- 
2.43.0


From 31ac310cf99e2398b0245a8be1614258e36c370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:58 +0000
Subject: [PATCH 80/98] fix: dynamic_array assign from a pair of iterators
 compiles

---
 src/estd/internal/container/specializer.h | 2 +-
 src/estd/internal/dynamic_array.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 4f659a8..915397c 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -111,7 +111,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
 
     // copies into da from first to last
     template <class InputIt>
-    void copy_from(array& da, unsigned pos, InputIt first, InputIt last)
+    static void copy_from(array& da, unsigned pos, InputIt first, InputIt last)
     {
         pointer raw = da.lock(pos);
 
diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 1748cb3..a8b350a 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -406,7 +406,7 @@ public:
     {
         ensure_total_size(last - first, 0, true);
 
-        helper::copy(*this, 0, first, last);
+        helper::copy_from(*this, 0, first, last);
     }
 
 //protected:
-- 
2.43.0


From a02e979b33f44f5f104a6010d7562faf61778c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:09 +0000
Subject: [PATCH 81/98] fix: reserve only grows and shrink_to_fit leaves fixed
 containers alone

---
 src/estd/internal/dynamic_array.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index a8b350a..e1554ee 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -395,6 +395,9 @@ public:
     // NOTE: This is kind of a lie, because reallocate will call abort() for fixed allocators
     ESTD_CPP_CONSTEXPR(14) bool reserve(size_type new_cap)
     {
+        // Only ever grows.  Use shrink_to_fit to give room back
+        if(new_cap <= capacity()) return true;
+
         if(!impl().is_allocated())
             return impl().allocate(new_cap);
         else
@@ -709,7 +712,12 @@ public:
 
     void shrink_to_fit()
     {
-        reserve(size());
+        // Fixed allocators have no room to give back
+        if(impl_type::is_always_allocated()) return;
+
+        const size_type needed = size() + (impl_type::uses_termination() ? 1 : 0);
+
+        if(needed != 0 && needed < capacity()) impl().reallocate(needed);
     }
 };
 
-- 
2.43.0


From 96d0522354d1b111e93b2da08983d5de6e08a909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:16 +0000
Subject: [PATCH 82/98] fix: push_back and insert accept a value from within
 the container itself

---
 src/estd/internal/dynamic_array.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index e1554ee..44f4e35 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -327,6 +327,8 @@ protected:
         // NOTE: may not be very efficient (underlying allocator may need to realloc/copy etc.
         // so later consider doing the insert operation at that level)
         const size_type sz = impl().size();
+        // Value may well be one of our own, which are about to move
+        const value_type value(*to_insert_value);
         ensure_total_size(sz + 1);
 
         pointer data = lock();
@@ -335,7 +337,7 @@ protected:
         // to_insert_pos to to_insert_pos + 1
         copy_assist(data + to_insert_pos, data + sz, data + sz + 1);
 
-        new (data + to_insert_pos) value_type(*to_insert_value);
+        new (data + to_insert_pos) value_type(value);
 
         unlock();
     }
@@ -607,7 +609,10 @@ public:
 
     append_result push_back(const value_type& value)
     {
-        return append(&value, 1);
+        // Value may well be one of our own, which growing moves
+        const value_type v(value);
+
+        return append(&v, 1);
     }
 
 #ifdef __cpp_rvalue_references
-- 
2.43.0


From d6005b99f97956fa6ce8323f442c73dd60c51e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:16 +0000
Subject: [PATCH 83/98] fix: insert returns an iterator into the container as
 it is after growing

---
 src/estd/internal/dynamic_array.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 44f4e35..0b16229 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -692,17 +692,22 @@ public:
     // const_iterator here
     iterator insert(iterator pos, const_reference value)
     {
-        raw_insert(pos - cbegin(), &value);
+        const size_type index = pos - cbegin();
 
-        return pos;
+        raw_insert(index, &value);
+
+        // Growing may have moved everything, pos included
+        return base_type::create_iterator(index);
     }
 
 #if __cpp_rvalue_references
     iterator insert(iterator pos, value_type&& value)
     {
-        raw_insert(pos - cbegin(), std::move(value));
+        const size_type index = pos - cbegin();
+
+        raw_insert(index, std::move(value));
 
-        return pos;
+        return base_type::create_iterator(index);
     }
 #endif
 
@@ -710,9 +715,11 @@ public:
     template <class InputIt>
     iterator insert(const_iterator pos, InputIt first, InputIt last)
     {
-        raw_insert(pos - cbegin(), first, last);
+        const size_type index = pos - cbegin();
+
+        raw_insert(index, first, last);
 
-        return pos;
+        return base_type::create_iterator(index);
     }
 
     void shrink_to_fit()
-- 
2.43.0


From c6350f8b92dd5eafb70437abbb5630707142f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:33 +0000
Subject: [PATCH 84/98] fix: negative fractions of units between -1 and 0 print
 their sign

---
 src/estd/internal/units/ostream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/units/ostream.h b/src/estd/internal/units/ostream.h
index 2fdf30e..daa95ad 100644
--- a/src/estd/internal/units/ostream.h
+++ b/src/estd/internal/units/ostream.h
@@ -20,7 +20,10 @@ estd::detail::basic_ostream<TStreambuf, TBase>& operator <<(
     if(v_dec < 0)   v_dec = -v_dec;
 
     // DEBT: I think ostream is supposed to auto reset to dec, but isn't
-    out << estd::dec << v_;
+    out << estd::dec;
+    // Whole part of 0 has no sign of its own
+    if(v < 0 && v_ == 0 && v_dec != 0) out << '-';
+    out << v_;
     out << '.';
     if(v_dec < 10) out << '0';
     out << v_dec;
-- 
2.43.0


From d31c356e97ab176b37a62b3ecf3f5eb8db2f29f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:35 +0000
Subject: [PATCH 85/98] fix: giga units have a name for every kind of unit

---
 src/estd/internal/units/si.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/units/si.h b/src/estd/internal/units/si.h
index 0dcdd30..a3c31ca 100644
--- a/src/estd/internal/units/si.h
+++ b/src/estd/internal/units/si.h
@@ -36,8 +36,8 @@ struct traits<estd::mega, Tag>
     static constexpr const char* abbrev() { return "M"; }
 };
 
-template <>
-struct traits<estd::giga>
+template <class Tag>
+struct traits<estd::giga, Tag>
 {
     static constexpr const char* name() { return "giga"; }
     static constexpr const char* abbrev() { return "G"; }
-- 
2.43.0


From a5d5f669f8e5c1c6c29980c3f99014c977ee2a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:38 +0000
Subject: [PATCH 86/98] fix: back_insert_iterator assignment returns the
 iterator

---
 src/estd/internal/iterator/back_insert.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estd/internal/iterator/back_insert.h b/src/estd/internal/iterator/back_insert.h
index 4b7cf1c..05b6574 100644
--- a/src/estd/internal/iterator/back_insert.h
+++ b/src/estd/internal/iterator/back_insert.h
@@ -23,6 +23,7 @@ public:
     back_insert_iterator& operator=(const cvalue_type& value)
     {
         container->push_back(value);
+        return *this;
     }
 };
 
-- 
2.43.0


From 266490a478e342e12241d61ba37372bfdf9e65ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:05 +0000
Subject: [PATCH 87/98] fix: ostream_iterator can be incremented in front

---
 src/estd/internal/ostream_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/ostream_iterator.h b/src/estd/internal/ostream_iterator.h
index 7dd845e..a92da7e 100644
--- a/src/estd/internal/ostream_iterator.h
+++ b/src/estd/internal/ostream_iterator.h
@@ -27,7 +27,7 @@ public:
         return *this;
     }
 
-    constexpr ostream_iterator& operator++() const { return *this; }
+    constexpr const ostream_iterator& operator++() const { return *this; }
     constexpr ostream_iterator operator++(int) const { return *this; }  // NOLINT
     constexpr ostream_iterator operator*() const { return *this; }
 };
-- 
2.43.0


From 5b2f1fb1d94903e0d8452e6772d8874bcb2f6565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:19 +0000
Subject: [PATCH 88/98] fix: ostreambuf_iterator stays failed and stops writing

---
 src/estd/iterator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/iterator.h b/src/estd/iterator.h
index 4aa6653..e71caf3 100644
--- a/src/estd/iterator.h
+++ b/src/estd/iterator.h
@@ -102,7 +102,8 @@ public:
 
     ostreambuf_iterator& operator=(char_type c)
     {
-        if(rdbuf)
+        // As per spec, once failed no further writes are attempted
+        if(rdbuf && !failed())
             last_written = rdbuf->sputc(c);
 
         return *this;
-- 
2.43.0


From d2d2f8b4c6e57038189d79cda4319195406e6737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:28 +0000
Subject: [PATCH 89/98] fix: memory_pool counts its free slots along the free
 list

---
 src/estd/exp/memory/memory_pool2.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index d2a6d4c..385f2ee 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -90,7 +90,7 @@ public:
         std::size_t count = 0;
 
         // TODO: Make a estd::accumulate
-        for(; i != items.end(); ++i, ++count);
+        for(; i != items.end(); i = i->next, ++count);
 
         return count;
     }
@@ -100,7 +100,9 @@ public:
     // the pool range
     bool within_range(value_type* value)
     {
-        return value >= items.begin() && value < items.end();
+        const item* i = reinterpret_cast<const item*>(value);
+
+        return i >= items.begin() && i < items.end();
     }
 };
 
-- 
2.43.0


From aa129a4796697fbf403511d5b99d5bdd34a023cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:31 +0000
Subject: [PATCH 90/98] fix: virtual_memory hands out whole chunks safely, and
 none without a handle

---
 src/estd/exp/memory/memory_pool2.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index 385f2ee..962dcbb 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -207,7 +207,11 @@ struct virtual_memory
     handle_index allocate(size_type size)
     {
         item* i = free_head,
-            *prev;
+            *prev = NULLPTR;
+        handle_index hi;
+        handle* h = get_free_handle(hi);
+
+        if(h == NULLPTR) return -1;
 
         // TODO: coerce size to be aligned so that allocations and frees also have aligned size
 
@@ -217,20 +221,22 @@ struct virtual_memory
 
         while(i != NULLPTR)
         {
-            handle_index hi;
-            if(i->chunk_size == size)
+            // What remains of a chunk must still be able to track itself.  If it can't,
+            // give out all of it
+            if(i->chunk_size >= size && i->chunk_size - size < sizeof(item))
             {
-                prev->next = i->next;
+                if(prev == NULLPTR)
+                    free_head = i->next;
+                else
+                    prev->next = i->next;
 
-                handle* h = get_free_handle(hi);
                 h->data = (pointer) i;
-                h->chunk_size = size;
+                h->chunk_size = i->chunk_size;
 
                 return hi;
             }
             else if(i->chunk_size > size)
             {
-                handle* h = get_free_handle(hi);
                 h->data = ((pointer) i) + (i->chunk_size - size);
                 h->chunk_size = size;
 
-- 
2.43.0


From 6413c5c31ae7bd2a26396afa9a7eb88bfeebd9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:34 +0000
Subject: [PATCH 91/98] fix: virtual_memory maintenance neither follows
 absorbed items nor allocated ones

---
 src/estd/exp/memory/memory_pool2.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index 962dcbb..3cceb42 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -204,6 +204,12 @@ struct virtual_memory
         return NULLPTR;
     }
 
+    // Free items which maintenance was about to evaluate may be gone
+    void maint_restart()
+    {
+        mode = maintenance_mode::uninitialized;
+    }
+
     handle_index allocate(size_type size)
     {
         item* i = free_head,
@@ -213,6 +219,8 @@ struct virtual_memory
 
         if(h == NULLPTR) return -1;
 
+        maint_restart();
+
         // TODO: coerce size to be aligned so that allocations and frees also have aligned size
 
         // minimum size is 'item' size so that fragments have enough space to track themselves
@@ -262,6 +270,8 @@ struct virtual_memory
 
         item* i = (item*)h.data;
 
+        maint_restart();
+
         i->chunk_size = h.chunk_size;
         i->next = free_head;
 
@@ -313,7 +323,7 @@ struct virtual_memory
         item* i = compact_state.evaluating;
         item* i_prev = compact_state.evaluating_prev;
 
-        if(i->next == NULLPTR) return false;
+        if(i == NULLPTR || i->next == NULLPTR) return false;
 
         // if next free node is positioned before this one
         if(i->next < i)
@@ -337,16 +347,16 @@ struct virtual_memory
             else
                 i_prev->next = i_physical_0;
 
+            // An absorbed item no longer exists
             if(maint_absorb(i_physical_0, i_physical_1))
-                i = i_physical_1;
+                i = i_physical_0;
         }
         else
         {
             item* i_physical_0 = i;
             item* i_physical_1 = i->next;
 
-            if(maint_absorb(i_physical_0, i_physical_1))
-                i = i_physical_1;
+            maint_absorb(i_physical_0, i_physical_1);
         }
 
         compact_state.evaluating_prev = i;
-- 
2.43.0


From 4be14bd2f5db7003e42454f8bea91b95004b53af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:23 +0000
Subject: [PATCH 92/98] fix: a shared_ptr out of a memory pool destroys what it
 manages

---
 src/estd/exp/memory/memory_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/exp/memory/memory_pool.h b/src/estd/exp/memory/memory_pool.h
index 4ee47ef..fbc77c2 100644
--- a/src/estd/exp/memory/memory_pool.h
+++ b/src/estd/exp/memory/memory_pool.h
@@ -76,6 +76,7 @@ struct memory_pool_item_traits<estd::layer1::shared_ptr<T, void>, TMemoryPool >
         ///
         void Deleter() OVERRIDE
         {
+            this->shared->~T();
             pool->destroy_internal(pool_item);
         }
 
@@ -105,9 +106,9 @@ struct memory_pool_item_traits<estd::layer1::shared_ptr<T, void>, TMemoryPool >
         // TODO: use allocator_traits
         //new (value) value_type([](TMemoryPool2& mp, T* d){});
         //new (value) value_type(deleter);
+        new (value) tracked_value_type();
         value->_value.pool = &pool;
         value->_value.pool_item = value;
-        new (value) tracked_value_type();
 
 #ifdef FEATURE_ESTD_EXP_AUTOCONSTRUCT
         value->construct(std::forward<TArgs>(args)...);
-- 
2.43.0


From f4755a16fad64d1a7d68779786214bd566671b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:05 +0000
Subject: [PATCH 93/98] fix: vector push_back and insert make elements beyond
 the end rather than assign to none

---
 src/estd/internal/dynamic_array.h | 65 +++++++++++++++++++++++++------
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 0b16229..d6b9615 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -197,7 +197,7 @@ protected:
     typename enable_if<is_move_assignable<T2>::value>::type
     move_assist(pointer first, pointer last, pointer d_last)
     {
-        move_backward(first, last, d_last);
+        estd::move_backward(first, last, d_last);
     }
 
 #if !FEATURE_ESTD_DYNAMIC_ARRAY_STRICT_ASSIGNMENT
@@ -209,7 +209,10 @@ protected:
     move_assist(pointer first, pointer last, pointer d_last)
     {
         while (first != last)
-            new (--d_last) T2(std::move(*--last));
+        {
+            (--d_last)->~T2();
+            new (d_last) T2(std::move(*--last));
+        }
     }
 #endif
 #endif
@@ -223,7 +226,7 @@ protected:
         >::type
     copy_assist(const_pointer first, const_pointer last, pointer d_last)
     {
-        copy_backward(first, last, d_last);
+        estd::copy_backward(first, last, d_last);
     }
 
 #if FEATURE_ESTD_DYNAMIC_ARRAY_MEMMOVE
@@ -246,7 +249,10 @@ protected:
     copy_assist(const_pointer first, const_pointer last, pointer d_last)
     {
         while (first != last)
-            new (--d_last) T2(*--last);
+        {
+            (--d_last)->~T2();
+            new (d_last) T2(*--last);
+        }
     }
 #endif
 
@@ -269,7 +275,7 @@ protected:
         !is_move_constructible<T2>::value>::type
     move_assist(pointer first, pointer last, pointer d_last)
     {
-        copy_backward(first, last, d_last);
+        estd::copy_backward(first, last, d_last);
     } */
 
 
@@ -290,7 +296,13 @@ protected:
 
         pointer data = lock();
 
-        move_assist(data + to_insert_pos, data + sz - 1, data + sz);
+        // Nothing lives beyond the end yet, so what moves there is made rather than assigned
+        if(to_insert_pos < sz - 1)
+        {
+            new (data + sz - 1) value_type(std::move(data[sz - 2]));
+            move_assist(data + to_insert_pos, data + sz - 2, data + sz - 1);
+            data[to_insert_pos].~value_type();
+        }
 
         // Placement new makes sense here since to_insert_pos is now considered
         // uninitialized/undefined
@@ -309,13 +321,26 @@ protected:
 
         pointer data = lock();
 
+        size_type unmoved = sz;
+
+        // Nothing lives beyond the end yet, so what moves there is made rather than assigned
+        while(unmoved > to_insert_pos && unmoved + input_sz > sz)
+        {
+            --unmoved;
+            new (data + unmoved + input_sz) value_type(std::move(data[unmoved]));
+        }
+
         // Backwards copy, effectively moving content over starting at
         // to_insert_pos to to_insert_pos + 1
         copy_assist(data + to_insert_pos,
-            data + sz,
-            data + sz + input_sz);
+            data + unmoved,
+            data + unmoved + input_sz);
 
-        estd::copy(first, last, data + to_insert_pos);
+        for(size_type i = to_insert_pos; first != last; ++first, ++i)
+        {
+            if(i < sz) data[i].~value_type();
+            new (data + i) value_type(*first);
+        }
 
         unlock();
         return true;
@@ -335,7 +360,13 @@ protected:
 
         // Backwards copy, effectively moving content over starting at
         // to_insert_pos to to_insert_pos + 1
-        copy_assist(data + to_insert_pos, data + sz, data + sz + 1);
+        // Nothing lives beyond the end yet, so what moves there is made rather than assigned
+        if(to_insert_pos < sz)
+        {
+            new (data + sz) value_type(std::move(data[sz - 1]));
+            copy_assist(data + to_insert_pos, data + sz - 1, data + sz);
+            data[to_insert_pos].~value_type();
+        }
 
         new (data + to_insert_pos) value_type(value);
 
@@ -610,9 +641,19 @@ public:
     append_result push_back(const value_type& value)
     {
         // Value may well be one of our own, which growing moves
-        const value_type v(value);
+        value_type v(value);
+        grow_result r = grow(1);
+
+#if FEATURE_ESTD_DYNAMIC_ARRAY_BOUNDS_CHECK
+        if(r.increased_by.has_value() == false) return append_result(unexpect_t(), 0);
+#endif
+
+        // Nothing lives at the end yet, so it is made rather than assigned
+        new (lock(r.starting_size)) value_type(std::move(v));
+
+        unlock();
 
-        return append(&v, 1);
+        return append_result(1);
     }
 
 #ifdef __cpp_rvalue_references
-- 
2.43.0


From 3252d05628cb680f9fb4c3bcdd116f00b4a9a757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:15 +0000
Subject: [PATCH 94/98] fix: vector erase, clear and resize end the elements
 they remove

---
 src/estd/internal/dynamic_array.h | 48 ++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index d6b9615..4a29b85 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -140,6 +140,51 @@ protected:
         return true;
     }
 
+    // Ends the life of elements from 'first' onwards
+    template <class T2 = value_type>
+    ESTD_CPP_CONSTEXPR(14) typename enable_if<is_trivial<T2>::value>::type
+    truncate(size_type) {}
+
+    template <class T2 = value_type>
+    typename enable_if<!is_trivial<T2>::value>::type
+    truncate(size_type first)
+    {
+        const size_type sz = size();
+
+        if(first >= sz) return;
+
+        pointer raw = lock();
+
+        for(; first < sz; ++first) raw[first].~T2();
+
+        unlock();
+    }
+
+    // Moves elements past 'index' one to the front, and ends the one which is left over
+    template <class T2 = value_type>
+    typename enable_if<is_trivial<T2>::value>::type
+    erase_one(size_type index) { _erase(index, 1); }
+
+    template <class T2 = value_type>
+    typename enable_if<!is_trivial<T2>::value>::type
+    erase_one(size_type index)
+    {
+        const size_type last = size() - 1;
+        pointer raw = lock();
+
+        for(; index < last; ++index)
+        {
+            raw[index].~T2();
+            new (raw + index) T2(std::move(raw[index + 1]));
+        }
+
+        raw[last].~T2();
+
+        unlock();
+
+        impl().size(last);
+    }
+
     // internal method for reassigning size, ensuring capacity is available
     ESTD_CPP_CONSTEXPR(14) bool ensure_total_size(size_type new_size, size_type pad = 0, bool shrink = false)
     {
@@ -415,6 +460,7 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) bool resize(size_type count)
     {
+        truncate(count);
         return ensure_total_size(count);
     }
 
@@ -695,7 +741,7 @@ public:
     iterator erase(const_iterator pos)
     {
         size_type index = pos - base_type::begin();
-        _erase(index, 1);
+        erase_one(index);
         // chances are iterator is a copy of incoming pos,
         // but we'll do this anyway
         return base_type::create_iterator(index);
-- 
2.43.0


From 64ab96e55f543ae6906cc2a6822f082b2998fe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:49 +0000
Subject: [PATCH 95/98] fix: deque renews the places it pops from and puts into

---
 src/estd/queue.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index d6b21b6..042a532 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -180,6 +180,14 @@ class deque : protected TPolicy
             return m_back - m_front;
     }
 
+    // Every place in m_array holds an object at all times.  This one's ends and a new one starts
+    template <class ...TArgs>
+    static T& renew(T& place, TArgs&&...args)
+    {
+        place.~T();
+        return *new (&place) T(std::forward<TArgs>(args)...);
+    }
+
     bool _full() const { return !m_empty && m_front == m_back; }
 
 public:
@@ -330,7 +338,7 @@ public:
     {
         if(empty()) return false;
 
-        back().~value_type();
+        renew(back());
 
         decrement(&m_back);
 
@@ -343,7 +351,7 @@ public:
     {
         if(empty()) return false;
 
-        front().~value_type();
+        renew(front());
 
         m_front++;
 
@@ -397,9 +405,7 @@ public:
     {
         decrement(&m_front);
 
-        value_type& retval = *m_front;
-
-        new (&retval) value_type(std::forward<TArgs>(args)...);
+        value_type& retval = renew(*m_front, std::forward<TArgs>(args)...);
 
         m_empty = false;
 
@@ -410,9 +416,7 @@ public:
     template <class ...TArgs>
     reference emplace_back(TArgs&&...args)
     {
-        value_type& retval = *m_back;
-
-        new (&retval) value_type(std::forward<TArgs>(args)...);
+        value_type& retval = renew(*m_back, std::forward<TArgs>(args)...);
 
         increment(&m_back, false);
 
@@ -425,9 +429,7 @@ public:
     {
         if(_full()) return false;
 
-        value_type& back = *m_back++;
-
-        new (&back) value_type(std::move(value));
+        renew(*m_back++, std::move(value));
 
         evaluate_rollover((const_array_iterator*)&m_back);
         m_empty = false;
-- 
2.43.0


From 64f7639bf3c14719c3376badf16ccdf3c9d76342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:13 +0000
Subject: [PATCH 96/98] fix: a list iterator minus a count does not call itself
 for good

---
 src/estd/iterators/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/iterators/list.h b/src/estd/iterators/list.h
index bd19e6c..653e30b 100644
--- a/src/estd/iterators/list.h
+++ b/src/estd/iterators/list.h
@@ -347,7 +347,7 @@ public:
     {
         ReverseIterator temp(*this);
 
-        return temp - subtrahend;
+        return temp -= subtrahend;
     }
 
     // untested
-- 
2.43.0


From de86a6d59ef7eb87ea94f8fcc316d033675f8864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:35 +0000
Subject: [PATCH 97/98] fix: unordered_map ends only elements there are, and
 assigns to those it has

---
 src/estd/internal/container/unordered_map.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index 403845c..8eee84e 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -181,7 +181,12 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) void clear()
     {
-        for(control_type& v : container_)   destruct(&v);
+        for(control_type& v : container_)
+        {
+            // an unused slot has no element to destruct
+            if(is_empty(v)) set_null(&v);
+            else            destruct(&v);
+        }
     }
 
     mapped_type& operator[](const key_type& key)
@@ -281,9 +286,9 @@ public:
         if(found.second != npos())
         {
             control_pointer cp = found.first;
-            mapped_type& p = cp->second.mapped();
-            new (&p) mapped_type(std::forward<M>(obj));
-            return { { this, cast(cp) }, true };
+            cp->second.mapped() = std::forward<M>(obj);
+            // "true if the insertion took place and false if the assignment took place"
+            return { { this, cast(cp) }, false };
         }
         else
         {
-- 
2.43.0


From aadb34bbfb69229accecb3c6dde657c6150b5392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:26 +0000
Subject: [PATCH 98/98] fix: unordered containers swap elements only while both
 are alive

---
 src/estd/internal/container/unordered/base.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index faab7a6..4fc288e 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -467,8 +467,6 @@ protected:
         auto last = pos;
         const size_type n = index(traits::key(*pos));
 
-        destruct(pos);
-
         // Find last one in bucket, looking past sparse entries
         for(++pos; pos != container_.cend(); ++pos)
         {
@@ -477,8 +475,11 @@ protected:
             last = pos;
         }
 
-        // Fill the gap, otherwise the rest of the bucket can't be reached
+        // Leave no gap, otherwise the rest of the bucket can't be reached.  Swap while both
+        // are still alive
         if(last != start) traits::swap(*last, *start);
+
+        destruct(last);
     }
 
 public:
-- 
2.43.0

