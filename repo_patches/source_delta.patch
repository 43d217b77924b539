From 03af865b2b80179db3223064b045261399dccee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:11 +0000
Subject: [PATCH 1/5] fix: transform() called std::terminate when the given
 function threw

If the result of the function can be put into the optional without throwing, transform()
assumed that invoking the function itself cannot throw either. Thus, an exception thrown by the
function hit a noexcept specification. The exception needs to be propagated to the caller, as
for std::optional.
---
 include/tiny/optional.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 7b5a9b6..75549cd 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -1082,7 +1082,8 @@ namespace impl
 
     template <class FuncT, class ArgT>
     void ConstructPayloadFromFunction(FuncT && func, ArgT && arg) noexcept(
-        std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
+        std::is_nothrow_invocable_v<FuncT, ArgT>
+        && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
     {
       assert(!has_value());
       FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
@@ -1091,8 +1092,10 @@ namespace impl
       // the warning.
       // NOLINTBEGIN(clang-analyzer-core.uninitialized.Assign)
 
-      // In analogy to ConstructPayload().
-      if constexpr (std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
+      // In analogy to ConstructPayload(). But here the user supplied function itself might throw, too.
+      if constexpr (
+          std::is_nothrow_invocable_v<FuncT, ArgT>
+          && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
         ::new (const_cast<void *>(static_cast<void volatile const *>(std::addressof(GetPayload()))))
             PayloadType(std::invoke(std::forward<FuncT>(func), std::forward<ArgT>(arg)));
       }
-- 
2.43.0


From a055107793e5c141f4affea16c6e084780a5cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:11 +0000
Subject: [PATCH 2/5] fix: Unqualified swap() of tiny::optional selected the
 generic std::swap()

The swap() overload for TinyOptionalImpl is a worse match for tiny::optional than the generic
std::swap(). So the optionals were swapped via three moves, meaning that an exception thrown by
the payload could lose values and could change which of the optionals holds a value.
---
 include/tiny/optional.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 75549cd..f19957c 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2279,6 +2279,22 @@ template <class T>
 optional(T) -> optional<T, UseDefaultValue, UseDefaultValue>;
 
 
+// The overload of swap() for TinyOptionalImpl is a worse match for a tiny::optional than the generic std::swap() because
+// it requires a derived-to-base conversion. So an explicit overload is required to prevent the generic std::swap() (which
+// can lose values if some move operation throws) from getting selected by an unqualified call.
+template <
+    class PayloadType,
+    auto sentinelOrMemPtr,
+    auto irrelevantOrSentinel,
+    std::enable_if_t<std::is_move_constructible_v<PayloadType> && std::is_swappable_v<PayloadType>, int> = 0>
+void swap(
+    optional<PayloadType, sentinelOrMemPtr, irrelevantOrSentinel> & lhs,
+    optional<PayloadType, sentinelOrMemPtr, irrelevantOrSentinel> & rhs) noexcept(noexcept(lhs.swap(rhs)))
+{
+  lhs.swap(rhs);
+}
+
+
 template <class PayloadType, auto sentinelOrMemPtr = UseDefaultValue, auto irrelevantOrSentinel = UseDefaultValue>
 [[nodiscard]] optional<std::decay_t<PayloadType>, sentinelOrMemPtr, irrelevantOrSentinel> make_optional(
     PayloadType && v)
-- 
2.43.0


From 1f7692696f411da20e540a83a3df84a84150f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:11 +0000
Subject: [PATCH 3/5] fix: Destructor of an empty optional did not destroy the
 IsEmpty-flag

As documented, the flag object created by init_empty_flag() is destroyed by
invalidate_empty_flag(). But this was never called if an optional got destroyed while being
empty, so that e.g. resources held by the flag of a custom flag manipulator leaked.
---
 include/tiny/optional.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index f19957c..c5ce7e9 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -980,6 +980,10 @@ namespace impl
       if (has_value()) {
         DestroyPayload();
       }
+      else {
+        // Destroy the flag that was previously created by init_empty_flag().
+        FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
+      }
     }
 
     // The proper implemention of the following are defined in the derived classes.
-- 
2.43.0


From dc6f1c027e636f1527aa22ca227d50ab7f6c6405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:11 +0000
Subject: [PATCH 4/5] fix: IsEmpty-flag was not destroyed if the construction
 of the payload threw

If the construction of the payload failed in a constructor of the optional, the IsEmpty-flag
was initialized again, but nobody destroyed it because the optional's destructor is not called.
---
 include/tiny/optional.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index c5ce7e9..5e1c3b7 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -960,17 +960,18 @@ namespace impl
 
     template <class... ArgsT>
     explicit StorageBase(std::in_place_t, ArgsT &&... args)
+      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it. Moreover, due to the
+      // delegation, the destructor gets called (and cleans up the IsEmpty flag) if the payload's constructor throws.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayload(std::forward<ArgsT>(args)...);
     }
 
     template <class FuncT, class ArgT>
     StorageBase(DirectInitializationFromFunctionTag, FuncT && func, ArgT && arg)
+      // Compare the previous constructor.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayloadFromFunction(std::forward<FuncT>(func), std::forward<ArgT>(arg));
     }
 
-- 
2.43.0


From 1bc37d1ea84cd39e61615850080a50dd50b768d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:06 +0000
Subject: [PATCH 5/5] fix: std::optional <=> optional_sentinel_via_type treated
 the rhs as plain value on gcc

For gcc, the reversed operator<=> needs to be defined explicitly (CWG2445). This was done for
tiny::optional, but not for the other optional types of the library. Hence, the standard operator
that compares a std::optional with an arbitrary value got selected, so that e.g. an empty
std::optional was considered to be less than an empty optional_sentinel_via_type.
---
 include/tiny/optional.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 5e1c3b7..9505a96 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2748,6 +2748,17 @@ namespace impl
   {
     return (lhs && rhs) ? (*lhs <=> *rhs) : (lhs.has_value() <=> rhs.has_value());
   }
+
+  #ifdef TINY_OPTIONAL_GCC_WORKAROUND_CWG2445
+  template <class U, class D1, class F1>
+    requires(std::three_way_comparable_with<U, typename TinyOptionalImpl<D1, F1>::value_type>)
+  [[nodiscard]] std::compare_three_way_result_t<U, typename TinyOptionalImpl<D1, F1>::value_type> operator<=>(
+      std::optional<U> const & lhs,
+      TinyOptionalImpl<D1, F1> const & rhs)
+  {
+    return (lhs && rhs) ? (*lhs <=> *rhs) : (lhs.has_value() <=> rhs.has_value());
+  }
+  #endif
 } // namespace impl
 
 template <class P, auto e, auto i, std::three_way_comparable_with<P> U>
-- 
2.43.0

