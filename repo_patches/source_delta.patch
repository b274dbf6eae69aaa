From 89fc4559cb6695298fc2524f3ac38a3221239bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:36 +0000
Subject: [PATCH 01/64] fix: read the second argument of local operations as
 what it is

The second argument's values were converted to the type of the first
argument's values before the operation was applied, if the second argument
is 1D.
---
 source/fern/algorithm/core/binary_local_operation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/core/binary_local_operation.h b/source/fern/algorithm/core/binary_local_operation.h
index 6cca36b..68a3c18 100644
--- a/source/fern/algorithm/core/binary_local_operation.h
+++ b/source/fern/algorithm/core/binary_local_operation.h
@@ -169,7 +169,7 @@ void operation_0d_1d(
                 output_no_data_policy.mark_as_no_data(i);
             }
             else {
-                const_reference<Value1> v2(get(value2, i));
+                const_reference<Value2> v2(get(value2, i));
 
                 if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                     // Input value is out of domain. Mark result value as
@@ -222,7 +222,7 @@ void operation_1d_1d(
         }
         else {
             const_reference<Value1> v1(get(value1, i));
-            const_reference<Value1> v2(get(value2, i));
+            const_reference<Value2> v2(get(value2, i));
 
             if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                 // Input value is out of domain. Mark result value as
-- 
2.43.0


From 77382c434dc45d0867a93845ded79ec6e964e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:36 +0000
Subject: [PATCH 02/64] fix: signed + unsigned is not out of range if the sum
 is larger than a negative argument

---
 source/fern/algorithm/algebra/elementary/detail/add.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/add.h b/source/fern/algorithm/algebra/elementary/detail/add.h
index 8869f4c..7d5e738 100644
--- a/source/fern/algorithm/algebra/elementary/detail/add.h
+++ b/source/fern/algorithm/algebra/elementary/detail/add.h
@@ -129,7 +129,9 @@ struct within_range<
         FERN_STATIC_ASSERT(std::is_same, typename fern::algorithm::Result<
             Value1, Value2>::type, Result)
 
-        return value1 > 0 ? result >= value1 : result <= value1;
+        // signed + unsigned
+        // Overflow if result is smaller than the signed operand.
+        return result >= value1;
     }
 };
 
-- 
2.43.0


From 029e1a623e6ae345caaf00e55626169b7ce7d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:36 +0000
Subject: [PATCH 03/64] fix: a product that equals the minimum of the result
 type is within range

---
 source/fern/algorithm/algebra/elementary/detail/multiply.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/multiply.h b/source/fern/algorithm/algebra/elementary/detail/multiply.h
index 37298ea..b63a899 100644
--- a/source/fern/algorithm/algebra/elementary/detail/multiply.h
+++ b/source/fern/algorithm/algebra/elementary/detail/multiply.h
@@ -93,7 +93,7 @@ struct within_range<
             }
             else {
                 // value1 is positive, value2 is negative.
-                return -value1 >= max<Result>() / value2;
+                return value2 >= min<Result>() / value1;
             }
         }
         else {
@@ -103,7 +103,7 @@ struct within_range<
             }
             else {
                 // value1 is zero or negative, value2 is positive.
-                return value1 >= -max<Result>() / value2;
+                return value1 >= min<Result>() / value2;
             }
         }
     }
@@ -140,7 +140,8 @@ struct within_range<
             return value1 <= max<Result>() / value2;
         }
         else {
-            return value1 <= -max<Result>() / value2;
+            return value1 == Value1(0) || (value1 <= max<Result>() &&
+                value2 >= min<Result>() / static_cast<Result>(value1));
         }
     }
 };
-- 
2.43.0


From df28384c33d75ede05111a5f5f866827a10efb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 04/64] fix: dividing the minimum of a signed integer by -1 is
 out of range

It was not reported and, for integers of 32 bits and more, ended the process.
---
 .../algebra/elementary/detail/divide.h        | 39 +++++++++++++++++--
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/divide.h b/source/fern/algorithm/algebra/elementary/detail/divide.h
index 13b1821..03833aa 100644
--- a/source/fern/algorithm/algebra/elementary/detail/divide.h
+++ b/source/fern/algorithm/algebra/elementary/detail/divide.h
@@ -70,15 +70,16 @@ struct within_range<
     signed_integer_tag>
 {
     inline static constexpr bool calculate(
-        Value1 const& /* value1 */,
-        Value2 const& /* value2 */,
+        Value1 const& value1,
+        Value2 const& value2,
         Result const& /* result */)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
 
         // signed / signed
-        return true;
+        // The opposite of the minimum is larger than the maximum.
+        return !(value2 == Value2(-1) && value1 == min<Result>());
     }
 };
 
@@ -251,7 +252,37 @@ struct Algorithm
         R& result) const
     {
         assert(is_not_equal(value2, Value2(0)));
-        result = static_cast<R>(value1) / static_cast<R>(value2);
+        calculate(static_cast<R>(value1), static_cast<R>(value2), result,
+            typename TypeTraits<R>::number_category());
+    }
+
+private:
+
+    template<
+        typename R>
+    inline static void calculate(
+        R const& value1,
+        R const& value2,
+        R& result,
+        signed_integer_tag)
+    {
+        // Dividing the minimum by -1 overflows, which may trap. Let it wrap.
+        using Unsigned = typename std::make_unsigned<R>::type;
+        result = value2 == R(-1)
+            ? static_cast<R>(Unsigned(0) - static_cast<Unsigned>(value1))
+            : value1 / value2;
+    }
+
+    template<
+        typename R,
+        typename NumberCategory>
+    inline static void calculate(
+        R const& value1,
+        R const& value2,
+        R& result,
+        NumberCategory)
+    {
+        result = value1 / value2;
     }
 
 };
-- 
2.43.0


From 88a50ab16fee1f44c7542da15a3dfbc4776cb177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:31 +0000
Subject: [PATCH 05/64] fix: the factorial of an integer is exact

---
 .../algebra/elementary/detail/factorial.h     | 58 ++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/factorial.h b/source/fern/algorithm/algebra/elementary/detail/factorial.h
index 2753d15..c8d7393 100644
--- a/source/fern/algorithm/algebra/elementary/detail/factorial.h
+++ b/source/fern/algorithm/algebra/elementary/detail/factorial.h
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 #pragma once
 #include <cmath>
+#include <limits>
 #include "fern/core/assert.h"
 #include "fern/core/math.h"
 #include "fern/algorithm/policy/policies.h"
@@ -125,6 +126,59 @@ struct within_range<
 
 };
 
+
+template<
+    typename Value,
+    typename ArgumentNumberCategory>
+struct factorial
+{
+
+    static Value   calculate           (Value const& value);
+
+};
+
+
+template<
+    typename Value>
+struct factorial<
+    Value,
+    fern::integer_tag>
+{
+
+    inline static Value calculate(
+        Value const& value)
+    {
+        // The gamma function is not exact for values that still fit in an
+        // integral type.
+        // Stop before the result overflows, it is out of range in that case.
+        Value result{1};
+
+        for(Value i = 2; i <= value &&
+                result <= std::numeric_limits<Value>::max() / i; ++i) {
+            result = static_cast<Value>(result * i);
+        }
+
+        return result;
+    }
+
+};
+
+
+template<
+    typename Value>
+struct factorial<
+    Value,
+    fern::floating_point_tag>
+{
+
+    inline static Value calculate(
+        Value const& value)
+    {
+        return static_cast<Value>(std::round(std::tgamma(value + Value{1})));
+    }
+
+};
+
 } // namespace dispatch
 
 
@@ -141,7 +195,9 @@ struct Algorithm
     {
         FERN_STATIC_ASSERT(std::is_same, Result, Value)
 
-        result = static_cast<Value>(std::round(std::tgamma(value + Value{1})));
+        using value_tag = base_class<number_category<Value>, integer_tag>;
+
+        result = dispatch::factorial<Value, value_tag>::calculate(value);
     }
 
 };
-- 
2.43.0


From e0b4bd0c8aaed2aaf10070717f4aacff23442f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:57 +0000
Subject: [PATCH 06/64] fix: clamp: make the parallel combinations of array and
 scalar bounds compile

The kernels were instantiated with the types of the bounds swapped, and the 1D
ones with the kernel for array bounds.
---
 source/fern/algorithm/core/detail/clamp.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/fern/algorithm/core/detail/clamp.h b/source/fern/algorithm/core/detail/clamp.h
index 8702d52..bc1b062 100644
--- a/source/fern/algorithm/core/detail/clamp.h
+++ b/source/fern/algorithm/core/detail/clamp.h
@@ -411,7 +411,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_1d_1d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -507,9 +507,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_1d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -605,9 +605,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_0d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -717,7 +717,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -823,7 +823,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -929,7 +929,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_0d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
-- 
2.43.0


From 1a368af1c2a6315129f6818d485518921e56213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:55 +0000
Subject: [PATCH 07/64] fix: if: sequential selection of scalars by a 1D
 condition ended the process

The assertion compared the size of the scalar with the size of the condition.
---
 source/fern/algorithm/core/detail/if.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/detail/if.h b/source/fern/algorithm/core/detail/if.h
index 2afbdbb..c199942 100644
--- a/source/fern/algorithm/core/detail/if.h
+++ b/source/fern/algorithm/core/detail/if.h
@@ -1299,7 +1299,7 @@ struct IfThenElseByArgumentCategory<
         FalseValue const& false_value,
         Result& result)
     {
-        assert(size(true_value) == size(condition));
+        assert(size(result) == size(condition));
 
         if_then_else_1d_0d_0d(input_no_data_policy, output_no_data_policy,
             IndexRanges<1>{IndexRange(0, size(condition))}, condition,
-- 
2.43.0


From ab94220aac47bb41e5eabe372a6a05b10253ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 08/64] fix: copy: parallel copy of an empty range wrote
 outside of a vector

---
 source/fern/algorithm/core/detail/copy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/core/detail/copy.h b/source/fern/algorithm/core/detail/copy.h
index a095309..30cf5a2 100644
--- a/source/fern/algorithm/core/detail/copy.h
+++ b/source/fern/algorithm/core/detail/copy.h
@@ -160,8 +160,8 @@ struct CopyByArgumentCategory<
             };
         }
 
-        std::vector<Position> position_per_block(ranges.size());
-        position_per_block[0] = position;
+        std::vector<Position> position_per_block(ranges.size(),
+            position);
 
         for(size_t i = 1; i < ranges.size(); ++i) {
             position_per_block[i] = get<0>(position_per_block[i - 1]) +
-- 
2.43.0


From 07cb1271b840e51fd0de5dfabdd770bf4172ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:36 +0000
Subject: [PATCH 09/64] fix: the mode of no values yet counted a value 0

---
 source/fern/algorithm/accumulator/mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/mode.h b/source/fern/algorithm/accumulator/mode.h
index d747d37..3f619c7 100644
--- a/source/fern/algorithm/accumulator/mode.h
+++ b/source/fern/algorithm/accumulator/mode.h
@@ -65,7 +65,7 @@ template<
     typename Result>
 inline Mode<Argument, Result>::Mode()
 
-    : _frequency_table(0)
+    : _frequency_table()
 
 {
 }
-- 
2.43.0


From 702f60d5fd0eeadfbecec7d376c4205b3ca078d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 10/64] fix: merging counts with an out of range policy added
 one instead of the other count

---
 source/fern/algorithm/accumulator/count.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/accumulator/count.h b/source/fern/algorithm/accumulator/count.h
index 1754768..016872a 100644
--- a/source/fern/algorithm/accumulator/count.h
+++ b/source/fern/algorithm/accumulator/count.h
@@ -173,10 +173,13 @@ template<
 template<
     template<typename, typename, typename> class OutOfRangePolicy>
 inline bool Count<Argument, Result>::operator|=(
-    Count const& /* other */)
+    Count const& other)
 {
-    // Value doesn't matter. We're counting, not summing.
-    return operator()<OutOfRangePolicy>(Argument{});
+    Result previous_count{_count};
+    _count += other._count;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_count, other._count, _count);
 }
 
 
-- 
2.43.0


From 962c1b4afe3791b07b31ce4849068738eea66228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 11/64] fix: merging sums with an out of range policy converted
 the other sum to the argument type

---
 source/fern/algorithm/accumulator/sum.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/sum.h b/source/fern/algorithm/accumulator/sum.h
index a4fac1e..78f2bec 100644
--- a/source/fern/algorithm/accumulator/sum.h
+++ b/source/fern/algorithm/accumulator/sum.h
@@ -193,7 +193,11 @@ template<
 inline bool Sum<Argument, Result>::operator|=(
     Sum const& other)
 {
-    return operator()<OutOfRangePolicy>(other._sum);
+    Result previous_sum{_sum};
+    _sum += other._sum;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_sum, other._sum, _sum);
 }
 
 
-- 
2.43.0


From f0467b3bb21d6cb6fe829a39f880d3fdb02ae315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 12/64] fix: the mean of many small integers divided by a
 truncated count

With 8 bits integers and 128 or more values the mean was wrong, and with 256
values the process ended with a division by zero.
---
 source/fern/algorithm/accumulator/mean.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/accumulator/mean.h b/source/fern/algorithm/accumulator/mean.h
index 347d974..b0adc49 100644
--- a/source/fern/algorithm/accumulator/mean.h
+++ b/source/fern/algorithm/accumulator/mean.h
@@ -9,6 +9,8 @@
 #pragma once
 #include <cassert>
 #include <cstddef>
+#include <cstdint>
+#include <type_traits>
 #include "fern/algorithm/accumulator/count.h"
 #include "fern/algorithm/accumulator/sum.h"
 
@@ -174,9 +176,13 @@ inline Result Mean<Argument, Result>::operator()() const
 {
     assert(_count() > 0);
 
-    // _sum() returns result in Result. Dividing by _count may implicitly cast
-    // it to some other type.
-    return _sum() / static_cast<Result>(_count());
+    // _sum() returns result in Result. The count may not fit a small Result.
+    using Count_ = typename std::conditional<
+        std::is_floating_point<Result>::value, Result,
+        typename std::conditional<std::is_signed<Result>::value,
+            std::intmax_t, std::uintmax_t>::type>::type;
+
+    return static_cast<Result>(_sum() / static_cast<Count_>(_count()));
 }
 
 
-- 
2.43.0


From 388668784b3e432381fb4e645e9e50b50bb0479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 13/64] fix: the median of an even number of values overflowed

The sum of the two center values may not fit the type of the values or of the
result: the median of the 8 bits integers 100 and 120 was -18.
---
 source/fern/algorithm/accumulator/median.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/accumulator/median.h b/source/fern/algorithm/accumulator/median.h
index 5a2e37b..20b379a 100644
--- a/source/fern/algorithm/accumulator/median.h
+++ b/source/fern/algorithm/accumulator/median.h
@@ -9,6 +9,7 @@
 #pragma once
 #include <algorithm>
 #include <cassert>
+#include <type_traits>
 #include <vector>
 
 
@@ -147,8 +148,23 @@ inline Result Median<Argument, Result>::operator()() const
     }
     else {
         // Even. Return mean of two center values.
-        result = static_cast<Result>(_values[center_index - 1] +
-            _values[center_index]) / 2;
+        Argument const lower{_values[center_index - 1]};
+        Argument const upper{_values[center_index]};
+
+        if(std::is_floating_point<Result>::value) {
+            result = (static_cast<Result>(lower) +
+                static_cast<Result>(upper)) / 2;
+        }
+        else if(lower < Argument(0) && !(upper < Argument(0))) {
+            result = static_cast<Result>((lower + upper) / 2);
+        }
+        else if(upper < Argument(0)) {
+            // The sum may not fit the type.
+            result = static_cast<Result>(upper - (upper - lower) / 2);
+        }
+        else {
+            result = static_cast<Result>(lower + (upper - lower) / 2);
+        }
     }
 
     return result;
-- 
2.43.0


From c8b69769ea3523b517da1e05a656f4901e713797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 14/64] fix: the maximum of values that are all minus infinity
 was the lowest finite number

---
 source/fern/algorithm/accumulator/max.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/max.h b/source/fern/algorithm/accumulator/max.h
index 612723b..669f729 100644
--- a/source/fern/algorithm/accumulator/max.h
+++ b/source/fern/algorithm/accumulator/max.h
@@ -64,7 +64,9 @@ template<
     typename Result>
 inline Max<Argument, Result>::Max()
 
-    : _max(std::numeric_limits<Argument>::lowest())
+    : _max(std::numeric_limits<Argument>::has_infinity
+          ? -std::numeric_limits<Argument>::infinity()
+          : std::numeric_limits<Argument>::lowest())
 
 {
 }
-- 
2.43.0


From 266d7c0aa856d3ad3ead219748f8876b4c667b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 15/64] fix: the minimum of values that are all infinity was
 the largest finite number

---
 source/fern/algorithm/accumulator/min.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/min.h b/source/fern/algorithm/accumulator/min.h
index badeef4..dea6353 100644
--- a/source/fern/algorithm/accumulator/min.h
+++ b/source/fern/algorithm/accumulator/min.h
@@ -64,7 +64,9 @@ template<
     typename Result>
 inline Min<Argument, Result>::Min()
 
-    : _min(std::numeric_limits<Argument>::max())
+    : _min(std::numeric_limits<Argument>::has_infinity
+          ? std::numeric_limits<Argument>::infinity()
+          : std::numeric_limits<Argument>::max())
 
 {
 }
-- 
2.43.0


From b27721f84e985c5e92e46ac0ecddd03f33885496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 16/64] fix: count: a parallel count reported no-data if the
 cells of one block all are

Each block marked the final result, which is only without value if none of the
blocks has data.
---
 .../core/binary_aggregate_operation.h         | 78 ++++++++++++-------
 1 file changed, 50 insertions(+), 28 deletions(-)

diff --git a/source/fern/algorithm/core/binary_aggregate_operation.h b/source/fern/algorithm/core/binary_aggregate_operation.h
index 99cc065..1dbd445 100644
--- a/source/fern/algorithm/core/binary_aggregate_operation.h
+++ b/source/fern/algorithm/core/binary_aggregate_operation.h
@@ -53,7 +53,7 @@ template<
     typename OutputNoDataPolicy,
     typename Value,
     typename Result>
-void operation_1d(
+bool operation_1d(
     Algorithm const& algorithm,
     InputNoDataPolicy const& input_no_data_policy,
     OutputNoDataPolicy& output_no_data_policy,
@@ -107,9 +107,7 @@ void operation_1d(
         }
     }
 
-    if(!data_seen) {
-        output_no_data_policy.mark_as_no_data();
-    }
+    return data_seen;
 }
 
 
@@ -121,7 +119,7 @@ template<
     typename OutputNoDataPolicy,
     typename Value,
     typename Result>
-void operation_2d(
+bool operation_2d(
     Algorithm const& algorithm,
     InputNoDataPolicy const& input_no_data_policy,
     OutputNoDataPolicy& output_no_data_policy,
@@ -219,9 +217,7 @@ void operation_2d(
         }
     }
 
-    if(!data_seen) {
-        output_no_data_policy.mark_as_no_data();
-    }
+    return data_seen;
 }
 
 
@@ -392,10 +388,12 @@ struct BinaryAggregateOperation<
     {
         Algorithm algorithm;
 
-        operation_1d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
+        if(!operation_1d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
             input_no_data_policy, output_no_data_policy,
             IndexRanges<1>{IndexRange(0, size(values))},
-            values, value, result);
+            values, value, result)) {
+            output_no_data_policy.mark_as_no_data();
+        }
     }
 
 };
@@ -441,7 +439,7 @@ struct BinaryAggregateOperation<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(values);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        std::vector<std::future<bool>> futures;
         futures.reserve(ranges.size());
         std::vector<Result> results_per_block(ranges.size(), Result(0));
 
@@ -467,16 +465,27 @@ struct BinaryAggregateOperation<
             futures.emplace_back(pool.submit(function));
         }
 
-        for(auto& future: futures) {
-            future.get();
+        // Blocks without data have no result.
+        std::vector<Result> results;
+        results.reserve(ranges.size());
+
+        for(size_t i = 0; i < ranges.size(); ++i) {
+            if(futures[i].get()) {
+                results.emplace_back(results_per_block[i]);
+            }
         }
 
-        Aggregator aggregator;
+        if(results.empty()) {
+            output_no_data_policy.mark_as_no_data();
+        }
+        else {
+            Aggregator aggregator;
 
-        Aggregate<DataTypeTraits<Result>::is_masking>::template
-            apply<OutOfRangePolicy>(
-                aggregator, output_no_data_policy, execution_policy,
-                results_per_block, result);
+            Aggregate<DataTypeTraits<Result>::is_masking>::template
+                apply<OutOfRangePolicy>(
+                    aggregator, output_no_data_policy, execution_policy,
+                    results, result);
+        }
     }
 
 };
@@ -585,12 +594,14 @@ struct BinaryAggregateOperation<
     {
         Algorithm algorithm;
 
-        operation_2d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
+        if(!operation_2d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
             input_no_data_policy, output_no_data_policy,
             IndexRanges<2>{
                 IndexRange(0, size(values, 0)),
                 IndexRange(0, size(values, 1))},
-            values, value, result);
+            values, value, result)) {
+            output_no_data_policy.mark_as_no_data();
+        }
     }
 
 };
@@ -631,7 +642,7 @@ struct BinaryAggregateOperation<
         size_t const size2 = size(values, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        std::vector<std::future<bool>> futures;
         futures.reserve(ranges.size());
         std::vector<Result> results_per_block(ranges.size(), Result(0));
 
@@ -657,16 +668,27 @@ struct BinaryAggregateOperation<
             futures.emplace_back(pool.submit(function));
         }
 
-        for(auto& future: futures) {
-            future.get();
+        // Blocks without data have no result.
+        std::vector<Result> results;
+        results.reserve(ranges.size());
+
+        for(size_t i = 0; i < ranges.size(); ++i) {
+            if(futures[i].get()) {
+                results.emplace_back(results_per_block[i]);
+            }
         }
 
-        Aggregator aggregator;
+        if(results.empty()) {
+            output_no_data_policy.mark_as_no_data();
+        }
+        else {
+            Aggregator aggregator;
 
-        Aggregate<DataTypeTraits<Result>::is_masking>::template
-            apply<OutOfRangePolicy>(
-                aggregator, output_no_data_policy, execution_policy,
-                results_per_block, result);
+            Aggregate<DataTypeTraits<Result>::is_masking>::template
+                apply<OutOfRangePolicy>(
+                    aggregator, output_no_data_policy, execution_policy,
+                    results, result);
+        }
     }
 
 };
-- 
2.43.0


From cbc09bac6429bbc83756fe26ca904871066f8615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 17/64] fix: count: the cells after a first row without values
 were not counted

---
 source/fern/algorithm/core/binary_aggregate_operation.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/fern/algorithm/core/binary_aggregate_operation.h b/source/fern/algorithm/core/binary_aggregate_operation.h
index 1dbd445..46002bf 100644
--- a/source/fern/algorithm/core/binary_aggregate_operation.h
+++ b/source/fern/algorithm/core/binary_aggregate_operation.h
@@ -170,6 +170,8 @@ bool operation_2d(
             if(data_seen) {
                 break;
             }
+
+            j = begin2;
         }
 
         // Continue where the previous loop stopped.
-- 
2.43.0


From 28dbdc398229a236731982bc94e841240dc09788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 18/64] fix: replacing no-data by the focal average of no valid
 cells

With a kernel of radius larger than 1, a no-data cell that is surrounded by
only no-data made an assertion fail, or a division by zero.
---
 .../replace_no_data_by_focal_average.h            | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h b/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
index 7578156..8ec7b33 100644
--- a/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
+++ b/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
@@ -7,7 +7,6 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
-#include <cassert>
 #include <cstddef>
 #include <tuple>
 #include "fern/core/data_customization_point.h"
@@ -83,16 +82,12 @@ inline bool ReplaceNoDataByFocalAverage::value(
         }
     }
 
-    // At least the focal cell must be non-no-data. Otherwise it would have
-    // been skipped entirely and we wouldn't be here.
-    // -> But in case the radius of the convolution kernel is larger than 1,
-    // the focal cell is not surrounding cell row, col. It is possible that
-    // cell row, col is surrounded by only no-data.
-    // TODO Handle this once this assertion fails for the first time.
-    assert(nr_values_seen > 0u);
-    value = sum_of_values / static_cast<Value>(nr_values_seen);
+    // The cell can be surrounded by only no-data.
+    if(nr_values_seen > 0u) {
+        value = sum_of_values / static_cast<Value>(nr_values_seen);
+    }
 
-    return true;
+    return nr_values_seen > 0u;
 }
 
 } // namespace convolve
-- 
2.43.0


From b0b4a73e498990cddfee50cfac2ea81da699001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 19/64] fix: convolve counted replacements at locations with
 weight zero

A replacement of a no-data or out of image value counted as a value seen even
if its weight is zero, resulting in zero or, when normalizing, NaN, instead of
no-data.
---
 .../algorithm/convolution/detail/convolve.h   | 68 ++++++++++++++-----
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/source/fern/algorithm/convolution/detail/convolve.h b/source/fern/algorithm/convolution/detail/convolve.h
index 7e773d2..35bb1f4 100644
--- a/source/fern/algorithm/convolution/detail/convolve.h
+++ b/source/fern/algorithm/convolution/detail/convolve.h
@@ -195,7 +195,9 @@ struct ConvolveNorthWestCorner
                                 if(out_of_image_kernel_row < first_row_kernel ||
                                     out_of_image_kernel_col < first_col_kernel)
                                 {
-                                    if(OutOfImagePolicy::value_north_west(
+                                    if(is_not_equal(
+                                            get(kernel, kernel_index), W{0}) &&
+                                        OutOfImagePolicy::value_north_west(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -228,7 +230,9 @@ struct ConvolveNorthWestCorner
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(
+                                        get(kernel, kernel_index), W{0}) &&
+                                    AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -374,7 +378,9 @@ struct ConvolveNorthEastCorner
                                 if(out_of_image_kernel_row < first_row_kernel ||
                                     out_of_image_kernel_col >= nr_cols_kernel) {
 
-                                    if(OutOfImagePolicy::value_north_east(
+                                    if(is_not_equal(
+                                            get(kernel, kernel_index), W{0}) &&
+                                        OutOfImagePolicy::value_north_east(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -407,7 +413,9 @@ struct ConvolveNorthEastCorner
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(
+                                        get(kernel, kernel_index), W{0}) &&
+                                    AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -554,7 +562,9 @@ struct ConvolveSouthWestCorner
                                     out_of_image_kernel_col < first_col_kernel)
                                 {
 
-                                    if(OutOfImagePolicy::value_south_west(
+                                    if(is_not_equal(
+                                            get(kernel, kernel_index), W{0}) &&
+                                        OutOfImagePolicy::value_south_west(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -587,7 +597,9 @@ struct ConvolveSouthWestCorner
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(
+                                        get(kernel, kernel_index), W{0}) &&
+                                    AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -736,7 +748,9 @@ struct ConvolveSouthEastCorner
                                 if(out_of_image_kernel_row >= nr_rows_kernel ||
                                     out_of_image_kernel_col >= nr_cols_kernel) {
 
-                                    if(OutOfImagePolicy::value_south_east(
+                                    if(is_not_equal(
+                                            get(kernel, kernel_index), W{0}) &&
+                                        OutOfImagePolicy::value_south_east(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -769,7 +783,9 @@ struct ConvolveSouthEastCorner
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(
+                                        get(kernel, kernel_index), W{0}) &&
+                                    AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -915,7 +931,9 @@ struct ConvolveNorthSide
 
                                 if(out_of_image_kernel_row < first_row_kernel) {
 
-                                    if(OutOfImagePolicy::value_north(
+                                    if(is_not_equal(
+                                            get(kernel, kernel_index), W{0}) &&
+                                        OutOfImagePolicy::value_north(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -948,7 +966,9 @@ struct ConvolveNorthSide
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(
+                                        get(kernel, kernel_index), W{0}) &&
+                                    AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -1094,7 +1114,9 @@ struct ConvolveWestSide
 
                                 if(out_of_image_kernel_col < first_col_kernel) {
 
-                                    if(OutOfImagePolicy::value_west(
+                                    if(is_not_equal(
+                                            get(kernel, kernel_index), W{0}) &&
+                                        OutOfImagePolicy::value_west(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -1127,7 +1149,9 @@ struct ConvolveWestSide
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(
+                                        get(kernel, kernel_index), W{0}) &&
+                                    AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -1275,7 +1299,9 @@ struct ConvolveEastSide
 
                                 if(out_of_image_kernel_col >= nr_cols_kernel) {
 
-                                    if(OutOfImagePolicy::value_east(
+                                    if(is_not_equal(
+                                            get(kernel, kernel_index), W{0}) &&
+                                        OutOfImagePolicy::value_east(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -1308,7 +1334,9 @@ struct ConvolveEastSide
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(
+                                        get(kernel, kernel_index), W{0}) &&
+                                    AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -1455,7 +1483,9 @@ struct ConvolveSouthSide
 
                                 if(out_of_image_kernel_row >= nr_rows_kernel) {
 
-                                    if(OutOfImagePolicy::value_south(
+                                    if(is_not_equal(
+                                            get(kernel, kernel_index), W{0}) &&
+                                        OutOfImagePolicy::value_south(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -1488,7 +1518,9 @@ struct ConvolveSouthSide
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(
+                                        get(kernel, kernel_index), W{0}) &&
+                                    AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -1628,7 +1660,9 @@ struct ConvolveInnerPart<true>
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(
+                                        get(kernel, kernel_index), W{0}) &&
+                                    AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
-- 
2.43.0


From bdc7778014bfea3bf1f3dc1d90bdd56cb6aa2d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 20/64] fix: out of image focal averages read outside of the
 source image

Depending on the location of the kernel and the size of the image, the
neighborhoods averaged extended west or north of the first cell, or past the
last one.
---
 .../replace_out_of_image_by_focal_average.h   | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h b/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
index cd358b9..d9491d9 100644
--- a/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
+++ b/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
@@ -166,6 +166,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_west(
     size_t nr_values_seen{0};
     size_t const radius{1};
 
+    size_t const last_row_source = size(source, 0) - 1;
+    size_t const last_col_source = size(source, 1) - 1;
+
     size_t index_;
 
     if(out_of_image_kernel_row < first_row_kernel) {
@@ -218,8 +221,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_west(
                     size_t col = out_of_image_kernel_col - first_col_kernel >=
                         radius ? out_of_image_kernel_col - first_col_kernel -
                         radius : 0;
-                    size_t const last_col = out_of_image_kernel_col -
-                        first_col_kernel + radius;
+                    size_t const last_col = std::min(
+                        out_of_image_kernel_col - first_col_kernel + radius,
+                        last_col_source);
 
                     index_ = index(source, row, col);
 
@@ -248,8 +252,8 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_west(
             size_t row = out_of_image_kernel_row - first_row_kernel >= radius
                 ? out_of_image_kernel_row -first_row_kernel - radius
                 : 0;
-            size_t const last_row = out_of_image_kernel_row -
-                first_row_kernel + radius;
+            size_t const last_row = std::min(out_of_image_kernel_row -
+                first_row_kernel + radius, last_row_source);
 
             for(; row <= last_row; ++row) {
                 size_t col = first_col_source;
@@ -300,6 +304,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_east(
     size_t const radius{1};
 
     size_t const last_col_kernel = first_col_kernel + nr_cols_kernel - 1;
+    size_t const last_row_source = size(source, 0) - 1;
     size_t const last_col_source = size(source, 1) - 1;
 
     size_t index_;
@@ -353,7 +358,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_east(
 
                 for(; row <= last_row; ++row) {
 
-                    size_t col = col_source - radius;
+                    size_t col = radius > col_source ? 0 : col_source - radius;
                     size_t last_col = std::min(col_source + radius,
                         last_col_source);
                     index_ = index(source, row, col);
@@ -385,8 +390,8 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_east(
                     ? out_of_image_kernel_row - first_row_kernel - radius
                     : 0;
 
-            size_t const last_row = out_of_image_kernel_row -
-                first_row_kernel + radius;
+            size_t const last_row = std::min(out_of_image_kernel_row -
+                first_row_kernel + radius, last_row_source);
 
             for(; row <= last_row; ++row) {
 
@@ -441,6 +446,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_west(
 
     size_t const last_row_kernel = first_row_kernel + nr_rows_kernel - 1;
     size_t const last_row_source = size(source, 0) - 1;
+    size_t const last_col_source = size(source, 1) - 1;
 
     size_t index_;
 
@@ -494,8 +500,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_west(
                     size_t col = out_of_image_kernel_col - first_col_kernel >=
                         radius ? out_of_image_kernel_col - first_col_kernel -
                         radius : 0;
-                    size_t const last_col = out_of_image_kernel_col -
-                        first_col_kernel + radius;
+                    size_t const last_col = std::min(
+                        out_of_image_kernel_col - first_col_kernel + radius,
+                        last_col_source);
 
                     index_ = index(source, row, col);
 
@@ -524,7 +531,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_west(
 
             size_t const row_source = first_row_source +
                 out_of_image_kernel_row;
-            size_t row = row_source - radius;
+            size_t row = radius > row_source ? 0 : row_source - radius;
             size_t last_row = std::min(row_source + radius, last_row_source);
 
             for(; row <= last_row; ++row) {
@@ -637,7 +644,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_east(
 
                 for(; row <= last_row; ++row) {
 
-                    size_t col = col_source - radius;
+                    size_t col = radius > col_source ? 0 : col_source - radius;
                     size_t last_col = std::min(col_source + radius,
                         last_col_source);
 
@@ -668,7 +675,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_east(
 
             size_t const row_source = first_row_source +
                 out_of_image_kernel_row;
-            size_t row = row_source - radius;
+            size_t row = radius > row_source ? 0 : row_source - radius;
             size_t last_row = std::min(row_source + radius, last_row_source);
 
             for(; row <= last_row; ++row) {
-- 
2.43.0


From e7c3c3f88ae9f94af662161da697d39b1eec1858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 21/64] fix: laplacian and lax of single-precision values did
 not compile

---
 source/fern/algorithm/algebra/vector/detail/laplacian.h | 3 ++-
 source/fern/algorithm/algebra/vector/detail/lax.h       | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/algebra/vector/detail/laplacian.h b/source/fern/algorithm/algebra/vector/detail/laplacian.h
index bd452a9..c0c4ce6 100644
--- a/source/fern/algorithm/algebra/vector/detail/laplacian.h
+++ b/source/fern/algorithm/algebra/vector/detail/laplacian.h
@@ -193,7 +193,8 @@ struct Laplacian<
                 divide::OutOfDomainPolicy,
                 divide::OutOfRangePolicy>(
                     input_no_data_policy_, output_no_data_policy,
-                    execution_policy, result, cell_area(value), result);
+                    execution_policy, result,
+                    static_cast<Float>(cell_area(value)), result);
         }
     }
 
diff --git a/source/fern/algorithm/algebra/vector/detail/lax.h b/source/fern/algorithm/algebra/vector/detail/lax.h
index 3c306d5..4127bc6 100644
--- a/source/fern/algorithm/algebra/vector/detail/lax.h
+++ b/source/fern/algorithm/algebra/vector/detail/lax.h
@@ -125,7 +125,7 @@ struct Lax<
                 //       output-no-data-policy passed in.
                 algorithm::multiply::OutOfRangePolicy>(
                     input_no_data_policy_, output_no_data_policy,
-                    execution_policy, (1.0 - fraction), value,
+                    execution_policy, Float(1) - fraction, value,
                     multiplied_values);
         }
 
-- 
2.43.0


From af0830666bace24497befbecd289578abed72627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 22/64] fix: clone of a 3D masked array had the second extent
 as its third

---
 .../fern/feature/core/data_customization_point/masked_array.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/feature/core/data_customization_point/masked_array.h b/source/fern/feature/core/data_customization_point/masked_array.h
index a936140..540c73b 100644
--- a/source/fern/feature/core/data_customization_point/masked_array.h
+++ b/source/fern/feature/core/data_customization_point/masked_array.h
@@ -124,7 +124,7 @@ inline MaskedArray<U, 3> clone(
     MaskedArray<V, 3> const& array)
 {
     return MaskedArray<U, 3>(
-        extents[array.shape()[0]][array.shape()[1]][array.shape()[1]]);
+        extents[array.shape()[0]][array.shape()[1]][array.shape()[2]]);
 }
 
 
-- 
2.43.0


From dc881704c52d2568eeab592e34beaa50bfa8a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 23/64] fix: clone of a 3D raster did not compile

---
 source/fern/feature/core/data_customization_point/raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/feature/core/data_customization_point/raster.h b/source/fern/feature/core/data_customization_point/raster.h
index 2f5d1e5..a253598 100644
--- a/source/fern/feature/core/data_customization_point/raster.h
+++ b/source/fern/feature/core/data_customization_point/raster.h
@@ -146,7 +146,7 @@ inline Raster<U, 3> clone(
     Raster<V, 3> const& raster)
 {
     return Raster<U, 3>(
-        extents[raster.shape()[0]][raster.shape()[1],raster.shape()[2]],
+        extents[raster.shape()[0]][raster.shape()[1]][raster.shape()[2]],
         raster.transformation());
 }
 
@@ -159,7 +159,7 @@ inline Raster<U, 3> clone(
     U const& value)
 {
     return Raster<U, 3>(
-        extents[raster.shape()[0]][raster.shape()[1],raster.shape()[2]],
+        extents[raster.shape()[0]][raster.shape()[1]][raster.shape()[2]],
         raster.transformation(), value);
 }
 
-- 
2.43.0


From 3ef1579050bb486b2366ae1ee206185b12801047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 24/64] fix: a ScopeExit that was moved from called its
 function too

---
 source/fern/core/scope_exit.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/source/fern/core/scope_exit.h b/source/fern/core/scope_exit.h
index 343b07d..3040a15 100644
--- a/source/fern/core/scope_exit.h
+++ b/source/fern/core/scope_exit.h
@@ -69,7 +69,7 @@ public:
 
                    ScopeExit           (ScopeExit const& other)=delete;
 
-                   ScopeExit           (ScopeExit&& other)=default;
+                   ScopeExit           (ScopeExit&& other) noexcept;
 
                    ~ScopeExit          () noexcept(noexcept(_function));
 
@@ -100,6 +100,23 @@ inline ScopeExit<Function>::ScopeExit(
 }
 
 
+/*!
+    @brief      Construct an instance that takes over the responsibility of
+                @a other, if any.
+*/
+template<
+    typename Function>
+inline ScopeExit<Function>::ScopeExit(
+    ScopeExit&& other) noexcept
+
+    : _function(std::move(other._function)),
+      _execute_on_destruction(other._execute_on_destruction)
+
+{
+    other.release();
+}
+
+
 /*!
     @brief      Destruct the instance.
 
-- 
2.43.0


From ef13b216fafa488019ef816b62716c3e5abdfc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 25/64] fix: the value type of results of int16 arguments

Int16 was left out when the value types of arguments are ranked: int16
combined with int8 or uint8 gave the narrower type.
---
 .../language/operation/core/expression_type_calculation.cc     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/fern/language/operation/core/expression_type_calculation.cc b/source/fern/language/operation/core/expression_type_calculation.cc
index 5cf4682..c520d73 100644
--- a/source/fern/language/operation/core/expression_type_calculation.cc
+++ b/source/fern/language/operation/core/expression_type_calculation.cc
@@ -168,6 +168,9 @@ static ValueTypes result_value_type(
     else if(merged_argument_value_types.test(fern::VT_UINT16)) {
         result_value_type = ValueTypes::UINT16;
     }
+    else if(merged_argument_value_types.test(fern::VT_INT16)) {
+        result_value_type = ValueTypes::INT16;
+    }
     else if(merged_argument_value_types.test(fern::VT_UINT8)) {
         result_value_type = ValueTypes::UINT8;
     }
-- 
2.43.0


From 81424bf17c56988ac935e1700b362f1bd83b6697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 26/64] fix: outputs were lost once an identifier was defined
 again

---
 source/fern/language/ast/visitor/io_visitor.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/io_visitor.cc b/source/fern/language/ast/visitor/io_visitor.cc
index 05b333a..f9f70fc 100644
--- a/source/fern/language/ast/visitor/io_visitor.cc
+++ b/source/fern/language/ast/visitor/io_visitor.cc
@@ -74,8 +74,15 @@ void IOVisitor::Visit(
                     _output_id_by_name.end()) {
                 // This identifier is already stored as a result.
                 // Remove it first. We want to store this latter occurence.
-                _outputs.erase(_outputs.begin() + _output_id_by_name[
-                    vertex.name()]);
+                size_t const output_id = _output_id_by_name[vertex.name()];
+                _outputs.erase(_outputs.begin() + output_id);
+
+                // The outputs behind it have moved.
+                for(auto& pair: _output_id_by_name) {
+                    if(pair.second > output_id) {
+                        --pair.second;
+                    }
+                }
             }
 
             _output_id_by_name[vertex.name()] = _outputs.size();
-- 
2.43.0


From 649397aac4a06a7a92801570938afc87e7f07442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 27/64] fix: argument types of an operation were reversed

---
 source/fern/language/ast/visitor/annotate_visitor.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/ast/visitor/annotate_visitor.cc b/source/fern/language/ast/visitor/annotate_visitor.cc
index 1679cef..88255ac 100644
--- a/source/fern/language/ast/visitor/annotate_visitor.cc
+++ b/source/fern/language/ast/visitor/annotate_visitor.cc
@@ -149,11 +149,12 @@ void AnnotateVisitor::Visit(
     AstVisitor::Visit(vertex);
 
 
-    // Get the result types from all argument expressions provided.
-    std::vector<ExpressionType> argument_types;
-    for(size_t i = 0; i < vertex.expressions().size(); ++i) {
+    // Get the result types from all argument expressions provided. The type
+    // of the last argument is on top of the stack.
+    std::vector<ExpressionType> argument_types(vertex.expressions().size());
+    for(size_t i = argument_types.size(); i > 0; --i) {
         assert(!_stack.empty());
-        argument_types.emplace_back(_stack.top());
+        argument_types[i - 1] = _stack.top();
         _stack.pop();
     }
 
-- 
2.43.0


From 07dd6b568f555dd0de9440997b76557f0cf2dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 28/64] fix: nested subscripts and attributes could not be
 parsed

---
 source/fern/language/ast/xml/xml_parser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index fd29651..930343d 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -892,7 +892,7 @@ public:
     void Expression(
         std::shared_ptr<ExpressionVertex> const& vertex)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         if(!_data_stack.top().expression) {
             _data_stack.top().expression = vertex;
         }
@@ -939,7 +939,7 @@ public:
     void Expression(
         std::shared_ptr<ExpressionVertex> const& vertex)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         assert(!_data_stack.top().expression);
         _data_stack.top().expression = vertex;
     }
@@ -947,14 +947,14 @@ public:
     void Name(
         std::string const& name)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         assert(_data_stack.top().member_name.empty());
         _data_stack.top().member_name = name;
     }
 
     std::shared_ptr<ExpressionVertex> post_Attribute()
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         AttributeData result(_data_stack.top());
         _data_stack.pop();
         return std::shared_ptr<AttributeVertex>(
-- 
2.43.0


From 387d075dcbc9265af56c4d887a47fb8d052c4ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 29/64] fix: 8-bit numbers were written as characters

---
 source/fern/language/ast/visitor/module_visitor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/module_visitor.cc b/source/fern/language/ast/visitor/module_visitor.cc
index 28aa825..863e495 100644
--- a/source/fern/language/ast/visitor/module_visitor.cc
+++ b/source/fern/language/ast/visitor/module_visitor.cc
@@ -182,7 +182,7 @@ void ModuleVisitor::Visit(
 void ModuleVisitor::Visit(
     NumberVertex<int8_t>& vertex)
 {
-    _module += (boost::format("%1%") % vertex.value()).str();
+    _module += (boost::format("%1%") % static_cast<int>(vertex.value())).str();
 }
 
 
@@ -213,7 +213,7 @@ void ModuleVisitor::Visit(
     NumberVertex<uint8_t>& vertex)
 {
     // U?
-    _module += (boost::format("%1%U") % vertex.value()).str();
+    _module += (boost::format("%1%U") % static_cast<int>(vertex.value())).str();
 }
 
 
-- 
2.43.0


From bca61f4b7ee02cd6efec7aa56d45b7d2bc8ef92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:50 +0000
Subject: [PATCH 30/64] fix: defined identifiers were inputs, and outputs at
 any scope

---
 .../fern/language/ast/visitor/io_visitor.cc   | 26 ++++++++++++++++---
 source/fern/language/ast/visitor/io_visitor.h | 10 ++++---
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/source/fern/language/ast/visitor/io_visitor.cc b/source/fern/language/ast/visitor/io_visitor.cc
index f9f70fc..fc0c141 100644
--- a/source/fern/language/ast/visitor/io_visitor.cc
+++ b/source/fern/language/ast/visitor/io_visitor.cc
@@ -21,7 +21,8 @@ IOVisitor::IOVisitor()
       _mode(Mode::Using),
       _inputs(),
       _outputs(),
-      _output_id_by_name()
+      _output_id_by_name(),
+      _symbol_table()
 
 {
 }
@@ -62,14 +63,21 @@ void IOVisitor::Visit(
 {
     switch(_mode) {
         case Mode::Using: {
-            if(std::find(_inputs.begin(), _inputs.end(), vertex.name()) ==
-                    _inputs.end()) {
+            if(!_symbol_table.has_value(vertex.name()) &&
+                    std::find(_inputs.begin(), _inputs.end(), vertex.name()) ==
+                        _inputs.end()) {
                 _inputs.emplace_back(vertex.name());
             }
             break;
         }
         case Mode::Defining: {
-            // TODO Assert that the scope is global.
+            _symbol_table.add_value(vertex.name(), &vertex);
+
+            if(_symbol_table.scope_level() > 1) {
+                // Only identifiers at global scope are outputs.
+                break;
+            }
+
             if(_output_id_by_name.find(vertex.name()) !=
                     _output_id_by_name.end()) {
                 // This identifier is already stored as a result.
@@ -103,8 +111,18 @@ void IOVisitor::Visit(
 
     AstVisitor::Visit(vertex);
 
+    assert(_symbol_table.empty());
     assert(_output_id_by_name.size() == _outputs.size());
 }
 
+
+void IOVisitor::Visit(
+    ScopeVertex& vertex)
+{
+    _symbol_table.push_scope();
+    AstVisitor::Visit(vertex);
+    _symbol_table.pop_scope();
+}
+
 } // namespace language
 } // namespace fern
diff --git a/source/fern/language/ast/visitor/io_visitor.h b/source/fern/language/ast/visitor/io_visitor.h
index 2edef08..7b13f30 100644
--- a/source/fern/language/ast/visitor/io_visitor.h
+++ b/source/fern/language/ast/visitor/io_visitor.h
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 #pragma once
 #include <map>
+#include "fern/language/core/symbol_table.h"
 #include "fern/language/ast/core/name_vertex.h"
 #include "fern/language/ast/visitor/ast_visitor.h"
 
@@ -24,10 +25,6 @@ namespace language {
 
     This visitor can be used multiple times, as long as a ModuleVertex accepts
     the visitor first.
-
-    \todo Keep track of scoping and make sure only global scope defined
-          identifiers are marked as outputs. Maybe use a symbol table to
-          store outputs per scope?
 */
 class IOVisitor:
     public AstVisitor
@@ -71,12 +68,17 @@ private:
     //! Index of output with a certain name in _outputs.
     std::map<std::string, size_t> _output_id_by_name;
 
+    //! Identifiers that are defined, per scope.
+    SymbolTable<NameVertex const*> _symbol_table;
+
     void           Visit               (AssignmentVertex& vertex);
 
     void           Visit               (ModuleVertex& vertex);
 
     void           Visit               (NameVertex& vertex);
 
+    void           Visit               (ScopeVertex& vertex);
+
 };
 
 } // namespace language
-- 
2.43.0


From 2ba115bd34e84a5b971c6fbdea3bb117a36a9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:20 +0000
Subject: [PATCH 31/64] fix: moved-from dataset handles closed the dataset

---
 source/fern/io/gdal/dataset_handle.cc        | 35 +++++++++++++++++++-
 source/fern/io/gdal/dataset_handle.h         |  4 +--
 source/fern/io/netcdf/core/dataset_handle.cc | 35 +++++++++++++++++++-
 source/fern/io/netcdf/core/dataset_handle.h  |  4 +--
 4 files changed, 72 insertions(+), 6 deletions(-)

diff --git a/source/fern/io/gdal/dataset_handle.cc b/source/fern/io/gdal/dataset_handle.cc
index 5a523d9..27bd8b3 100644
--- a/source/fern/io/gdal/dataset_handle.cc
+++ b/source/fern/io/gdal/dataset_handle.cc
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 #include "fern/io/gdal/dataset_handle.h"
 #include <cassert>
+#include <utility>
 #include <gdal_priv.h>
 
 
@@ -28,12 +29,44 @@ DatasetHandle::DatasetHandle(
 }
 
 
+/*!
+    @brief      Move-construct a handle.
+
+    The dataset is transferred from @a other, which doesn't close it anymore.
+*/
+DatasetHandle::DatasetHandle(
+    DatasetHandle&& other)
+
+    : _dataset(other._dataset)
+
+{
+    other._dataset = nullptr;
+}
+
+
 /*!
     @brief      Destruct the instance, closing the GDAL dataset.
 */
 DatasetHandle::~DatasetHandle()
 {
-    GDALClose(_dataset);
+    if(_dataset) {
+        GDALClose(_dataset);
+    }
+}
+
+
+/*!
+    @brief      Move-assign a handle.
+
+    The dataset of this handle is closed.
+*/
+DatasetHandle& DatasetHandle::operator=(
+    DatasetHandle&& other)
+{
+    DatasetHandle handle(std::move(other));
+    std::swap(_dataset, handle._dataset);
+
+    return *this;
 }
 
 
diff --git a/source/fern/io/gdal/dataset_handle.h b/source/fern/io/gdal/dataset_handle.h
index 7206c85..f3abdfe 100644
--- a/source/fern/io/gdal/dataset_handle.h
+++ b/source/fern/io/gdal/dataset_handle.h
@@ -33,13 +33,13 @@ public:
 
                    DatasetHandle       (DatasetHandle const& other)=delete;
 
-                   DatasetHandle       (DatasetHandle&& other)=default;
+                   DatasetHandle       (DatasetHandle&& other);
 
                    ~DatasetHandle      ();
 
     DatasetHandle& operator=           (DatasetHandle const& other)=delete;
 
-    DatasetHandle& operator=           (DatasetHandle&& other)=default;
+    DatasetHandle& operator=           (DatasetHandle&& other);
 
     GDALDataset*   operator->          ();
 
diff --git a/source/fern/io/netcdf/core/dataset_handle.cc b/source/fern/io/netcdf/core/dataset_handle.cc
index cc7785c..1471a81 100644
--- a/source/fern/io/netcdf/core/dataset_handle.cc
+++ b/source/fern/io/netcdf/core/dataset_handle.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/io/netcdf/core/dataset_handle.h"
+#include <utility>
 #include <netcdf.h>
 
 
@@ -26,12 +27,44 @@ DatasetHandle::DatasetHandle(
 }
 
 
+/*!
+    @brief      Move-construct a handle.
+
+    The dataset is transferred from @a other, which doesn't close it anymore.
+*/
+DatasetHandle::DatasetHandle(
+    DatasetHandle&& other)
+
+    : _ncid(other._ncid)
+
+{
+    other._ncid = -1;
+}
+
+
 /*!
     @brief      Destruct the instance, closing the NetCDF dataset.
 */
 DatasetHandle::~DatasetHandle()
 {
-    static_cast<void>(nc_close(_ncid));
+    if(_ncid != -1) {
+        static_cast<void>(nc_close(_ncid));
+    }
+}
+
+
+/*!
+    @brief      Move-assign a handle.
+
+    The dataset of this handle is closed.
+*/
+DatasetHandle& DatasetHandle::operator=(
+    DatasetHandle&& other)
+{
+    DatasetHandle handle(std::move(other));
+    std::swap(_ncid, handle._ncid);
+
+    return *this;
 }
 
 
diff --git a/source/fern/io/netcdf/core/dataset_handle.h b/source/fern/io/netcdf/core/dataset_handle.h
index 352f216..98dc01d 100644
--- a/source/fern/io/netcdf/core/dataset_handle.h
+++ b/source/fern/io/netcdf/core/dataset_handle.h
@@ -30,13 +30,13 @@ public:
 
                    DatasetHandle       (DatasetHandle const& other)=delete;
 
-                   DatasetHandle       (DatasetHandle&& other)=default;
+                   DatasetHandle       (DatasetHandle&& other);
 
                    ~DatasetHandle      ();
 
     DatasetHandle& operator=           (DatasetHandle const& other)=delete;
 
-    DatasetHandle& operator=           (DatasetHandle&& other)=default;
+    DatasetHandle& operator=           (DatasetHandle&& other);
 
     int            ncid                () const;
 
-- 
2.43.0


From 1da00ef62ed503fb7cb8bcbfd8d629466f5f945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 32/64] fix: no-data values not representable in the cell type
 marked valid cells

---
 source/fern/io/gdal/detail/read.h | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index 04d2552..7d51d35 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -7,6 +7,8 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cmath>
+#include <type_traits>
 #include <gdal_priv.h>
 #include "fern/core/io_error.h"
 #include "fern/io/gdal/dataset.h"
@@ -28,6 +30,28 @@ void               read                (OutputNoDataPolicy&
                                         Destination& destination);
 
 
+//! Return whether \a value equals the no-data value of a raster band.
+/*!
+  The no-data value of an integral band need not be representable in the value
+  type, in which case no value equals it. The no-data value of a floating point
+  band can be NaN.
+*/
+template<
+    typename Value
+>
+inline bool is_no_data_value(
+    Value const& value,
+    double const no_data_value)
+{
+    return std::is_integral<Value>::value
+        ? static_cast<double>(value) == no_data_value
+        : std::isnan(no_data_value)
+            ? std::isnan(static_cast<double>(value))
+            : value == static_cast<Value>(no_data_value)
+        ;
+}
+
+
 template<
     typename OutputNoDataPolicy,
     typename Destination
@@ -77,8 +101,7 @@ inline void read(
 
 
     int has_no_data;
-    value_type gdal_no_data_value{static_cast<value_type>(
-        band->GetNoDataValue(&has_no_data))};
+    double const gdal_no_data_value{band->GetNoDataValue(&has_no_data)};
 
     // If the raster dataset contains a special no-data value,
     // then mark those special values as no-data values.
@@ -89,7 +112,8 @@ inline void read(
             index_ = index(destination, i, 0);
 
             for(size_t j = 0; j < size(destination, 1); ++j) {
-                if(get(destination, index_) == gdal_no_data_value) {
+                if(is_no_data_value<value_type>(get(destination, index_),
+                        gdal_no_data_value)) {
                     output_no_data_policy.mark_as_no_data(index_);
                 }
 
-- 
2.43.0


From 46cd670c3096d07c8c92f70193b69edd8d8c10af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 33/64] fix: looking for an attribute that is not there threw,
 or failed an assertion

---
 source/fern/language/feature/core/feature.cc | 28 +++++++++++---------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/source/fern/language/feature/core/feature.cc b/source/fern/language/feature/core/feature.cc
index 1c6f331..0349984 100644
--- a/source/fern/language/feature/core/feature.cc
+++ b/source/fern/language/feature/core/feature.cc
@@ -77,6 +77,7 @@ void Feature::add_feature(
     assert(!contains_attribute(path));
 
     Feature* parent_feature = this->parent_feature(path);
+    assert(parent_feature != nullptr);
 
 #ifndef NDEBUG
     auto result =
@@ -165,10 +166,10 @@ std::vector<std::string> Feature::attribute_names() const
 bool Feature::contains_attribute(
     Path const& path) const
 {
-    return path.parent_path().generic_string().empty()
-        ? _attributes.find(path.generic_string()) != _attributes.end()
-        : static_cast<bool>(attribute(path))
-        ;
+    Feature const* parent_feature = this->parent_feature(path);
+
+    return parent_feature != nullptr && parent_feature->_attributes.find(
+        path.filename().generic_string()) != parent_feature->_attributes.end();
 }
 
 
@@ -186,6 +187,7 @@ void Feature::add_attribute(
     assert(!contains_feature(path));
 
     Feature* parent_feature = this->parent_feature(path);
+    assert(parent_feature != nullptr);
 
 #ifndef NDEBUG
     auto result =
@@ -204,6 +206,8 @@ void Feature::add_attribute(
 std::shared_ptr<Attribute> Feature::attribute(
     Path const& path) const
 {
+    assert(contains_attribute(path));
+
     return parent_feature(path)->_attributes.at(
         path.filename().generic_string());
 }
@@ -212,20 +216,20 @@ std::shared_ptr<Attribute> Feature::attribute(
 Feature* Feature::parent_feature(
     Path const& path)
 {
-    assert(path.parent_path().generic_string().empty() ||
-        contains_feature(path.parent_path()));
-    return path.parent_path().generic_string().empty()
-        ? this : feature(path.parent_path()).get();
+    // Whether or not the path is absolute, it is relative to this feature.
+    Path const parent_path(path.parent_path());
+
+    return parent_path.names().empty() ? this : feature(parent_path).get();
 }
 
 
 Feature const* Feature::parent_feature(
     Path const& path) const
 {
-    assert(path.parent_path().generic_string().empty() ||
-        contains_feature(path.parent_path()));
-    return path.parent_path().generic_string().empty()
-        ? this : feature(path.parent_path()).get();
+    // Whether or not the path is absolute, it is relative to this feature.
+    Path const parent_path(path.parent_path());
+
+    return parent_path.names().empty() ? this : feature(parent_path).get();
 }
 
 } // namespace language
-- 
2.43.0


From 85a7301ddb63c11cbbd7a6df0b78db6a35a1636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:31 +0000
Subject: [PATCH 34/64] fix: the number of attributes was the one of the parent

---
 source/fern/language/feature/core/feature.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/feature/core/feature.cc b/source/fern/language/feature/core/feature.cc
index 0349984..945810e 100644
--- a/source/fern/language/feature/core/feature.cc
+++ b/source/fern/language/feature/core/feature.cc
@@ -137,7 +137,8 @@ size_t Feature::nr_attributes() const
 size_t Feature::nr_attributes(
     Path const& path) const
 {
-    return parent_feature(path)->nr_attributes();
+    assert(contains_feature(path));
+    return feature(path)->nr_attributes();
 }
 
 
-- 
2.43.0


From f60842c73000b078f84e74680d7dd4f10a9404d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 35/64] fix: Report invalid numbers of values in UncertML
 documents

Means and variances that do not consist of exactly one value, and variances
that are not positive, ended the process by an assertion. Like other invalid
values, they are reported by a parse error now.
---
 .../language/io/uncertml2/uncertml2_parser.cc  | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/io/uncertml2/uncertml2_parser.cc b/source/fern/language/io/uncertml2/uncertml2_parser.cc
index 4a71876..e30a3eb 100644
--- a/source/fern/language/io/uncertml2/uncertml2_parser.cc
+++ b/source/fern/language/io/uncertml2/uncertml2_parser.cc
@@ -29,12 +29,24 @@ public:
     void mean(
         std::vector<double> const& values)
     {
+        if(values.size() != 1) {
+            throw xsd::cxx::parser::validating::invalid_value<char>(
+                std::string("single mean"),
+                std::to_string(values.size()) + " values");
+        }
+
         _means = values;
     }
 
     void variance(
         std::vector<double> const& values)
     {
+        if(values.size() != 1) {
+            throw xsd::cxx::parser::validating::invalid_value<char>(
+                std::string("single variance"),
+                std::to_string(values.size()) + " values");
+        }
+
         _variances = values;
     }
 
@@ -106,7 +118,11 @@ public:
     void item(
         double value)
     {
-        assert(value > 0.0);
+        if(!(value > 0.0)) {
+            throw xsd::cxx::parser::validating::invalid_value<char>(
+                std::string("positive real number"), std::to_string(value));
+        }
+
         _values.emplace_back(value);
     }
 
-- 
2.43.0


From 04da28d95499c3f6784ffcb0e17f98ab8aa0a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 36/64] fix: Report unexpected root elements of XML documents
 as parse errors

A valid document of another kind (a GPX document of another version, for
example), ended in an exception of the XML library instead of the parse error
that is documented.
---
 source/fern/io/xml/parse.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/fern/io/xml/parse.h b/source/fern/io/xml/parse.h
index 8e477db..68d9947 100644
--- a/source/fern/io/xml/parse.h
+++ b/source/fern/io/xml/parse.h
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include <fstream>
+#include <sstream>
 #include <fern/core/io_error.h>
 #include <fern/core/parse_error.h>
 #include <fern/io/core/file.h>
@@ -64,6 +65,13 @@ inline auto parse(
             exception.diagnostics()[0].column(),
             exception.diagnostics()[0].message());
     }
+    catch(xml_schema::exception const& exception) {
+        // A valid document, but not one with the root element expected.
+        std::ostringstream stream;
+        stream << exception;
+
+        throw ParseError(pathname, 0, 0, stream.str());
+    }
 
 
     assert(document);
-- 
2.43.0


From 1c47545ef3ffb94900d700c931e75bc9abc4bc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 37/64] fix: Read text attributes of netCDF files that include
 the terminator

Programs that write the terminating null character along with the text of an
attribute are common. Reading such an attribute ended in an assertion failing.
---
 source/fern/io/netcdf/core/attribute.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/fern/io/netcdf/core/attribute.cc b/source/fern/io/netcdf/core/attribute.cc
index 6bb0300..f4810e6 100644
--- a/source/fern/io/netcdf/core/attribute.cc
+++ b/source/fern/io/netcdf/core/attribute.cc
@@ -34,7 +34,11 @@ std::string attribute(
         buffer.data());
 
     assert(status == NC_NOERR);
-    assert(buffer.empty() || buffer.back() != '\0');
+
+    // The terminator of the string may have been written too.
+    while(!buffer.empty() && buffer.back() == '\0') {
+        buffer.pop_back();
+    }
 
     return std::string(buffer.begin(), buffer.end());
 }
-- 
2.43.0


From 5822351b5a8083767aa2d0108ac6254ca3e2ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 38/64] fix: Do not treat a Conventions attribute that is not a
 text as one

Reading a dataset with such an attribute ended in an assertion failing. Now it
is reported that the dataset does not conform to the convention, as documented.
---
 source/fern/io/netcdf/core/attribute.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/fern/io/netcdf/core/attribute.cc b/source/fern/io/netcdf/core/attribute.cc
index f4810e6..11fa935 100644
--- a/source/fern/io/netcdf/core/attribute.cc
+++ b/source/fern/io/netcdf/core/attribute.cc
@@ -71,7 +71,8 @@ bool has_attribute(
                 collection of strings.
 
     If the dataset does not contain an global attribute called 'Convensions',
-    then an empty collection is returned.
+    or if the value of this attribute is not a text, then an empty collection
+    is returned.
 
     The value of the conventions attribute is a whitespace or comma
     separated list of convention names. If a comma is found in the attribute
@@ -87,7 +88,10 @@ std::vector<std::string> conventions(
 {
     std::vector<std::string> values;
 
-    if(has_attribute(dataset, "Conventions")) {
+    nc_type type_id{NC_NAT};
+    nc_inq_atttype(dataset.ncid(), NC_GLOBAL, "Conventions", &type_id);
+
+    if(type_id == NC_CHAR) {
 
         // Get the attribute value as a string.
         std::string value{attribute<std::string>(dataset, "Conventions")};
-- 
2.43.0


From 088dfcaec5bc400308ee0587554a2795bec9a917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 39/64] fix: Report netCDF variables that cannot be read as
 requested as I/O errors

read_coards documents an IOError if the data types of the information and the
destination differ and if the source does not contain the requested
information. Both were asserted instead.
---
 source/fern/io/netcdf/coards/detail/read.h | 17 +++++++--
 source/fern/io/netcdf/core/variable.cc     | 40 ++++++++++++++++++++++
 source/fern/io/netcdf/core/variable.h      |  8 +++++
 3 files changed, 62 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/netcdf/coards/detail/read.h b/source/fern/io/netcdf/coards/detail/read.h
index d8dc702..500175d 100644
--- a/source/fern/io/netcdf/coards/detail/read.h
+++ b/source/fern/io/netcdf/coards/detail/read.h
@@ -69,7 +69,13 @@ inline void read_coards(
 
 
     // Verify that the requested variable is in the dataset.
-    assert(data_name.data_pathname().names().size() == 1u);
+    if(data_name.data_pathname().names().size() != 1u) {
+        throw IOError(pathname,
+            Exception::messages().format_message(
+                MessageId::DOES_NOT_CONTAIN_VARIABLE,
+                data_name.data_pathname().generic_string()));
+    }
+
     std::string variable_name{data_name.data_pathname().names()[0]};
     if(!contains_variable(handle, variable_name)) {
         throw IOError(pathname,
@@ -89,8 +95,13 @@ inline void read_coards(
 
     // Verify that the requested variable has the same value type as the
     // variable passed in.
-    ValueType value_type = netcdf::value_type_id(handle, variable_id);
-    assert(fern::value_type_id<fern::value_type<Destination>>() == value_type);
+    if(!variable_has_value_type(handle, variable_id,
+            fern::value_type_id<fern::value_type<Destination>>())) {
+        throw IOError(pathname,
+            Exception::messages().format_message(
+                MessageId::UNSUPPORTED_VALUE_TYPE, variable_name,
+                value_type_name(handle, variable_id)));
+    }
 
 
     // Read the variable.
diff --git a/source/fern/io/netcdf/core/variable.cc b/source/fern/io/netcdf/core/variable.cc
index 6341df7..285d913 100644
--- a/source/fern/io/netcdf/core/variable.cc
+++ b/source/fern/io/netcdf/core/variable.cc
@@ -141,6 +141,46 @@ ValueType value_type_id(
     return value_type_id(type_id);
 }
 
+
+bool variable_has_value_type(
+    DatasetHandle const& dataset,
+    int variable_id,
+    ValueType value_type)
+{
+    nc_type type_id;
+    int status = nc_inq_vartype(dataset.ncid(), variable_id, &type_id);
+
+    assert(status != NC_EBADID);
+    assert(status != NC_ENOTVAR);
+    assert(status == NC_NOERR);
+
+    // User-defined types are not in the map.
+    auto value_type_it = value_type_map.find(type_id);
+
+    return value_type_it != value_type_map.end() &&
+        value_type_it->second == value_type;
+}
+
+
+std::string value_type_name(
+    DatasetHandle const& dataset,
+    int variable_id)
+{
+    nc_type type_id;
+    int status = nc_inq_vartype(dataset.ncid(), variable_id, &type_id);
+
+    assert(status != NC_EBADID);
+    assert(status != NC_ENOTVAR);
+    assert(status == NC_NOERR);
+
+    char name[NC_MAX_NAME + 1];
+    status = nc_inq_type(dataset.ncid(), type_id, name, nullptr);
+
+    assert(status == NC_NOERR);
+
+    return name;
+}
+
 } // namespace netcdf
 } // namespace io
 } // namespace fern
diff --git a/source/fern/io/netcdf/core/variable.h b/source/fern/io/netcdf/core/variable.h
index 4c0fbd9..2e5a8f2 100644
--- a/source/fern/io/netcdf/core/variable.h
+++ b/source/fern/io/netcdf/core/variable.h
@@ -29,6 +29,14 @@ bool               variable_is_scalar  (DatasetHandle const& dataset,
 ValueType          value_type_id       (DatasetHandle const& dataset,
                                         int variable_id);
 
+bool               variable_has_value_type(
+                                        DatasetHandle const& dataset,
+                                        int variable_id,
+                                        ValueType value_type);
+
+std::string        value_type_name     (DatasetHandle const& dataset,
+                                        int variable_id);
+
 /*!
     @ingroup    fern_io_netcdf_group
     @brief      Read variable @a variable_id from @a dataset into
-- 
2.43.0


From ac25c4b555546b45122e8485eda145a4f2a5d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 40/64] fix: Report rasters that cannot be read as requested as
 I/O errors

read documents an IOError if the data types of the information and the
destination differ, if the source does not contain the requested information
and if it cannot be read. These were asserted instead.
---
 source/fern/io/gdal/dataset.cc    |  8 +++++---
 source/fern/io/gdal/detail/read.h | 13 +++++++++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/source/fern/io/gdal/dataset.cc b/source/fern/io/gdal/dataset.cc
index ac8499c..5b1869e 100644
--- a/source/fern/io/gdal/dataset.cc
+++ b/source/fern/io/gdal/dataset.cc
@@ -65,8 +65,8 @@ DatasetHandle open_dataset(
     @ingroup    fern_io_gdal_group
     @brief      Return the GDAL raster band @a band_id from @a dataset.
     @param      band_id Id of the raster band to return.
-    @todo       Raise IOError in case @a dataset does not contain a raster
-                band with id @a band_id.
+    @exception  IOError In case @a dataset does not contain a raster band
+                with id @a band_id.
 */
 GDALRasterBand* raster_band(
     DatasetHandle& dataset,
@@ -77,7 +77,9 @@ GDALRasterBand* raster_band(
     int nr_bands{dataset->GetRasterCount()};
 
     if(band_id > nr_bands) {
-        assert(false);
+        throw IOError(dataset->GetDescription(),
+            Exception::messages().format_message(
+                MessageId::DOES_NOT_CONTAIN_DATA, band_id));
     }
 
     GDALRasterBand* band{dataset->GetRasterBand(band_id)};
diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index 7d51d35..2d5f098 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -88,15 +88,20 @@ inline void read(
     // Verify that the elements in the raster to read have the same value
     // type as the variable passed in.
     GDALDataType gdal_value_type{band->GetRasterDataType()};
-    assert(ValueTypeTraits<value_type>::gdal_value_type == gdal_value_type);
 
-    // TODO Exception if not.
+    if(ValueTypeTraits<value_type>::gdal_value_type != gdal_value_type) {
+        throw IOError(data_name.database_pathname().native_string(),
+            Exception::messages().format_message(
+                MessageId::UNSUPPORTED_VALUE_TYPE,
+                data_name.data_pathname().generic_string(),
+                GDALGetDataTypeName(gdal_value_type)));
+    }
 
     if(band->RasterIO(GF_Read, 0, 0, nr_cols, nr_rows, data(destination),
             nr_cols, nr_rows, ValueTypeTraits<value_type>::gdal_value_type,
             0, 0) != CE_None) {
-        // TODO
-        assert(false);
+        throw IOError(data_name.database_pathname().native_string(),
+            Exception::messages()[MessageId::CANNOT_BE_READ]);
     }
 
 
-- 
2.43.0


From 436b5b829bf2fef0aaf016ff9810ff52dcc50ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 41/64] fix: Draw 8 bit integers as numbers

The values of int8 and uint8 numbers were added to the labels of vertices as
characters, including non-printable ones and the null character.
---
 source/fern/language/ast/visitor/ast_dot_visitor.cc       | 2 +-
 source/fern/language/ast/visitor/flowgraph_dot_visitor.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/ast_dot_visitor.cc b/source/fern/language/ast/visitor/ast_dot_visitor.cc
index 19b7855..574b2ce 100644
--- a/source/fern/language/ast/visitor/ast_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/ast_dot_visitor.cc
@@ -156,7 +156,7 @@ void AstDotVisitor::Visit(
                     "];\n")
                     % &vertex
                     % annotate_expression_label(
-                        (boost::format("%1%") % vertex.value()).str(), vertex)
+                        (boost::format("%1%") % +vertex.value()).str(), vertex)
             ).str());
 
             break;
diff --git a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
index 85081e1..69f520d 100644
--- a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
@@ -270,7 +270,7 @@ void FlowgraphDotVisitor::Visit(
             add_script(
                 (boost::format("\"%1%\"") % &vertex).str() +
                 " [label=\"" +
-                (boost::format("%1%") % vertex.value()).str() +
+                (boost::format("%1%") % +vertex.value()).str() +
                 "\", fontname=courier, shape=box];\n"
             );
             break;
-- 
2.43.0


From dc13b712b8a26347529366c122c2859708ca3336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 42/64] fix: Escape quotes and backslashes in the labels of
 drawings

A string or a source name that contains one of these characters resulted in a
text that is not a graph in the DOT language, or in another label.
---
 .../language/ast/visitor/ast_dot_visitor.cc     |  4 ++--
 source/fern/language/ast/visitor/dot_visitor.cc | 17 +++++++++++++++++
 source/fern/language/ast/visitor/dot_visitor.h  |  2 ++
 .../ast/visitor/flowgraph_dot_visitor.cc        |  2 +-
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/source/fern/language/ast/visitor/ast_dot_visitor.cc b/source/fern/language/ast/visitor/ast_dot_visitor.cc
index 574b2ce..5efaf6a 100644
--- a/source/fern/language/ast/visitor/ast_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/ast_dot_visitor.cc
@@ -558,7 +558,7 @@ void AstDotVisitor::Visit(
         case Mode::Declaring: {
             add_script(
                 (boost::format("\"%1%\"") % &vertex).str() +
-                " [label=\"\\\"" + vertex.value() +
+                " [label=\"\\\"" + escaped(vertex.value()) +
                 "\\\"\", fontname=courier, shape=box];\n"
             );
             break;
@@ -636,7 +636,7 @@ void AstDotVisitor::Visit(
                 "subgraph cluster_%1% {\n"
                     "label=\"%2%\";\n")
                 % &vertex
-                % _scope_names.top()).str());
+                % escaped(_scope_names.top())).str());
 
             for(auto statement_vertex: vertex.statements()) {
                 add_ast_vertex(vertex, *statement_vertex);
diff --git a/source/fern/language/ast/visitor/dot_visitor.cc b/source/fern/language/ast/visitor/dot_visitor.cc
index 560d67d..4ef18bc 100644
--- a/source/fern/language/ast/visitor/dot_visitor.cc
+++ b/source/fern/language/ast/visitor/dot_visitor.cc
@@ -32,5 +32,22 @@ void DotVisitor::add_script(
     _script += string;
 }
 
+
+//! Return \a string as it must be written in a quoted label.
+std::string DotVisitor::escaped(
+    std::string const& string)
+{
+    std::string result;
+
+    for(auto character: string) {
+        if(character == '"' || character == '\\') {
+            result += '\\';
+        }
+        result += character;
+    }
+
+    return result;
+}
+
 } // namespace language
 } // namespace fern
diff --git a/source/fern/language/ast/visitor/dot_visitor.h b/source/fern/language/ast/visitor/dot_visitor.h
index 8dec5b3..0bb92f3 100644
--- a/source/fern/language/ast/visitor/dot_visitor.h
+++ b/source/fern/language/ast/visitor/dot_visitor.h
@@ -47,6 +47,8 @@ protected:
 
     void           add_script          (std::string const& string);
 
+    static std::string escaped         (std::string const& string);
+
 private:
 
     std::string    _script;
diff --git a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
index 69f520d..c6501e8 100644
--- a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
@@ -386,7 +386,7 @@ void FlowgraphDotVisitor::Visit(
         case Mode::Declaring: {
             add_script(
                 (boost::format("\"%1%\"") % &vertex).str() +
-                " [label=\"\\\"" + vertex.value() +
+                " [label=\"\\\"" + escaped(vertex.value()) +
                 "\\\"\", fontname=courier, shape=box];\n"
             );
             break;
-- 
2.43.0


From 5e19cb1b6bb7bf649a82c82524c6a432bc5d2cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 43/64] fix: Draw the blocks of if and while

Scopes are no visitable vertices: accepting a visitor did nothing, and the
statements in the blocks were not drawn.
---
 source/fern/language/ast/visitor/ast_dot_visitor.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/ast/visitor/ast_dot_visitor.cc b/source/fern/language/ast/visitor/ast_dot_visitor.cc
index 5efaf6a..8074d5a 100644
--- a/source/fern/language/ast/visitor/ast_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/ast_dot_visitor.cc
@@ -426,8 +426,8 @@ void AstDotVisitor::Visit(
     }
 
     vertex.condition()->Accept(*this);
-    vertex.true_scope()->Accept(*this);
-    vertex.false_scope()->Accept(*this);
+    Visit(*vertex.true_scope());
+    Visit(*vertex.false_scope());
     // for(auto statement_vertex: vertex.true_scope()->statements()) {
     //     statement_vertex->Accept(*this);
     // }
@@ -608,8 +608,8 @@ void AstDotVisitor::Visit(
     }
 
     vertex.condition()->Accept(*this);
-    vertex.true_scope()->Accept(*this);
-    vertex.false_scope()->Accept(*this);
+    Visit(*vertex.true_scope());
+    Visit(*vertex.false_scope());
     // for(auto statement_vertex: vertex.true_scope()->statements()) {
     //     statement_vertex->Accept(*this);
     // }
-- 
2.43.0


From 77ca76f1c13bd909f45860d008dafdd2063064cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 44/64] fix: Update the value of a target when its expression
 is replaced

OptimizeVisitor inlined the old value of the target, and erased the wrong
assignment of a chain of assignments: a = p, d = a, e = d became d = p.
---
 source/fern/language/ast/core/assignment_vertex.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/fern/language/ast/core/assignment_vertex.cc b/source/fern/language/ast/core/assignment_vertex.cc
index 08e2148..5ad3da0 100644
--- a/source/fern/language/ast/core/assignment_vertex.cc
+++ b/source/fern/language/ast/core/assignment_vertex.cc
@@ -47,6 +47,7 @@ void AssignmentVertex::set_expression(
 {
     assert(expression);
     _expression = expression;
+    _target->set_value(_expression);
 }
 
 
-- 
2.43.0


From de0c94c741a762f9717971e3128c4b0e394cbf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:58 +0000
Subject: [PATCH 45/64] fix: Only names with a value are known to the
 interpreter

The types of all names of validated programs were kept, also of programs that
were rejected, or only validated, and of sources that were not read. A later
program that uses such a name passed validation, and failed when executed.
---
 .../language/ast/visitor/annotate_visitor.cc     | 16 ++++++++++++++++
 .../fern/language/ast/visitor/annotate_visitor.h |  5 +++++
 source/fern/language/interpreter/interpreter.cc  | 14 ++++++++++++++
 source/fern/language/interpreter/interpreter.h   |  4 ++++
 4 files changed, 39 insertions(+)

diff --git a/source/fern/language/ast/visitor/annotate_visitor.cc b/source/fern/language/ast/visitor/annotate_visitor.cc
index 88255ac..248c5c5 100644
--- a/source/fern/language/ast/visitor/annotate_visitor.cc
+++ b/source/fern/language/ast/visitor/annotate_visitor.cc
@@ -85,6 +85,22 @@ void AnnotateVisitor::add_global_symbols(
 }
 
 
+//! Replace all global symbols by those in \a symbol_table.
+void AnnotateVisitor::set_global_symbols(
+    SymbolTable<ExpressionType> const& symbol_table)
+{
+    assert(_symbol_table.scope_level() == 1u);
+    _symbol_table.clear_scope();
+    add_global_symbols(symbol_table);
+}
+
+
+SymbolTable<ExpressionType> const& AnnotateVisitor::symbol_table() const
+{
+    return _symbol_table;
+}
+
+
 void AnnotateVisitor::Visit(
     AssignmentVertex& vertex)
 {
diff --git a/source/fern/language/ast/visitor/annotate_visitor.h b/source/fern/language/ast/visitor/annotate_visitor.h
index f2679d8..9dd86e7 100644
--- a/source/fern/language/ast/visitor/annotate_visitor.h
+++ b/source/fern/language/ast/visitor/annotate_visitor.h
@@ -76,6 +76,11 @@ public:
     void           add_global_symbols  (SymbolTable<ExpressionType> const&
                                             symbol_table);
 
+    void           set_global_symbols  (SymbolTable<ExpressionType> const&
+                                            symbol_table);
+
+    SymbolTable<ExpressionType> const& symbol_table() const;
+
     std::stack<ExpressionType> const& stack() const;
 
     // void           reset               ();
diff --git a/source/fern/language/interpreter/interpreter.cc b/source/fern/language/interpreter/interpreter.cc
index 8c73dec..f45ca94 100644
--- a/source/fern/language/interpreter/interpreter.cc
+++ b/source/fern/language/interpreter/interpreter.cc
@@ -59,9 +59,11 @@ Interpreter::Interpreter()
       _xml_parser(),
       _annotate_visitor(_operations),
       _validate_visitor(),
+      _expression_types(),
       _back_end(std::make_shared<ExecuteVisitor>(_operations))
 
 {
+    _expression_types.push_scope();
 }
 
 
@@ -266,6 +268,17 @@ void Interpreter::annotate(
     IdentifyVisitor identify_visitor;
     tree->Accept(identify_visitor);
 
+    // Only variables that have a value are known. Programs that were only
+    // validated, or that were rejected, don't define symbols. Neither do
+    // sources of previous programs that were never read.
+    SymbolTable<ExpressionType> global_symbols;
+    global_symbols.push_scope();
+    for(auto const& pair: _expression_types.scope(1u)) {
+        if(_back_end->symbol_table().has_value(pair.first)) {
+            global_symbols.add_value(pair.first, pair.second);
+        }
+    }
+    _annotate_visitor.set_global_symbols(global_symbols);
     _annotate_visitor.add_global_symbols(expression_types(symbol_table));
     tree->Accept(_annotate_visitor);
 }
@@ -418,6 +431,7 @@ void Interpreter::execute(
     DataSyncSymbolTable const& data_sync_symbol_table)
 {
     validate(tree, data_source_symbol_table);
+    _expression_types = _annotate_visitor.symbol_table();
 
 // TODO This doesn't work yet. We must handle read calls or forbid them.
 // #ifndef NDEBUG
diff --git a/source/fern/language/interpreter/interpreter.h b/source/fern/language/interpreter/interpreter.h
index 61a883d..bf0d85b 100644
--- a/source/fern/language/interpreter/interpreter.h
+++ b/source/fern/language/interpreter/interpreter.h
@@ -90,6 +90,10 @@ private:
 
     ValidateVisitor _validate_visitor;
 
+    //! Types of the symbols in the last program that passed validation and
+    //! was executed.
+    SymbolTable<ExpressionType> _expression_types;
+
     std::shared_ptr<ExecuteVisitor> _back_end;
 
 };
-- 
2.43.0


From b1b64624f08d2294398948c9d7d40c75a84eafc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 46/64] fix: Test the permissions of files with std::filesystem

There is no std::filesystem::owner_write: the file did not compile.
---
 source/fern/language/io/core/file.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/io/core/file.cc b/source/fern/language/io/core/file.cc
index 6794029..f8ac0ff 100644
--- a/source/fern/language/io/core/file.cc
+++ b/source/fern/language/io/core/file.cc
@@ -14,6 +14,14 @@
 namespace fern {
 namespace language {
 
+static bool owner_can_write(
+    std::filesystem::file_status const& status)
+{
+    return (status.permissions() & std::filesystem::perms::owner_write) !=
+        std::filesystem::perms::none;
+}
+
+
 //! Return whether \a path points to a regular file or a symbolic link pointing to a regular file.
 /*!
   \param     path Path of file to check.
@@ -57,7 +65,7 @@ bool file_is_writable(
         return false;
     }
 
-    if(fs::is_regular_file(status) && status.permissions() & fs::owner_write) {
+    if(fs::is_regular_file(status) && owner_can_write(status)) {
         return true;
     }
 
@@ -65,7 +73,7 @@ bool file_is_writable(
     status = fs::status(pathname);
 
     return fs::exists(status) && fs::is_regular_file(status) &&
-        status.permissions() & fs::owner_write;
+        owner_can_write(status);
 }
 
 
@@ -85,7 +93,7 @@ bool directory_is_writable(
         return false;
     }
 
-    if(fs::is_directory(status) && status.permissions() & fs::owner_write) {
+    if(fs::is_directory(status) && owner_can_write(status)) {
         return true;
     }
 
@@ -93,7 +101,7 @@ bool directory_is_writable(
     status = fs::status(pathname);
 
     return fs::exists(status) && fs::is_directory(status) &&
-        status.permissions() & fs::owner_write;
+        owner_can_write(status);
 }
 
 
-- 
2.43.0


From bed2c31067d053ee18c2af2db660b09ab7535a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 47/64] fix: Look for objects in features that are not there

H5Lexists returns a negative value when an object on the way to the path is
not there. This was taken for true, after which an assertion failed.
---
 source/fern/language/io/fern/hdf5_file.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/io/fern/hdf5_file.cc b/source/fern/language/io/fern/hdf5_file.cc
index 99617d5..1bb474c 100644
--- a/source/fern/language/io/fern/hdf5_file.cc
+++ b/source/fern/language/io/fern/hdf5_file.cc
@@ -72,7 +72,7 @@ bool HDF5File::is_group(
     assert(_file_id > 0);
     bool result = false;
 
-    if(H5Lexists(_file_id, pathname.c_str(), H5P_DEFAULT)) {
+    if(H5Lexists(_file_id, pathname.c_str(), H5P_DEFAULT) > 0) {
         H5G_stat_t info;
 
         herr_t status = H5Gget_objinfo(_file_id, pathname.c_str(), 0, &info);
@@ -92,7 +92,7 @@ bool HDF5File::is_dataset(
     assert(_file_id > 0);
     bool result = false;
 
-    if(H5Lexists(_file_id, pathname.c_str(), H5P_DEFAULT)) {
+    if(H5Lexists(_file_id, pathname.c_str(), H5P_DEFAULT) > 0) {
         H5G_stat_t info;
 
         herr_t status = H5Gget_objinfo(_file_id, pathname.c_str(), 0, &info);
-- 
2.43.0


From 52f82f7629e73886c86189ebe368eda3bc012e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 48/64] fix: Close the types of attributes

Each time the type of an attribute was determined, three handles stayed open.
---
 source/fern/language/io/fern/fern_dataset.cc | 6 ++++++
 source/fern/language/io/fern/hdf5_dataset.cc | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/io/fern/fern_dataset.cc b/source/fern/language/io/fern/fern_dataset.cc
index 57a67bf..e25f6ae 100644
--- a/source/fern/language/io/fern/fern_dataset.cc
+++ b/source/fern/language/io/fern/fern_dataset.cc
@@ -159,6 +159,9 @@ ValueType FernDataset::value_type(
         UNSUPPORTED_TYPE_CLASS_CASE(H5T_NCLASSES)
     }
 
+    herr_t const status = H5Tclose(type);
+    assert(status == 0);
+
     return result;
 }
 
@@ -404,6 +407,9 @@ ExpressionType FernDataset::expression_type(
         UNSUPPORTED_TYPE_CLASS_CASE(H5T_NCLASSES)
     }
 
+    herr_t const status = H5Tclose(type);
+    assert(status == 0);
+
     return result;
 }
 
diff --git a/source/fern/language/io/fern/hdf5_dataset.cc b/source/fern/language/io/fern/hdf5_dataset.cc
index ed013b3..340fad2 100644
--- a/source/fern/language/io/fern/hdf5_dataset.cc
+++ b/source/fern/language/io/fern/hdf5_dataset.cc
@@ -80,7 +80,13 @@ hid_t HDF5Dataset::type() const
 H5T_class_t HDF5Dataset::type_class() const
 {
     assert(_dataset_id > 0);
-    return H5Tget_class(type());
+
+    hid_t type = this->type();
+    H5T_class_t result = H5Tget_class(type);
+    herr_t status = H5Tclose(type);
+    assert(status == 0);
+
+    return result;
 }
 
 
-- 
2.43.0


From af42f370d4346b2c4b493a4eac7829dad7b4183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 49/64] fix: Keep a file when asking whether it can be
 overwritten

FernDriver::can_open truncated an existing file, and created a new one.
A directory cannot be overwritten.
---
 source/fern/language/io/fern/fern_driver.cc | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/source/fern/language/io/fern/fern_driver.cc b/source/fern/language/io/fern/fern_driver.cc
index 0728227..7167393 100644
--- a/source/fern/language/io/fern/fern_driver.cc
+++ b/source/fern/language/io/fern/fern_driver.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/language/io/fern/fern_driver.h"
+#include <filesystem>
 #include "fern/core/data_name.h"
 #include "fern/language/feature/visitor/attribute_type_visitor.h"
 #include "fern/language/io/core/file.h"
@@ -60,19 +61,9 @@ bool FernDriver::can_open_for_update(
 bool FernDriver::can_open_for_overwrite(
     std::string const& name)
 {
-    bool result = false;
-
-    try {
-        open_file(name, OpenMode::OVERWRITE);
-        result = true;
-    }
-    catch(...) {
-    }
-
-    return result;
-
-    // return (file_exists(name) && can_open_for_update(name)) ||
-    //     directory_is_writable(Path(name).parent_path());
+    // Opening the file would truncate it.
+    return std::filesystem::exists(name) ? file_is_writable(name) :
+        directory_is_writable(Path(name).parent_path());
 }
 
 
-- 
2.43.0


From 17b65862834966a042e401332bf5c08135c01ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 50/64] fix: Ask drivers that can only create datasets

Such GDAL drivers have no function for opening datasets. Calling it ended the
process. All drivers are asked when no format is passed.
---
 source/fern/language/io/gdal/gdal_dataset.cc | 8 ++++----
 source/fern/language/io/gdal/gdal_driver.cc  | 8 ++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/fern/language/io/gdal/gdal_dataset.cc b/source/fern/language/io/gdal/gdal_dataset.cc
index 7e66634..e424cd5 100644
--- a/source/fern/language/io/gdal/gdal_dataset.cc
+++ b/source/fern/language/io/gdal/gdal_dataset.cc
@@ -27,8 +27,8 @@ namespace {
     std::string const& name)
 {
     GDALOpenInfo open_info(name.c_str(), GA_ReadOnly);
-    ::GDALDataset* dataset = static_cast<::GDALDataset*>(driver.pfnOpen(
-        &open_info));
+    ::GDALDataset* dataset = driver.pfnOpen
+        ? static_cast<::GDALDataset*>(driver.pfnOpen(&open_info)) : nullptr;
 
     if(!dataset) {
         if(!file_exists(name)) {
@@ -50,8 +50,8 @@ namespace {
     std::string const& name)
 {
     GDALOpenInfo open_info(name.c_str(), GA_Update);
-    ::GDALDataset* dataset = static_cast<::GDALDataset*>(driver.pfnOpen(
-        &open_info));
+    ::GDALDataset* dataset = driver.pfnOpen
+        ? static_cast<::GDALDataset*>(driver.pfnOpen(&open_info)) : nullptr;
 
     if(!dataset) {
         if(!file_exists(name)) {
diff --git a/source/fern/language/io/gdal/gdal_driver.cc b/source/fern/language/io/gdal/gdal_driver.cc
index b4bc57c..2ee0116 100644
--- a/source/fern/language/io/gdal/gdal_driver.cc
+++ b/source/fern/language/io/gdal/gdal_driver.cc
@@ -79,7 +79,9 @@ bool GDALDriver::can_open_for_read(
     std::string const& name)
 {
     GDALOpenInfo open_info(name.c_str(), GA_ReadOnly);
-    GDALDatasetPtr dataset(_driver->pfnOpen(&open_info), deleter);
+    // Some drivers can only create datasets.
+    GDALDatasetPtr dataset(_driver->pfnOpen ? _driver->pfnOpen(&open_info) :
+        nullptr, deleter);
     return static_cast<bool>(dataset);
 }
 
@@ -88,7 +90,9 @@ bool GDALDriver::can_open_for_update(
     std::string const& name)
 {
     GDALOpenInfo open_info(name.c_str(), GA_Update);
-    GDALDatasetPtr dataset(_driver->pfnOpen(&open_info), deleter);
+    // Some drivers can only create datasets.
+    GDALDatasetPtr dataset(_driver->pfnOpen ? _driver->pfnOpen(&open_info) :
+        nullptr, deleter);
     return static_cast<bool>(dataset);
 }
 
-- 
2.43.0


From 9cd6f544bc351419d67b71764126bbccc0700f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 51/64] fix: Write rasters with the rows from north to south

The cell height in the geo transform was positive, which places the raster
north of its extent, upside down.
---
 source/fern/language/io/gdal/gdal_dataset.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/io/gdal/gdal_dataset.cc b/source/fern/language/io/gdal/gdal_dataset.cc
index e424cd5..ed1f0de 100644
--- a/source/fern/language/io/gdal/gdal_dataset.cc
+++ b/source/fern/language/io/gdal/gdal_dataset.cc
@@ -607,10 +607,11 @@ void GDALDataset::write_attribute(
         geo_transform[2] = 0.0;
         geo_transform[3] = get<1>(box.max_corner());  // north
         geo_transform[4] = 0.0;
+        // Rows are ordered from north to south.
         geo_transform[5] =
-            (get<1>(box.max_corner()) - get<1>(box.min_corner())) / nr_rows;
+            (get<1>(box.min_corner()) - get<1>(box.max_corner())) / nr_rows;
         assert(geo_transform[1] > 0.0);
-        assert(geo_transform[1] == geo_transform[5]);
+        assert(geo_transform[1] == -geo_transform[5]);
     }
 
     if(_dataset->SetGeoTransform(geo_transform) != CE_None) {
-- 
2.43.0


From c81cf1ca63ef587b3115ccfa12438c0de4b5b9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 52/64] fix: Update the mask of a raster that has one

Cells that were masked stayed masked after writing values without a mask.
---
 source/fern/language/io/gdal/gdal_dataset.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/io/gdal/gdal_dataset.cc b/source/fern/language/io/gdal/gdal_dataset.cc
index ed1f0de..1df0446 100644
--- a/source/fern/language/io/gdal/gdal_dataset.cc
+++ b/source/fern/language/io/gdal/gdal_dataset.cc
@@ -629,7 +629,9 @@ void GDALDataset::write_attribute(
             Exception::messages()[MessageId::CANNOT_BE_WRITTEN]);
     }
 
-    if(array.has_masked_values()) {
+    // A mask that is already there must not hide the new values.
+    if(array.has_masked_values() ||
+            (band->GetMaskFlags() & GMF_PER_DATASET)) {
         // This assumes the dataset contains onle one band. The mask is taken to
         // be global to the dataset.
         if(band->CreateMaskBand(GMF_PER_DATASET) != CE_None) {
-- 
2.43.0


From 844c5eb97544b31d5dc55dd110535840cab55185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 53/64] fix: Read arguments from datasets that exist

---
 source/fern/language/compiler/parse_command_line.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/fern/language/compiler/parse_command_line.cc b/source/fern/language/compiler/parse_command_line.cc
index 6c1cdbc..cb9a284 100644
--- a/source/fern/language/compiler/parse_command_line.cc
+++ b/source/fern/language/compiler/parse_command_line.cc
@@ -41,8 +41,7 @@ std::shared_ptr<DataSource> data_source(
             OpenMode::READ)) {
         result = std::make_shared<DatasetSource>(data_name);
     }
-
-    if(is_convertable_to<int64_t>(value)) {
+    else if(is_convertable_to<int64_t>(value)) {
         result = std::make_shared<ConstantSource<int64_t>>(as<int64_t>(value));
     }
     else if(is_convertable_to<double>(value)) {
-- 
2.43.0


From b194a37377c9c60d22d7fef8c6930c444733bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 54/64] fix: Refuse to compile to a directory that cannot be
 written to

---
 source/fern/language/compiler/compiler.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/compiler/compiler.cc b/source/fern/language/compiler/compiler.cc
index ba86b50..519ed8a 100644
--- a/source/fern/language/compiler/compiler.cc
+++ b/source/fern/language/compiler/compiler.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/language/compiler/compiler.h"
+#include "fern/core/io_error.h"
 #include "fern/core/string.h"
 #include "fern/language/io/core/file.h"
 #include "fern/language/operation/std/operations.h"
@@ -59,8 +60,10 @@ void Compiler::compile(
         source_module_path.generic_string());
     assert(module_vertex);
 
-    // TODO Exception.
-    assert(directory_is_writable(destination_module_path));
+    if(!directory_is_writable(destination_module_path)) {
+        throw IOError(destination_module_path.generic_string(),
+            Exception::messages()[MessageId::CANNOT_BE_WRITTEN]);
+    }
 
     std::string model_name =
         Path(module_vertex->source_name()).filename().stem().generic_string();
-- 
2.43.0


From d01b086914c5af1c84c123bb6f3abd2039bae47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 55/64] fix: Tell that results cannot be written

---
 source/fern/language/command/command.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/fern/language/command/command.cc b/source/fern/language/command/command.cc
index 84c2463..fbec626 100644
--- a/source/fern/language/command/command.cc
+++ b/source/fern/language/command/command.cc
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 #include "fern/language/command/command.h"
 #include <fstream>
+#include "fern/core/io_error.h"
 #include "fern/language/script/algebra_parser.h"
 
 
@@ -90,6 +91,12 @@ void Command::write(
     else {
         std::ofstream file(filename.c_str());
         file << contents;
+        file.flush();
+
+        if(!file.good()) {
+            throw IOError(filename,
+                Exception::messages()[MessageId::CANNOT_BE_WRITTEN]);
+        }
     }
 }
 
-- 
2.43.0


From 9a47dc670c1037db12aeb5889e7cfb377c8934ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 56/64] fix: Describe datasets and features

---
 source/fern/language/command/describe_command.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/fern/language/command/describe_command.cc b/source/fern/language/command/describe_command.cc
index 06b776e..1b812ba 100644
--- a/source/fern/language/command/describe_command.cc
+++ b/source/fern/language/command/describe_command.cc
@@ -43,10 +43,9 @@ DescribeCommand::DescribeCommand(
 
 
 void DescribeCommand::describe_feature(
-    Dataset const& dataset,
+    Dataset const& /* dataset */,
     Path const& path) const
 {
-    auto feature = dataset.open_feature(path);
     std::cout << "feature: " << path << std::endl;
     // TODO
 }
@@ -74,7 +73,7 @@ void DescribeCommand::describe(
             data_name.database_pathname().generic_string(), OpenMode::READ);
         assert(dataset);
 
-        if(!data_name.data_pathname().is_empty()) {
+        if(data_name.data_pathname().generic_string() != "/") {
             // Describe data pointed to by pathname.
             if(dataset->contains_feature(data_name.data_pathname())) {
                 // Describe feature.
-- 
2.43.0


From 0942b93d42a2caea446e1fcef527e9b7685e11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 57/64] fix: Refuse a third argument when compiling to dot,
 show the right help

---
 source/fern/language/command/compile_command.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/command/compile_command.cc b/source/fern/language/command/compile_command.cc
index 3a2b233..da21eda 100644
--- a/source/fern/language/command/compile_command.cc
+++ b/source/fern/language/command/compile_command.cc
@@ -252,7 +252,7 @@ int CompileCommand::compile_to_dot_ast(
             show_compile_dot_ast_help();
             status = EXIT_FAILURE;
         }
-        else if(argc - current_argument_id > 3) {
+        else if(argc - current_argument_id > 2) {
             std::cerr << "Too many arguments.\n";
             show_compile_dot_ast_help();
             status = EXIT_FAILURE;
@@ -303,12 +303,12 @@ int CompileCommand::compile_to_dot_flowgraph(
 
         if(current_argument_id == argc) {
             std::cerr << "Not enough arguments.\n";
-            show_compile_dot_ast_help();
+            show_compile_dot_flowgraph_help();
             status = EXIT_FAILURE;
         }
-        else if(argc - current_argument_id > 3) {
+        else if(argc - current_argument_id > 2) {
             std::cerr << "Too many arguments.\n";
-            show_compile_dot_ast_help();
+            show_compile_dot_flowgraph_help();
             status = EXIT_FAILURE;
         }
         else {
-- 
2.43.0


From 11c4a92a928a32ddfc29aa32aeaaeb0d7c29063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 58/64] fix: Refuse unknown commands, and tell why a command
 failed

---
 source/fern/language/command/fern.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/source/fern/language/command/fern.cc b/source/fern/language/command/fern.cc
index a6f4d92..21e4c18 100644
--- a/source/fern/language/command/fern.cc
+++ b/source/fern/language/command/fern.cc
@@ -113,14 +113,18 @@ int main(
             status = EXIT_FAILURE;
         }
 
-        assert(command);
-
-        try {
-            status = command->execute();
-        }
-        catch(std::exception const& exception) {
-            std::cerr << exception.what() << '\n';
-            status = EXIT_FAILURE;
+        if(command) {
+            try {
+                status = command->execute();
+            }
+            catch(fern::Exception const& exception) {
+                std::cerr << exception.message() << '\n';
+                status = EXIT_FAILURE;
+            }
+            catch(std::exception const& exception) {
+                std::cerr << exception.what() << '\n';
+                status = EXIT_FAILURE;
+            }
         }
     }
 
-- 
2.43.0


From fe6062830ac77df4a12ad134dc11ba804da34f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 59/64] fix: Refuse rasters of value types that the Python
 bindings do not know

---
 source/fern/python/core/switch_on_value_type.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/source/fern/python/core/switch_on_value_type.h b/source/fern/python/core/switch_on_value_type.h
index 0707451..17ac307 100644
--- a/source/fern/python/core/switch_on_value_type.h
+++ b/source/fern/python/core/switch_on_value_type.h
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 // VT_BOOL, VT_CHAR and VT_STRING are not exposed in Python, so they shouldn't
 // be passed in.
+#include <stdexcept>
 
 
 //     case_(VT_INT8, int8_t)      
@@ -31,7 +32,8 @@ switch(value_type) {            \
     case VT_UINT16:             \
     case VT_INT16:              \
     case VT_STRING: {           \
-        assert(false);          \
+        throw std::invalid_argument( \
+            "unsupported value type"); \
     }                           \
 }
 
@@ -58,7 +60,8 @@ switch(value_type) {                         \
     case VT_UINT16:             \
     case VT_INT16:              \
     case VT_STRING: {                        \
-        assert(false);                       \
+        throw std::invalid_argument(         \
+            "unsupported value type");       \
     }                                        \
 }
 
@@ -85,7 +88,8 @@ switch(value_type) {                         \
     case VT_UINT16:             \
     case VT_INT16:              \
     case VT_STRING: {                        \
-        assert(false);                       \
+        throw std::invalid_argument(         \
+            "unsupported value type");       \
     }                                        \
 }
 
@@ -112,7 +116,8 @@ switch(value_type) {                         \
     case VT_UINT16:             \
     case VT_INT16:              \
     case VT_STRING: {                        \
-        assert(false);                       \
+        throw std::invalid_argument(         \
+            "unsupported value type");       \
     }                                        \
 }
 
@@ -124,6 +129,7 @@ switch(value_type) {                         \
     case_(VT_FLOAT32, float)                 \
     case_(VT_FLOAT64, double)                \
     default: {                               \
-        assert(false);                       \
+        throw std::invalid_argument(         \
+            "unsupported value type");       \
     }                                        \
 }
-- 
2.43.0


From 91fad6fa134c23119e429540e302a79f925f8010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 60/64] fix: Refuse rasters of different value types in the
 Python bindings

---
 .../python/algorithm/algebra/elementary/add_raster_raster.cc | 5 +++--
 source/fern/python/algorithm/algebra/elementary/multiply.cc  | 5 +++--
 source/fern/python/algorithm/core/if_raster_raster.cc        | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/source/fern/python/algorithm/algebra/elementary/add_raster_raster.cc b/source/fern/python/algorithm/algebra/elementary/add_raster_raster.cc
index dfaf1a3..bed2355 100644
--- a/source/fern/python/algorithm/algebra/elementary/add_raster_raster.cc
+++ b/source/fern/python/algorithm/algebra/elementary/add_raster_raster.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/python/algorithm/algebra/elementary/add.h"
+#include <stdexcept>
 #include "fern/python/feature/detail/data_customization_point/masked_raster.h"
 #include "fern/algorithm/policy/policies.h"
 #include "fern/algorithm/algebra/elementary/add.h"
@@ -92,8 +93,8 @@ MaskedRasterHandle& iadd(
     MaskedRasterHandle const& other)
 {
     if(other->value_type() != self->value_type()) {
-        // TODO
-        assert(false);
+        throw std::invalid_argument(
+            "rasters of different value types");
     }
 
     SWITCH_ON_VALUE_TYPE(self->value_type(), CASE);
diff --git a/source/fern/python/algorithm/algebra/elementary/multiply.cc b/source/fern/python/algorithm/algebra/elementary/multiply.cc
index ab53aae..6829276 100644
--- a/source/fern/python/algorithm/algebra/elementary/multiply.cc
+++ b/source/fern/python/algorithm/algebra/elementary/multiply.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/python/algorithm/algebra/elementary/multiply.h"
+#include <stdexcept>
 #include "fern/core/data_customization_point/scalar.h"
 #include "fern/python/feature/detail/data_customization_point/masked_raster.h"
 #include "fern/algorithm/policy/policies.h"
@@ -169,8 +170,8 @@ MaskedRasterHandle& imultiply(
     MaskedRasterHandle const& other)
 {
     if(other->value_type() != self->value_type()) {
-        // TODO
-        assert(false);
+        throw std::invalid_argument(
+            "rasters of different value types");
     }
 
     SWITCH_ON_VALUE_TYPE(self->value_type(), CASE);
diff --git a/source/fern/python/algorithm/core/if_raster_raster.cc b/source/fern/python/algorithm/core/if_raster_raster.cc
index 34ab990..382b27f 100644
--- a/source/fern/python/algorithm/core/if_raster_raster.cc
+++ b/source/fern/python/algorithm/core/if_raster_raster.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/python/algorithm/core/if.h"
+#include <stdexcept>
 #include "fern/python/feature/detail/data_customization_point/masked_raster.h"
 #include "fern/algorithm/policy/policies.h"
 #include "fern/algorithm/core/if.h"
@@ -101,8 +102,8 @@ MaskedRasterHandle if_(
     MaskedRasterHandle const& false_value)
 {
     if(true_value->value_type() != false_value->value_type()) {
-        // TODO
-        assert(false);
+        throw std::invalid_argument(
+            "rasters of different value types");
     }
 
     MaskedRasterHandle result;
-- 
2.43.0


From ae08f01fa884c30a8a21050f6401d2b0b170e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 61/64] fix: Tell that a raster cannot be read or written by
 the Python bindings

---
 source/fern/python/io/gdal.cc | 45 +++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/source/fern/python/io/gdal.cc b/source/fern/python/io/gdal.cc
index 0f2a1a0..e9cdb5a 100644
--- a/source/fern/python/io/gdal.cc
+++ b/source/fern/python/io/gdal.cc
@@ -8,8 +8,10 @@
 // -----------------------------------------------------------------------------
 #include "fern/python/io/gdal.h"
 #include <memory>
+#include <stdexcept>
 #include <gdal_priv.h>
 #include "fern/python/feature/detail/data_customization_point/masked_raster.h"
+#include "fern/core/io_error.h"
 #include "fern/feature/core/array.h"
 #include "fern/algorithm/policy/mark_no_data.h"
 #include "fern/io/gdal/dataset.h"
@@ -34,17 +36,9 @@ switch(value_type) {               \
     case_(GDT_Int32, int32_t)      \
     case_(GDT_Float32, float)      \
     case_(GDT_Float64, double)     \
-    case GDT_Unknown: {            \
-        assert(false);             \
-        break;                     \
-    }                              \
-    case GDT_CInt16:               \
-    case GDT_CInt32:               \
-    case GDT_CFloat32:             \
-    case GDT_CFloat64:             \
-    case GDT_TypeCount: {          \
-        assert(false);             \
-        break;                     \
+    default: {                     \
+        throw std::invalid_argument( \
+            "unsupported value type"); \
     }                              \
 }
 
@@ -66,7 +60,8 @@ switch(value_type) {            \
     case VT_UINT64:             \
     case VT_INT64:              \
     case VT_STRING: {           \
-        assert(false);          \
+        throw std::invalid_argument( \
+            "unsupported value type"); \
     }                           \
 }
 
@@ -131,8 +126,11 @@ void write_raster(
     GDALDataType value_type{io::gdal::ValueTypeTraits<T>::gdal_value_type};
     auto dataset = driver->Create(name.c_str(), nr_cols, nr_rows, nr_bands,
         value_type, nullptr);
-    // TODO
-    assert(dataset);
+
+    if(!dataset) {
+        throw IOError(name,
+            Exception::messages()[MessageId::CANNOT_BE_CREATED]);
+    }
 
     // Set some metadata.
     double transformation[]{
@@ -152,8 +150,9 @@ void write_raster(
     if(band->RasterIO(GF_Write, 0, 0, nr_cols, nr_rows,
             const_cast<T*>(raster.data()),
             nr_cols, nr_rows, value_type, 0, 0) != CE_None) {
-        // TODO
-        assert(false);
+        GDALClose(dataset);
+        throw IOError(name,
+            Exception::messages()[MessageId::CANNOT_BE_WRITTEN]);
     }
 
     // // Write mask band.
@@ -207,13 +206,19 @@ void write_raster(
 {
     // Obtain driver.
     auto driver = GetGDALDriverManager()->GetDriverByName(format.c_str());
-    // TODO
-    assert(driver);
+
+    if(!driver) {
+        throw IOError(name, Exception::messages().format_message(
+            MessageId::NO_SUCH_DRIVER, format));
+    }
 
     // Create new dataset, possibly overwriting existing one.
     auto metadata = driver->GetMetadata();
-    // TODO
-    assert(CSLFetchBoolean(metadata, GDAL_DCAP_CREATE, FALSE));
+
+    if(!CSLFetchBoolean(metadata, GDAL_DCAP_CREATE, FALSE)) {
+        throw IOError(name,
+            Exception::messages()[MessageId::CANNOT_BE_CREATED]);
+    }
 
     SWITCH_ON_GDAL_SUPPORTED_VALUE_TYPE(raster->value_type(), CASE)
 }
-- 
2.43.0


From 380a78b8c64f6c7a1caf013bdfd6e4e8955f0788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:02 +0000
Subject: [PATCH 62/64] fix: Tell whether results of operations in place are in
 range from the values that were combined

---
 .../algorithm/core/binary_local_operation.h   | 28 +++++++++----------
 .../algorithm/core/unary_local_operation.h    |  6 ++--
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/source/fern/algorithm/core/binary_local_operation.h b/source/fern/algorithm/core/binary_local_operation.h
index 68a3c18..cadb783 100644
--- a/source/fern/algorithm/core/binary_local_operation.h
+++ b/source/fern/algorithm/core/binary_local_operation.h
@@ -43,8 +43,8 @@ void operation_0d_0d(
         output_no_data_policy.mark_as_no_data();
     }
     else {
-        const_reference<Value1> v1(get(value1));
-        const_reference<Value2> v2(get(value2));
+        value_type<Value1> const v1(get(value1));
+        value_type<Value2> const v2(get(value2));
 
         if(!OutOfDomainPolicy::within_domain(v1, v2)) {
             // Input value is out of domain. Mark result value as
@@ -96,7 +96,7 @@ void operation_1d_0d(
     }
     else {
         // Second argument does not contain no-data.
-        const_reference<Value2> v2(get(value2));
+        value_type<Value2> const v2(get(value2));
 
         for(size_t i = index_ranges[0].begin(); i < index_ranges[0].end();
                 ++i) {
@@ -105,7 +105,7 @@ void operation_1d_0d(
                 output_no_data_policy.mark_as_no_data(i);
             }
             else {
-                const_reference<Value1> v1(get(value1, i));
+                value_type<Value1> const v1(get(value1, i));
 
                 if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                     // Input value is out of domain. Mark result value as
@@ -159,7 +159,7 @@ void operation_0d_1d(
     }
     else {
         // First argument does not contain no-data.
-        const_reference<Value1> v1(get(value1));
+        value_type<Value1> const v1(get(value1));
 
         for(size_t i = index_ranges[0].begin(); i < index_ranges[0].end();
                 ++i) {
@@ -169,7 +169,7 @@ void operation_0d_1d(
                 output_no_data_policy.mark_as_no_data(i);
             }
             else {
-                const_reference<Value2> v2(get(value2, i));
+                value_type<Value2> const v2(get(value2, i));
 
                 if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                     // Input value is out of domain. Mark result value as
@@ -221,8 +221,8 @@ void operation_1d_1d(
             output_no_data_policy.mark_as_no_data(i);
         }
         else {
-            const_reference<Value1> v1(get(value1, i));
-            const_reference<Value2> v2(get(value2, i));
+            value_type<Value1> const v1(get(value1, i));
+            value_type<Value2> const v2(get(value2, i));
 
             if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                 // Input value is out of domain. Mark result value as
@@ -285,7 +285,7 @@ void operation_2d_0d(
     }
     else {
         // Second argument does not contain no-data.
-        const_reference<Value2> v2(get(value2));
+        value_type<Value2> const v2(get(value2));
 
         for(size_t i = index_ranges[0].begin(); i < index_ranges[0].end();
                 ++i) {
@@ -301,7 +301,7 @@ void operation_2d_0d(
                     output_no_data_policy.mark_as_no_data(index_);
                 }
                 else {
-                    const_reference<Value1> v1(get(value1, index_));
+                    value_type<Value1> const v1(get(value1, index_));
 
                     if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                         // Input value is out of domain. Mark result value as
@@ -368,7 +368,7 @@ void operation_0d_2d(
     }
     else {
         // First argument does not contain no-data.
-        const_reference<Value1> v1(get(value1));
+        value_type<Value1> const v1(get(value1));
 
         for(size_t i = index_ranges[0].begin(); i < index_ranges[0].end();
                 ++i) {
@@ -384,7 +384,7 @@ void operation_0d_2d(
                     output_no_data_policy.mark_as_no_data(index_);
                 }
                 else {
-                    const_reference<Value2> v2(get(value2, index_));
+                    value_type<Value2> const v2(get(value2, index_));
 
                     if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                         // Input value is out of domain. Mark result value as
@@ -446,8 +446,8 @@ void operation_2d_2d(
                 output_no_data_policy.mark_as_no_data(index_);
             }
             else {
-                const_reference<Value1> v1(get(value1, index_));
-                const_reference<Value2> v2(get(value2, index_));
+                value_type<Value1> const v1(get(value1, index_));
+                value_type<Value2> const v2(get(value2, index_));
 
                 if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                     // Input value is out of domain. Mark result value as
diff --git a/source/fern/algorithm/core/unary_local_operation.h b/source/fern/algorithm/core/unary_local_operation.h
index b8ac08f..8252d58 100644
--- a/source/fern/algorithm/core/unary_local_operation.h
+++ b/source/fern/algorithm/core/unary_local_operation.h
@@ -37,7 +37,7 @@ void operation_0d(
         output_no_data_policy.mark_as_no_data();
     }
     else {
-        const_reference<Value> v(get(value));
+        value_type<Value> const v(get(value));
 
         if(!OutOfDomainPolicy::within_domain(v)) {
             // Input value is out of domain. Mark result value as
@@ -84,7 +84,7 @@ void operation_1d(
             output_no_data_policy.mark_as_no_data(i);
         }
         else {
-            const_reference<Value> v(get(value, i));
+            value_type<Value> const v(get(value, i));
 
             if(!OutOfDomainPolicy::within_domain(v)) {
                 // Input value is out of domain. Mark result value as
@@ -139,7 +139,7 @@ void operation_2d(
                 output_no_data_policy.mark_as_no_data(index_);
             }
             else {
-                const_reference<Value> v(get(value, index_));
+                value_type<Value> const v(get(value, index_));
 
                 if(!OutOfDomainPolicy::within_domain(v)) {
                     // Input value is out of domain. Mark result value as
-- 
2.43.0


From e9771fc80c3327f1e3656edcf2afa9310f0ddc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 63/64] fix: Refuse rasters of different sizes in the Python
 bindings

---
 .../algorithm/algebra/elementary/add_raster_raster.cc |  4 ++++
 .../python/algorithm/algebra/elementary/greater.cc    |  2 ++
 .../fern/python/algorithm/algebra/elementary/less.cc  |  2 ++
 .../python/algorithm/algebra/elementary/multiply.cc   |  4 ++++
 source/fern/python/algorithm/core/if_number_raster.cc |  4 ++++
 source/fern/python/algorithm/core/if_raster_number.cc |  4 ++++
 source/fern/python/algorithm/core/if_raster_raster.cc |  3 +++
 source/fern/python/feature/masked_raster.cc           | 11 +++++++++++
 source/fern/python/feature/masked_raster.h            |  5 +++++
 9 files changed, 39 insertions(+)

diff --git a/source/fern/python/algorithm/algebra/elementary/add_raster_raster.cc b/source/fern/python/algorithm/algebra/elementary/add_raster_raster.cc
index bed2355..e54114f 100644
--- a/source/fern/python/algorithm/algebra/elementary/add_raster_raster.cc
+++ b/source/fern/python/algorithm/algebra/elementary/add_raster_raster.cc
@@ -92,6 +92,8 @@ MaskedRasterHandle& iadd(
     MaskedRasterHandle& self,
     MaskedRasterHandle const& other)
 {
+    check_sizes(*self, *other);
+
     if(other->value_type() != self->value_type()) {
         throw std::invalid_argument(
             "rasters of different value types");
@@ -133,6 +135,8 @@ MaskedRasterHandle add(
     MaskedRasterHandle const& raster1,
     MaskedRasterHandle const& raster2)
 {
+    check_sizes(*raster1, *raster2);
+
     MaskedRasterHandle result;
     SWITCH_ON_VALUE_TYPE1(raster1->value_type(), CASE1, raster2->value_type());
     return result;
diff --git a/source/fern/python/algorithm/algebra/elementary/greater.cc b/source/fern/python/algorithm/algebra/elementary/greater.cc
index 08affb7..d4ec909 100644
--- a/source/fern/python/algorithm/algebra/elementary/greater.cc
+++ b/source/fern/python/algorithm/algebra/elementary/greater.cc
@@ -165,6 +165,8 @@ MaskedRasterHandle greater(
     MaskedRasterHandle const& raster1,
     MaskedRasterHandle const& raster2)
 {
+    check_sizes(*raster1, *raster2);
+
     MaskedRasterHandle result;
     SWITCH_ON_VALUE_TYPE1(raster1->value_type(), CASE1, raster2->value_type());
     return result;
diff --git a/source/fern/python/algorithm/algebra/elementary/less.cc b/source/fern/python/algorithm/algebra/elementary/less.cc
index f309d93..275d2cf 100644
--- a/source/fern/python/algorithm/algebra/elementary/less.cc
+++ b/source/fern/python/algorithm/algebra/elementary/less.cc
@@ -166,6 +166,8 @@ MaskedRasterHandle less(
     MaskedRasterHandle const& raster1,
     MaskedRasterHandle const& raster2)
 {
+    check_sizes(*raster1, *raster2);
+
     MaskedRasterHandle result;
     SWITCH_ON_VALUE_TYPE1(raster1->value_type(), CASE1, raster2->value_type());
     return result;
diff --git a/source/fern/python/algorithm/algebra/elementary/multiply.cc b/source/fern/python/algorithm/algebra/elementary/multiply.cc
index 6829276..94397be 100644
--- a/source/fern/python/algorithm/algebra/elementary/multiply.cc
+++ b/source/fern/python/algorithm/algebra/elementary/multiply.cc
@@ -169,6 +169,8 @@ MaskedRasterHandle& imultiply(
     MaskedRasterHandle& self,
     MaskedRasterHandle const& other)
 {
+    check_sizes(*self, *other);
+
     if(other->value_type() != self->value_type()) {
         throw std::invalid_argument(
             "rasters of different value types");
@@ -210,6 +212,8 @@ MaskedRasterHandle multiply(
     MaskedRasterHandle const& raster1,
     MaskedRasterHandle const& raster2)
 {
+    check_sizes(*raster1, *raster2);
+
     MaskedRasterHandle result;
     SWITCH_ON_VALUE_TYPE1(raster1->value_type(), CASE1, raster2->value_type());
     return result;
diff --git a/source/fern/python/algorithm/core/if_number_raster.cc b/source/fern/python/algorithm/core/if_number_raster.cc
index a318997..c0aa93d 100644
--- a/source/fern/python/algorithm/core/if_number_raster.cc
+++ b/source/fern/python/algorithm/core/if_number_raster.cc
@@ -99,6 +99,8 @@ MaskedRasterHandle if_(
     int64_t true_value,
     MaskedRasterHandle const& false_value)
 {
+    check_sizes(*condition, *false_value);
+
     MaskedRasterHandle result;
     SWITCH_ON_VALUE_TYPE1(condition->value_type(), CASE1,
         false_value->value_type())
@@ -112,6 +114,8 @@ MaskedRasterHandle if_(
     double true_value,
     MaskedRasterHandle const& false_value)
 {
+    check_sizes(*condition, *false_value);
+
     MaskedRasterHandle result;
     SWITCH_ON_VALUE_TYPE1(condition->value_type(), CASE1,
         false_value->value_type())
diff --git a/source/fern/python/algorithm/core/if_raster_number.cc b/source/fern/python/algorithm/core/if_raster_number.cc
index 0aa0d28..307aced 100644
--- a/source/fern/python/algorithm/core/if_raster_number.cc
+++ b/source/fern/python/algorithm/core/if_raster_number.cc
@@ -96,6 +96,8 @@ MaskedRasterHandle if_(
     MaskedRasterHandle const& true_value,
     int64_t false_value)
 {
+    check_sizes(*condition, *true_value);
+
     MaskedRasterHandle result;
     SWITCH_ON_VALUE_TYPE1(condition->value_type(), CASE1,
         true_value->value_type())
@@ -109,6 +111,8 @@ MaskedRasterHandle if_(
     MaskedRasterHandle const& true_value,
     double false_value)
 {
+    check_sizes(*condition, *true_value);
+
     MaskedRasterHandle result;
     SWITCH_ON_VALUE_TYPE1(condition->value_type(), CASE1,
         true_value->value_type())
diff --git a/source/fern/python/algorithm/core/if_raster_raster.cc b/source/fern/python/algorithm/core/if_raster_raster.cc
index 382b27f..4a1a31d 100644
--- a/source/fern/python/algorithm/core/if_raster_raster.cc
+++ b/source/fern/python/algorithm/core/if_raster_raster.cc
@@ -101,6 +101,9 @@ MaskedRasterHandle if_(
     MaskedRasterHandle const& true_value,
     MaskedRasterHandle const& false_value)
 {
+    check_sizes(*condition, *true_value);
+    check_sizes(*condition, *false_value);
+
     if(true_value->value_type() != false_value->value_type()) {
         throw std::invalid_argument(
             "rasters of different value types");
diff --git a/source/fern/python/feature/masked_raster.cc b/source/fern/python/feature/masked_raster.cc
index e57dcb1..95f79de 100644
--- a/source/fern/python/feature/masked_raster.cc
+++ b/source/fern/python/feature/masked_raster.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/python/feature/masked_raster.h"
+#include <stdexcept>
 #include "fern/python/core/switch_on_value_type.h"
 
 
@@ -143,5 +144,15 @@ ValueType MaskedRaster::value_type() const
     return _value_type;
 }
 
+
+void check_sizes(
+    MaskedRaster const& raster1,
+    MaskedRaster const& raster2)
+{
+    if(raster1.sizes() != raster2.sizes()) {
+        throw std::invalid_argument("rasters of different sizes");
+    }
+}
+
 } // namespace python
 } // namespace fern
diff --git a/source/fern/python/feature/masked_raster.h b/source/fern/python/feature/masked_raster.h
index b1e9e48..d87c2d7 100644
--- a/source/fern/python/feature/masked_raster.h
+++ b/source/fern/python/feature/masked_raster.h
@@ -78,6 +78,11 @@ private:
 using MaskedRasterHandle = std::shared_ptr<MaskedRaster>;
 
 
+// Throws std::invalid_argument if the rasters have different sizes.
+void               check_sizes         (MaskedRaster const& raster1,
+                                        MaskedRaster const& raster2);
+
+
 template<
     typename T>
 inline MaskedRaster::MaskedRaster(
-- 
2.43.0


From e46a170f74ba999a0693b72befb459d7fe388b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 64/64] fix: Refuse to compute the slope of a raster with a
 single row or column

---
 source/fern/python/algorithm/space/focal/slope.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/fern/python/algorithm/space/focal/slope.cc b/source/fern/python/algorithm/space/focal/slope.cc
index 4e34041..2b62d9b 100644
--- a/source/fern/python/algorithm/space/focal/slope.cc
+++ b/source/fern/python/algorithm/space/focal/slope.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/python/algorithm/space/focal/slope.h"
+#include <stdexcept>
 #include "fern/python/feature/detail/data_customization_point/masked_raster.h"
 #include "fern/python/feature/detail/argument_customization_point/masked_raster.h"
 #include "fern/algorithm/policy/policies.h"
@@ -61,6 +62,13 @@ MaskedRasterHandle slope(
     MaskedRasterHandle const& dem)
 {
     assert(!PyErr_Occurred());
+    if(boost::python::extract<size_t>(dem->sizes()[0])() < 2 ||
+            boost::python::extract<size_t>(dem->sizes()[1])() < 2) {
+        // The algorithm needs a neighbour in each direction.
+        throw std::invalid_argument(
+            "raster with less than two rows or columns");
+    }
+
     MaskedRasterHandle result;
 
     SWITCH_ON_FLOATING_POINT_VALUE_TYPE(dem->value_type(), CASE)
-- 
2.43.0

