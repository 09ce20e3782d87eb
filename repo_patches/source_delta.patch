From 79b0739564c7cc52ff4fe7ec98d0526e28e30f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 01/17] fix: swizzle iterators may be moved to the end position
 with += and -=

The range assertion of operator += and operator -= (and so of + and -) of the
swizzle iterators rejected the past-the-end position, so begin() + size(),
end() - 0 and end() += 0 aborted although they are valid for random access
iterators.
---
 include/dsga.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 940621c..f31f855 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2403,7 +2403,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2411,7 +2411,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
@@ -2665,7 +2665,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2673,7 +2673,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
-- 
2.43.0


From b5d9dcddb12aa230e3d5f6ab438134f4b6ca0a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 02/17] fix: free swap() of view_wrapper must let the overlap
 exception out

view_wrapper::swap() throws std::range_error when the two windows partially
overlap; the free function was noexcept and so called std::terminate().
---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index f31f855..83b2815 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2037,7 +2037,7 @@ namespace dsga
 
 	template <bool Mutable, dimensional_scalar T, std::size_t S>
 	requires Mutable
-	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs) noexcept
+	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs)
 	{
 		lhs.swap(rhs);
 	}
-- 
2.43.0


From 9d88793ed46df6a2413535e9115469e89bc0c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 03/17] fix: shift() by the most negative int must shift
 everything out

-by overflowed for INT_MIN, so the vector was returned unshifted.
---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 83b2815..5b41d19 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2208,7 +2208,7 @@ namespace dsga
 			}
 			else if (by < 0)
 			{
-				int count = -by > max_val ? max_val : -by;
+				int count = by < -max_val ? max_val : -by;
 				std::shift_right(copy.begin(), copy.end(), count);
 				std::ranges::fill_n(copy.begin(), count, T(0));
 			}
-- 
2.43.0


From db4503fca9fe642b78e810741a070c71a5fa559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 04/17] fix: abs() and fabs() of negative infinity and negative
 zero

Infinities and zeros were returned as they came, so abs(-inf) was -inf (and
with it length() and distance() of one component) and abs(-0.0) was -0.0.
---
 include/dsga.hxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 5b41d19..dfa1bf9 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1294,9 +1294,13 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T abs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
+				if (isnan(value))
 					return value;
 
+				// don't let negative zero through
+				if (value == T(0))
+					return T(0);
+
 				return relaxed::abs(value);
 			}
 
@@ -1313,9 +1317,13 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T fabs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
+				if (isnan(value))
 					return value;
 
+				// don't let negative zero through
+				if (value == T(0))
+					return T(0);
+
 				return relaxed::fabs(value);
 			}
 
-- 
2.43.0


From 229f32f7b98b2732e72c111508baefa7777737cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 05/17] fix: roundEven() and compile-time round() of the values
 just below a half

Adding a half to the largest value below a half rounds to one, so
roundEven(0.49999999999999994) was 1 (also for other values with no spare
mantissa bit, and for float), as was round() in constant expressions.
---
 include/dsga.hxx | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index dfa1bf9..20f6984 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -602,14 +602,15 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T round(T value) noexcept
 			{
-				// zero could be handled either place, but here it is with the negative values.
+				// adding or subtracting a half could itself round up to the next integer, e.g.,
+				// for the value just below a half, so look at the fractional part which is exact.
+				const T truncated_value = trunc(value);
 
-				// positive value, taking care of halfway case.
-				if (value > T(0))
-					return trunc(value + T(0.5f));
+				// at least halfway to the next integer away from zero
+				if (abs(value - truncated_value) >= T(0.5f))
+					return (value > T(0)) ? (truncated_value + T(1.0f)) : (truncated_value - T(1.0f));
 
-				// negative or zero value, taking care of halfway case.
-				return trunc(value - T(0.5f));
+				return truncated_value;
 			}
 
 			//
@@ -647,20 +648,16 @@ namespace dsga
 			{
 				T trunc_value = trunc(value);
 				bool is_even = (fmod(trunc_value, T(2)) == T(0));
-				bool is_halfway = (fract(value) == T(0.5));
-
-				// the special case
-				if (is_halfway && is_even)
-					return trunc_value;
 
-				// zero could be handled either place, but here it is with the negative values.
+				// the distance to the truncated value is exact, which can't be said about adding
+				// a half, e.g., that rounds up to the next integer for the value just below a half.
+				T remainder = abs(value - trunc_value);
 
-				// positive value, taking care of halfway case.
-				if (value > T(0))
-					return trunc(value + T(0.5f));
+				// the next integer away from zero is nearer, or it is the even one of a halfway case
+				if ((remainder > T(0.5f)) || ((remainder == T(0.5f)) && !is_even))
+					return (value > T(0)) ? (trunc_value + T(1.0f)) : (trunc_value - T(1.0f));
 
-				// negative or zero value, taking care of halfway case.
-				return trunc(value - T(0.5f));
+				return trunc_value;
 			}
 
 			//
-- 
2.43.0


From da0e250e14e3f11df83e5a547b4196a6e8108288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 06/17] fix: fract() of values without a fractional part is
 zero

Values too large to have a fractional part (and infinities) were returned as
they came, e.g., fract(1e30) was 1e30 and fract(-1e30) was -1e30.
---
 include/dsga.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 20f6984..05d215f 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1039,10 +1039,13 @@ namespace dsga
 				template <std::floating_point T>
 				constexpr T constexpr_fract(T value) noexcept
 				{
-					// screen out unnecessary input
-					if (fails_fractional_input_constraints(value))
+					if (isnan(value))
 						return value;
 
+					// screen out unnecessary input - these values don't have a fractional part
+					if (fails_fractional_input_constraints(value))
+						return T(0);
+
 					return relaxed::fract(value);
 				}
 
-- 
2.43.0


From 5991cec3a7c74ee60a1f670e1d364ad31cc52a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:18 +0000
Subject: [PATCH 07/17] fix: assigning to a view_vector from a vector that
 aliases it

The components were copied one at a time while the source was still being
read, so e.g. vv = vv.wzyx duplicated components.
---
 include/dsga.hxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 05d215f..5bf47e6 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -5884,7 +5884,11 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(const vector_base<W, U, Count, D> &other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			[&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
+			{
+				this->set(other[Is]...);				// parameter copies prevent aliasing issues
+			}(std::make_index_sequence<Count>{});
+
 			return *this;
 		}
 
@@ -5892,7 +5896,11 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(vector_base<W, U, Count, D> &&other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			[&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
+			{
+				this->set(other[Is]...);				// parameter copies prevent aliasing issues
+			}(std::make_index_sequence<Count>{});
+
 			return *this;
 		}
 	};
-- 
2.43.0


From f5348237211443bbe30b81e914b467d94558231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 08/17] fix: modf() of infinities, and of an argument that is
 also the output parameter

---
 include/dsga.hxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 5bf47e6..ec9e53b 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7771,19 +7771,23 @@ namespace dsga
 			return mod_op(x, y);
 		}
 
-		constexpr inline auto modf_op = []<floating_point_scalar T>(T x, T y) noexcept { return x - y; };
+		// the fractional part, zero for values that are their own integral part (which includes the infinities)
+		constexpr inline auto modf_op = []<floating_point_scalar T>(T x) noexcept -> T { const T whole = cxcm::trunc(x); return x == whole ? T(0) : x - whole; };
 
 		template <bool W1, floating_point_scalar T, std::size_t C, typename D1, bool W2, typename D2>
 		requires W2
 		[[nodiscard]] constexpr auto modf(const vector_base<W1, T, C, D1> &arg,
 										  vector_base<W2, T, C, D2> &i) noexcept
 		{
+			// arg and i can refer to the same components, so need the fraction before setting i
+			const auto fraction = machinery::apply_make(arg, modf_op);
+
 			if constexpr (C == 1)
 				i.as_derived() = basic_vector<T, 1>(trunc(arg));
 			else
 				i.as_derived() = trunc(arg);
 
-			return machinery::apply_unitype_make(arg, i, modf_op);
+			return fraction;
 		}
 
 		template <floating_point_scalar T>
@@ -7791,7 +7795,7 @@ namespace dsga
 										  T &i) noexcept
 		{
 			i = trunc(arg);
-			return modf_op(arg, i);
+			return modf_op(arg);
 		}
 
 		constexpr inline auto min_op = []<non_bool_scalar T>(T x, T y) noexcept { return y < x ? y : x; };
-- 
2.43.0


From 8026b9286a65348e1e30bcfeb1dae2dd74d14f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 09/17] fix: lessThan() and its relatives must compare 64 bit
 integers exactly

---
 include/dsga.hxx | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index ec9e53b..48d9254 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7030,7 +7030,11 @@ namespace dsga
 
 		constexpr inline auto less_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isless(x, y);
+			// std::isless() would compare integers as doubles, which is not exact for 64 bits
+			if constexpr (std::integral<T>)
+				return x < y;
+			else
+				return std::isless(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7049,7 +7053,11 @@ namespace dsga
 
 		constexpr inline auto less_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::islessequal(x, y);
+			// std::islessequal() would compare integers as doubles, which is not exact for 64 bits
+			if constexpr (std::integral<T>)
+				return x <= y;
+			else
+				return std::islessequal(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7068,7 +7076,11 @@ namespace dsga
 
 		constexpr inline auto greater_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreater(x, y);
+			// std::isgreater() would compare integers as doubles, which is not exact for 64 bits
+			if constexpr (std::integral<T>)
+				return x > y;
+			else
+				return std::isgreater(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7087,7 +7099,11 @@ namespace dsga
 
 		constexpr inline auto greater_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreaterequal(x, y);
+			// std::isgreaterequal() would compare integers as doubles, which is not exact for 64 bits
+			if constexpr (std::integral<T>)
+				return x >= y;
+			else
+				return std::isgreaterequal(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
-- 
2.43.0


From de14868a6da20e72a8913e928e7348aca4465a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 10/17] fix: inversesqrt() and fast_inversesqrt() at the ends
 of the range of double

---
 include/dsga.hxx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 48d9254..d36bc9f 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1216,6 +1216,15 @@ namespace dsga
 						return -std::numeric_limits<T>::quiet_NaN();
 					}
 
+					// the intermediate values need room below and above in the range of double
+					if constexpr (std::is_same_v<T, double>)
+					{
+						if (value < 0x1p-700)
+							return relaxed::rsqrt(value * 0x1p+512) * 0x1p+256;
+						if (value > 0x1p+700)
+							return relaxed::rsqrt(value * 0x1p-512) * 0x1p-256;
+					}
+
 					return relaxed::rsqrt(value);
 				}
 
@@ -1275,6 +1284,13 @@ namespace dsga
 						return -std::numeric_limits<T>::quiet_NaN();
 					}
 
+					// the initial approximation needs the exponent of a normal double
+					if constexpr (std::is_same_v<T, double>)
+					{
+						if (value < std::numeric_limits<T>::min())
+							return relaxed::fast_rsqrt(value * 0x1p+54) * 0x1p+27;
+					}
+
 					return relaxed::fast_rsqrt(value);
 				}
 
-- 
2.43.0


From 64dff37cd23d74fa3b1b3180398e94fe0c231cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 11/17] fix: compile-time sqrt() at the ends of the range of
 double

---
 include/dsga.hxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index d36bc9f..2b7a0b2 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1153,6 +1153,15 @@ namespace dsga
 						return -std::numeric_limits<T>::quiet_NaN();
 					}
 
+					// the intermediate values need room below and above in the range of double
+					if constexpr (std::is_same_v<T, double>)
+					{
+						if (value < 0x1p-700)
+							return relaxed::sqrt(value * 0x1p+512) * 0x1p-256;
+						if (value > 0x1p+700)
+							return relaxed::sqrt(value * 0x1p-512) * 0x1p+256;
+					}
+
 					return relaxed::sqrt(value);
 				}
 
-- 
2.43.0


From 4f6675feffd3a3428eddef851a3308200284f23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:01 +0000
Subject: [PATCH 12/17] fix: views and view_vectors were not accepted among
 several constructor arguments of a vector

---
 include/dsga.hxx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 2b7a0b2..71031bd 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -3503,6 +3503,24 @@ namespace dsga
 		{
 		};
 
+		template <bool M, dimensional_scalar U, std::size_t S, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<basic_view<M, U, S>, T> : std::true_type
+		{
+		};
+
+		template <bool M, dimensional_scalar U, std::size_t S, std::size_t C, std::size_t ...Is, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<indexed_view<M, U, S, C, Is...>, T> : std::true_type
+		{
+		};
+
+		template <dimensional_scalar U, std::size_t S, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<view_vector<U, S>, T> : std::true_type
+		{
+		};
+
 		template <dimensional_scalar U, std::size_t C, dimensional_scalar T>
 		requires std::convertible_to<U, T>
 		struct valid_vector_component<basic_vector<U, C>, T> : std::true_type
-- 
2.43.0


From 688ad79f8d37216b0b3eda015cc62dc37c9a3063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:26 +0000
Subject: [PATCH 13/17] fix: integer row vector times matrix did not compile

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 71031bd..fe2c3bb 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -9197,7 +9197,7 @@ namespace dsga
 	{
 		return [&]<std::size_t ...Is>(std::index_sequence <Is...>) noexcept
 		{
-			return basic_vector{ functions::dot(lhs, rhs[Is])... };
+			return basic_vector{ functions::innerProduct(lhs, rhs[Is])... };
 		}(std::make_index_sequence<C>{});
 	}
 
-- 
2.43.0


From efec9a004e0401637b637c30f6b96eeeeaae2db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 14/17] fix: compile-time sqrt() of the double preceding a
 power of four

---
 include/dsga.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index fe2c3bb..cfbd838 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -709,6 +709,12 @@ namespace dsga
 							current_value = 0.5 * (current_value + (boosted_arg / current_value));
 						}
 
+						// a root is never exactly halfway between two doubles, so if it looks like it is, then it is
+						// a little below and the lower one is the nearest (e.g., for the double preceding 1.0)
+						const double lower = current_value[0] + 2.0 * current_value[1];
+						if ((current_value[1] < 0.0) && (lower - current_value[0] == 2.0 * current_value[1]))
+							return lower;
+
 						return static_cast<double>(current_value);
 					}
 					else if constexpr (std::is_same_v<T, float>)
-- 
2.43.0


From e10cfa4708de1b373cf60046821d32082cea41ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 15/17] fix: cross() of two vectors or two views was not a
 constant expression

---
 include/dsga.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index cfbd838..ea7e225 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -8351,14 +8351,20 @@ namespace dsga
 		[[nodiscard]] constexpr auto cross(const basic_vector<T1, 3> &a,
 										   const basic_vector<T2, 3> &b) noexcept
 		{
-			return (a.yzx * b.zxy) - (a.zxy * b.yzx);
+			// swizzles are inactive union members, which can't be read in a constant expression
+			return basic_vector((a[1] * b[2]) - (a[2] * b[1]),
+								(a[2] * b[0]) - (a[0] * b[2]),
+								(a[0] * b[1]) - (a[1] * b[0]));
 		}
 
 		template <bool M1, floating_point_scalar T1, bool M2, floating_point_scalar T2>
 		[[nodiscard]] constexpr auto cross(const basic_view<M1, T1, 3> &a,
 										   const basic_view<M2, T2, 3> &b) noexcept
 		{
-			return (a.yzx * b.zxy) - (a.zxy * b.yzx);
+			// swizzles are inactive union members, which can't be read in a constant expression
+			return basic_vector((a[1] * b[2]) - (a[2] * b[1]),
+								(a[2] * b[0]) - (a[0] * b[2]),
+								(a[0] * b[1]) - (a[1] * b[0]));
 		}
 
 		template <bool W, floating_point_scalar T, std::size_t C, typename D>
-- 
2.43.0


From edaec00992c6c58a1772b962b662d18c8cbb5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 16/17] fix: compile-time cxcm::fmod() was inexact or not a
 constant expression when the quotient is not exact

---
 include/dsga.hxx | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index ea7e225..633d0dc 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1076,7 +1076,23 @@ namespace dsga
 					if (y == 0)
 						return std::numeric_limits<T>::quiet_NaN();
 
-					return relaxed::fmod(x, y);
+					// the quotient is rounded and can be too large to truncate, so subtract multiples
+					// of the divisor (by powers of 2, largest first) instead, which is always exact.
+					const T divisor = relaxed::abs(y);
+					T remainder = relaxed::abs(x);
+					T multiple = divisor;
+
+					while (multiple <= remainder - multiple)
+						multiple += multiple;
+
+					for (; multiple >= divisor; multiple *= T(0.5f))
+					{
+						if (remainder >= multiple)
+							remainder -= multiple;
+					}
+
+					// the result has the sign of the dividend
+					return copysign(remainder, x);
 				}
 
 				//
-- 
2.43.0


From d148ada68daaab4d669b5c401f70546113d02fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 17/17] fix: cxcm::abs() and cxcm::fabs() of an unsigned zero
 failed the assertion meant for the most negative number

---
 include/dsga.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 633d0dc..97ffcdd 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1356,7 +1356,7 @@ namespace dsga
 			template <std::integral T>
 			constexpr T abs(T value) noexcept
 			{
-				cxcm_constexpr_assert(value != std::numeric_limits<T>::min(), "undefined behavior in abs()");
+				cxcm_constexpr_assert(std::unsigned_integral<T> || (value != std::numeric_limits<T>::min()), "undefined behavior in abs()");
 
 				return relaxed::abs(value);
 			}
@@ -1377,7 +1377,7 @@ namespace dsga
 			template <std::integral T>
 			constexpr double fabs(T value) noexcept
 			{
-				cxcm_constexpr_assert(value != std::numeric_limits<T>::min(), "undefined behavior in fabs()");
+				cxcm_constexpr_assert(std::unsigned_integral<T> || (value != std::numeric_limits<T>::min()), "undefined behavior in fabs()");
 
 				return relaxed::fabs(value);
 			}
-- 
2.43.0

