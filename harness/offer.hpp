// Asks the compiler which expressions are well formed (tools/gen_offers.py writes the questions, from Offers.tla).
#pragma once
#include "trace.hpp"
using namespace tr;
template <class T> T &lv();
#define BIN(name, expr) template <class X, class Y> concept name = requires(X x, Y y) { expr; };
#define UN(name, expr) template <class X, class E> concept name = requires(X x, E e) { expr; };
namespace q
{
	BIN(add, x + y) BIN(sub, x - y) BIN(mul, x * y) BIN(div, x / y) BIN(mod_, x % y) BIN(shl, x << y) BIN(shr, x >> y) BIN(and_, x & y) BIN(or_, x | y) BIN(xor_, x ^ y)
	BIN(c_add, x += y) BIN(c_sub, x -= y) BIN(c_mul, x *= y) BIN(c_div, x /= y) BIN(c_mod_, x %= y) BIN(c_shl, x <<= y) BIN(c_shr, x >>= y) BIN(c_and_, x &= y) BIN(c_or_, x |= y) BIN(c_xor_, x ^= y)
	BIN(asg, x = y) BIN(eq, x == y) BIN(ne, x != y)
	BIN(equal, dsga::equal(x, y)) BIN(notEqual, dsga::notEqual(x, y)) BIN(lessThan, dsga::lessThan(x, y)) BIN(lessThanEqual, dsga::lessThanEqual(x, y))
	BIN(greaterThan, dsga::greaterThan(x, y)) BIN(greaterThanEqual, dsga::greaterThanEqual(x, y))
	BIN(min, dsga::min(x, y)) BIN(max, dsga::max(x, y)) BIN(mod, dsga::mod(x, y)) BIN(step, dsga::step(x, y)) BIN(pow, dsga::pow(x, y)) BIN(atan, dsga::atan(x, y)) BIN(reflect, dsga::reflect(x, y))
	BIN(dot, dsga::dot(x, y)) BIN(cross, dsga::cross(x, y)) BIN(distance, dsga::distance(x, y)) BIN(swap, dsga::swap(x, y)) BIN(matrixCompMult, dsga::matrixCompMult(x, y))
	template <class X, class Y> concept convert = std::is_convertible_v<X, std::remove_cvref_t<Y>>;
	UN(plus, +x) UN(minus, -x) UN(compl_, ~x) UN(not_, !x) UN(preinc, ++x) UN(predec, --x) UN(postinc, x++) UN(postdec, x--)
	UN(index, x[0] = e) UN(begin, *x.begin() = e) UN(rbegin, *x.rbegin() = e) UN(data, x.data()[0] = e) UN(first, x.x = e)
	UN(set1, x.set(e)) UN(set2, x.set(e, e)) UN(set3, x.set(e, e, e)) UN(set4, x.set(e, e, e, e)) UN(set5, x.set(e, e, e, e, e))
#define F3(n) template <class X, class Y, class Z> concept n = requires(X x, Y y, Z z) { dsga::n(x, y, z); };
	F3(mix) F3(clamp) F3(smoothstep) F3(fma)
#undef F3
#define F(n) UN(n, dsga::n(x))
	F(floor) F(ceil) F(trunc) F(round) F(roundEven) F(fract) F(sqrt) F(inversesqrt) F(sin) F(exp) F(radians) F(isnan) F(isinf) F(floatBitsToInt) F(any) F(all) F(none) F(compNot)
	F(abs) F(sign) F(length) F(normalize) F(cross_matrix) F(determinant) F(inverse) F(transpose)
#undef F
}
inline void may(bool ok, const char *q)
{
	Ev ev("may"); ev.results().endresults(); line += ','; line += q; ev.fld("ok", ok).done();
}
