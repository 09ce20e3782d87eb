// C06: two iterators walked at random over every kind of vector and over matrices.
#include "trace.hpp"
#include <compare>
#include <iterator>
using namespace tr;
#ifndef SHARD
#define SHARD 0
#endif
static unsigned steps = 60;
static long long next_val = 100;

// what an element looks like in the trace: its number; a matrix column (x, x+1, ...) shows as x
template <class X> long long show(const X &x)
{
	if constexpr (Scal<X>) return (long long)x;
	else
	{
		for (int i = 1; i < x.length(); ++i) if (x[i] != x[0] + i) return -1;
		return (long long)x[0];
	}
}
template <class X> X value(long long k)
{
	if constexpr (std::is_same_v<X, bool>) return k & 1;
	else if constexpr (Scal<X>) return X(k);
	else { X x; for (int i = 0; i < x.length(); ++i) x[i] = typename X::value_type(k + i); return x; }
}
struct Line
{
	explicit Line(const char *op, int i, int k, long long x)
	{
		std::snprintf(cur, sizeof cur, "iterator %s", op);
		line = "{\"o\":\"it\",\"op\":\""; line += op; line += "\",\"i\":"; num(i); line += ",\"k\":"; num(k); line += ",\"x\":"; num(x); line += ",\"r\":[";
	}
};
template <class V, class It> void tail(V &v, int n, It first, It a, It b)
{
	line += "],\"p\":["; num(a - first); line += ','; num(b - first); line += "],\"v\":[";
	for (int i = 0; i < n; ++i) { if (i) line += ','; num(show(v[i])); }
	line += "]}\n"; buf += line; ++lines; if (buf.size() > (1u << 20)) flush();
}
template <class It> auto arrow(It it) { if constexpr (std::is_pointer_v<It>) return it; else return it.operator->(); }
template <bool Rev, bool Mut, class V, class F, class L, class C> void walk(const char *what, V &v, int n, const long long *vals, F fst, L lst, C cfst)
{
	using It = decltype(fst());
	using X = std::remove_cvref_t<decltype(*fst())>;
	It a = fst(), b = lst();
	int pa = 0, pb = n;
	line = "{\"o\":\"new\",\"what\":\""; line += what; line += "\",\"n\":"; num(n); line += ",\"rev\":"; num(Rev); line += ",\"w\":[";
	for (int i = 0; i < n; ++i) { if (i) line += ','; num(vals[i]); }
	tail(v, n, fst(), a, b);
	for (unsigned s = 0; s < steps; ++s)
	{
		int i = 1 + int(below(2));
		It &it = i == 1 ? a : b; It &ot = i == 1 ? b : a;
		int &p = i == 1 ? pa : pb; int q = i == 1 ? pb : pa;
		int to = int(below(unsigned(n + 1)));				// a target position for moves
		int at = int(below(unsigned(n)));				// a position that can be dereferenced
		long long x = std::is_same_v<X, bool> ? int(below(2)) : ++next_val % 1000 + 100;
		auto pos = [&](const It &z) { num(z - fst()); };
		auto cmp = [&](const auto &x, const auto &y) { num(x == y); line += ','; num(x != y); line += ','; num(x < y); line += ','; num(x <= y); line += ','; num(x > y); line += ','; num(x >= y);
			line += ','; auto o = x <=> y; num(o < 0 ? -1 : o > 0 ? 1 : 0); };
		switch (below(Mut ? 27 : 24))
		{
			case 0: if (p >= n) continue; { Line z("++pre", i, 0, 0); pos(++it); ++p; } break;
			case 1: if (p >= n) continue; { Line z("++post", i, 0, 0); pos(it++); ++p; } break;
			case 2: if (p <= 0) continue; { Line z("--pre", i, 0, 0); pos(--it); --p; } break;
			case 3: if (p <= 0) continue; { Line z("--post", i, 0, 0); pos(it--); --p; } break;
			case 4: case 5: { Line z("+=", i, to - p, 0); pos(it += (to - p)); p = to; } break;
			case 6: case 7: { Line z("-=", i, p - to, 0); pos(it -= (p - to)); p = to; } break;
			case 8: { Line z("+", i, to - p, 0); pos(it + (to - p)); } break;
			case 9: { Line z("k+", i, to - p, 0); pos((to - p) + it); } break;
			case 10: { Line z("-", i, p - to, 0); pos(it - (p - to)); } break;
			case 11: { Line z("diff", i, 0, 0); num(it - ot); } break;
			case 12: { Line z("cmp", i, 0, 0); cmp(it, ot); } break;
			case 13: if (p >= n) continue; { Line z("*", i, 0, 0); num(show(X(*it))); } break;
			case 14: if (p >= n) continue; { Line z("->", i, 0, 0); num(show(X(*arrow(it)))); } break;
			case 15: { Line z("[]", i, at - p, 0); num(show(X(it[at - p]))); } break;
			case 16: { Line z("=", i, 0, 0); it = ot; p = q; } break;
			case 17: { if (below(2)) { Line z("begin", i, 0, 0); it = fst(); p = 0; } else { Line z("end", i, 0, 0); it = lst(); p = n; } } break;
			case 18: { Line z("conv", i, 0, 0); decltype(cfst()) c = it; num(c - cfst()); } break;
			case 19: { Line z("all", i, 0, 0); bool f = true; for (It t = fst(); t != lst(); ++t) { if (!f) line += ','; f = false; num(show(X(*t))); } } break;
			case 20: { Line z("swap", i, 0, 0); using std::swap; swap(a, b); std::swap(pa, pb); } break;
			case 21: if constexpr (requires(It x, decltype(cfst()) y) { x == y; x < y; x <=> y; }) { Line z("mix1", i, 0, 0); decltype(cfst()) c = ot; cmp(it, c); break; } else continue;
			case 22: if constexpr (requires(It x, decltype(cfst()) y) { y == x; y < x; y <=> x; }) { Line z("mix2", i, 0, 0); decltype(cfst()) c = it; cmp(c, ot); break; } else continue;
			case 23: if constexpr (requires(It x, decltype(cfst()) y) { x - y; y - x; }) { Line z("mixdiff", i, 0, 0); if (below(2)) { decltype(cfst()) c = ot; num(it - c); } else { decltype(cfst()) c = it; num(c - ot); } break; } else continue;
			default:
				if constexpr (Mut)
				{
					switch (below(3))
					{
						case 0: if (p >= n) continue; { Line z("w*", i, 0, x); *it = value<X>(x); } break;
						case 1: if (p >= n) continue; { Line z("w->", i, 0, x); *arrow(it) = value<X>(x); } break;
						default: { Line z("w[]", i, at - p, x); it[at - p] = value<X>(x); } break;
					}
				}
				break;
		}
		tail(v, n, fst(), a, b);
	}
}
template <class V> void all_walks(const char *what, V &&v0, int n, const long long *vals0)
{
	auto &v = v0;
	using R = std::remove_reference_t<V>;
	long long vals[4];
	auto again = [&] { for (int i = 0; i < n; ++i) vals[i] = show(v[i]); };
	(void)vals0;
	for (int i = 0; i < n; ++i) vals[i] = vals0[i];
	auto &cv = std::as_const(v);
	constexpr bool mut = requires { *v.begin() = std::remove_cvref_t<decltype(v[0])>(v[0]); } && !std::is_const_v<R>;
	walk<false, mut>(what, v, n, vals, [&] { return v.begin(); }, [&] { return v.end(); }, [&] { return cv.begin(); }); again();
	walk<true, mut>(what, v, n, vals, [&] { return v.rbegin(); }, [&] { return v.rend(); }, [&] { return cv.rbegin(); }); again();
	walk<false, false>(what, v, n, vals, [&] { return v.cbegin(); }, [&] { return v.cend(); }, [&] { return v.cbegin(); });
	walk<true, false>(what, v, n, vals, [&] { return v.crbegin(); }, [&] { return v.crend(); }, [&] { return v.crbegin(); });
	walk<false, false>(what, cv, n, vals, [&] { return cv.begin(); }, [&] { return cv.end(); }, [&] { return v.cbegin(); });
	walk<true, false>(what, cv, n, vals, [&] { return cv.rbegin(); }, [&] { return cv.rend(); }, [&] { return v.crbegin(); });
}
template <class T, sz N, int K> void kind()
{
	std::array<T, N> a;
	long long vals[4];
	for (sz i = 0; i < N; ++i) { vals[i] = std::is_same_v<T, bool> ? (i % 2) : 10 + 3 * (long long)i; a[i] = T(vals[i]); }
	Op<K, T, N> p(a);
	static const char *names[] = { "vector", "const vector", "swizzle", "view", "const view", "swizzle of view", "view_vector", "swizzle of const" };
	all_walks(names[K], p.ref(), int(N), vals);
}
// accessors that repeat components can be iterated but not written
template <class T> void repeats()
{
	dsga::basic_vector<T, 3> v(T(10), T(13), T(16));
	const long long x[4] = { 16, 16, 10, 13 };
	all_walks("zzxy", v.zzxy, 4, x);
	dsga::basic_view<true, T, 3> w(&v[0]);
	const long long y[4] = { 10, 13, 13, 16 };
	all_walks("xyyz of view", w.xyyz, 4, y);
	const long long z[2] = { 16, 10 };
	all_walks("zx", v.zx, 2, z);
	const long long z1[1] = { 13 };
	all_walks("y", w.y, 1, z1);
}
template <class T, sz C, sz R> void mat()
{
	dsga::basic_matrix<T, C, R> m;
	long long vals[4];
	for (sz c = 0; c < C; ++c) { vals[c] = 20 + 7 * (long long)c; for (sz r = 0; r < R; ++r) m[c][r] = T(vals[c] + (long long)r); }
	all_walks("matrix", m, int(C), vals);
}
int main(int argc, char **argv)
{
	start(argc, argv);
	seed(env_u("VERIF_SEED", 1) * 77 + SHARD);
	steps = env_u("STEPS", 60);
	using TL = List<int, double, bool, unsigned long long>;
#if SHARD < 4
	using T = nth<SHARD, TL>;
	upto<32>([](auto k) { kind<T, k / 8 + 1, int(k % 8)>(); });
#else
	repeats<int>(); repeats<float>();
	mat<float, 2, 2>(); mat<float, 2, 3>(); mat<double, 3, 4>(); mat<float, 4, 2>(); mat<double, 4, 4>(); mat<double, 3, 3>();
#endif
	return finish();
}
