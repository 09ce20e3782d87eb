// C10, C11, C16, C17, C18, C19, C22: the functions that return a value.  SEC picks the property, SHARD the element type.
#include "trace.hpp"
using namespace tr;

#ifndef SHARD
#define SHARD 0
#endif
static unsigned rounds = 2;
constexpr char kc(int k) { return char('0' + 1 + k); }
// kinds by hash: all of them, or the cheap ones
constexpr int kind(unsigned h) { return int((h ^ (h >> 3) ^ (h >> 6)) % 8); }
constexpr int wkind(unsigned h) { constexpr int w[5] = { 0, 2, 3, 5, 6 }; return w[h % 5]; }	// writable ones
constexpr int nkind(unsigned h) { constexpr int w[7] = { 0, 1, 2, 3, 4, 5, 7 }; return w[h % 7]; }	// all but view_vector

template <class T> T *scalars(sz n) { static T s[4]; (void)n; return s; }

template <int K, class T, sz N, class F> void call1(const char *name, const std::array<T, N> &a, F f, bool scal = false)
{
	Op<K, T, N> p(a);
	Ev ev(name);
	ev.arr(a, kc(K));
	auto r = f(p.ref());
	ev.res(r).fld("u", p.unchanged());
	if constexpr (requires (T &x) { f(x); }) if (scal)
	{
		T x = a[0];
		using R = decltype(f(x));
		R s[N];
		for (sz i = 0; i < N; ++i) { x = a[i]; s[i] = f(x); }
		ev.list("s", s, N);
	}
	ev.done();
}
template <int K, int L, class T, sz N, class U, sz M, class F> void call2(const char *name, const std::array<T, N> &a, const std::array<U, M> &b, F f, bool scal = false, int ex = -1)
{
	Op<K, T, N> p(a); Op<L, U, M> q(b);
	// now and then one object is both operands
	if constexpr (K >= 0 && (K == L || SEC == 10) && std::is_same_v<T, U> && N == M && (SEC == 10 || SEC == 17 || !std::is_signed_v<T> || std::is_floating_point_v<T>))
		if (ex < 0 && below(5) == 0)
		{
			Ev both(name);
			both.arr(a, kc(K)).arr(a, kc(K));
			auto r = f(p.ref(), p.ref());
			both.res(r).fld("u", p.unchanged());
			if constexpr (requires (T &x) { f(x, x); }) if (scal)
			{
				T x = a[0];
				using R = decltype(f(x, x));
				R s[N];
				for (sz i = 0; i < N; ++i) { x = a[i]; s[i] = f(x, x); }
				both.list("s", s, N);
			}
			both.done();
			return;
		}
	Ev ev(name);
	ev.arr(a, kc(K)).arr(b, kc(L));
	auto r = f(p.ref(), q.ref());
	ev.res(r).fld("u", p.unchanged() && q.unchanged());
	if (ex >= 0) ev.fld("ex", ex);
	if constexpr (requires (T &x, U &y) { f(x, y); }) if (scal)
	{
		T x = a[0]; U y = b[0];
		using R = decltype(f(x, y));
		constexpr sz n = N > M ? N : M;
		R s[n];
		for (sz i = 0; i < n; ++i) { x = a[N == 1 ? 0 : i]; y = b[M == 1 ? 0 : i]; s[i] = f(x, y); }
		ev.list("s", s, n);
	}
	ev.done();
}
template <int K, int L, int O, class T, sz N, class U, sz M, class V, sz P, class F> void call3(const char *name, const std::array<T, N> &a, const std::array<U, M> &b, const std::array<V, P> &c, F f, bool scal = false, int ex = -1)
{
	Op<K, T, N> p(a); Op<L, U, M> q(b); Op<O, V, P> w(c);
	Ev ev(name);
	ev.arr(a, kc(K)).arr(b, kc(L)).arr(c, kc(O));
	auto r = f(p.ref(), q.ref(), w.ref());
	ev.res(r).fld("u", p.unchanged() && q.unchanged() && w.unchanged());
	if (ex >= 0) ev.fld("ex", ex);
	if constexpr (requires (T &x, U &y, V &z) { f(x, y, z); }) if (scal)
	{
		T x = a[0]; U y = b[0]; V z = c[0];
		using R = decltype(f(x, y, z));
		constexpr sz n = N > M ? (N > P ? N : P) : (M > P ? M : P);
		R s[n];
		for (sz i = 0; i < n; ++i) { x = a[N == 1 ? 0 : i]; y = b[M == 1 ? 0 : i]; z = c[P == 1 ? 0 : i]; s[i] = f(x, y, z); }
		ev.list("s", s, n);
	}
	ev.done();
}
#define F1(fn) [](auto &x) -> decltype(fn(x)) { return fn(x); }
#define F2(fn) [](auto &x, auto &y) -> decltype(fn(x, y)) { return fn(x, y); }
#define F3(fn) [](auto &x, auto &y, auto &z) -> decltype(fn(x, y, z)) { return fn(x, y, z); }

// ---------------------------------------------------------------- inputs
// a value near another one
template <class T> T near(T x)
{
	switch (below(6))
	{
		case 0: case 1: return x;
		case 2: if constexpr (std::is_floating_point_v<T>) return std::nextafter(x, std::numeric_limits<T>::infinity()); else if constexpr (std::is_same_v<T, bool>) return !x; else return x == std::numeric_limits<T>::max() ? x : T(x + 1);
		case 3: if constexpr (std::is_floating_point_v<T>) return std::nextafter(x, -std::numeric_limits<T>::infinity()); else if constexpr (std::is_same_v<T, bool>) return !x; else return x == std::numeric_limits<T>::min() ? x : T(x - 1);
		case 4: if constexpr (std::is_floating_point_v<T>) return -x; else return rand_val<T>();
		default: return rand_val<T>();
	}
}
template <class T, sz N> std::array<T, N> near_arr(const std::array<T, N> &a, bool mostly)
{
	auto b = a;
	if (mostly) { sz i = below(N + 1); if (i < N) b[i] = near(a[i]); }		// everything equal but one, or nothing
	else for (auto &x : b) x = near(x);
	return b;
}
template <class T> T round_val()
{
	using L = std::numeric_limits<T>;
	constexpr T big = T(1ull << (L::digits - 2));
	auto k = [](int n) { return T(static_cast<int>(below(2 * n + 1)) - n); };
	T inf = below(2) ? L::infinity() : -L::infinity(), x;
	switch (below(9))
	{
		case 0: return k(8) + T(0.5);
		case 1: return std::nextafter(k(8) + T(0.5), inf);
		case 2: return std::nextafter(k(8), inf);
		case 3: x = big * T(1u << below(4)); x += k(4); if (below(2)) x += T(0.5); return below(2) ? x : -x;
		case 4: x = big * T(1u << below(4)); x = std::nextafter(x, inf); return below(2) ? x : -x;
		case 5: { static const T sp[] = { T(0), -T(0), L::denorm_min(), -L::denorm_min(), L::min(), -L::min(), L::epsilon(), -L::epsilon(), L::max(), -L::max(), L::infinity(), -L::infinity(), L::quiet_NaN(), T(0.5), T(-0.5), T(1) - L::epsilon() / 2 }; return sp[below(16)]; }
		case 6: x = std::nextafter(T(0.5), T(0)); return below(2) ? x : -x;
		case 7: return k(2000) / T(8);
		default: return rand_val<T>();
	}
}
template <class T, sz N> std::array<T, N> round_arr() { std::array<T, N> a{}; for (auto &x : a) x = round_val<T>(); return a; }
template <class T> T eighth(int n = 200) { return T(static_cast<int>(below(2 * n + 1)) - n) / T(8); }
template <class T, sz N> std::array<T, N> eighth_arr(int n = 200) { std::array<T, N> a{}; for (auto &x : a) x = eighth<T>(n); return a; }
template <class T> T moderate() { T x; do x = rand_val<T>(); while (!(std::fabs(x) < T(1e6) && (x == 0 || std::fabs(x) > T(1e-6)))); return x; }
template <class T, sz N> std::array<T, N> moderate_arr() { std::array<T, N> a{}; for (auto &x : a) x = moderate<T>(); return a; }

using ALLT = List<int, unsigned, long long, unsigned long long, float, double, bool, unsigned long>;
using X = nth<SHARD, ALLT>;

#if SEC == 10
template <sz N, int K, int L, class T> void relational(const std::array<T, N> &a, const std::array<T, N> &b)
{
	if constexpr (!std::is_same_v<T, bool>)
	{
		call2<K, L>("lessThan", a, b, F2(dsga::lessThan));
		call2<K, L>("lessThanEqual", a, b, F2(dsga::lessThanEqual));
		call2<K, L>("greaterThan", a, b, F2(dsga::greaterThan));
		call2<K, L>("greaterThanEqual", a, b, F2(dsga::greaterThanEqual));
	}
	else
	{
		call2<K, L>("compAnd", a, b, F2(dsga::compAnd));
		call2<K, L>("compOr", a, b, F2(dsga::compOr));
		call1<K>("compNot", a, F1(dsga::compNot));
		call1<K>("compNot", a, F1(dsga::logicalNot));
		call1<K>("any", a, F1(dsga::any)); call1<K>("all", a, F1(dsga::all)); call1<K>("none", a, F1(dsga::none));
	}
	call2<K, L>("equal", a, b, F2(dsga::equal));
	call2<K, L>("notEqual", a, b, F2(dsga::notEqual));
}
struct Eq { template <class A, class B> auto operator()(A &a, B &b) const { return a == b; } };
struct Ne { template <class A, class B> auto operator()(A &a, B &b) const { return a != b; } };
template <class T, class U> U to(T x) { return castable<U>(x) ? U(x) : U(1); }
template <sz N, int K, int L, class T, class U> void whole(const std::array<T, N> &a, const std::array<U, N> &b)
{
	call2<K, L>("==", a, b, Eq{}); call2<K, L>("!=", a, b, Ne{});
}
template <sz N, class T, class U> std::array<U, N> mostly(const std::array<T, N> &a)
{
	std::array<U, N> b{};
	for (sz i = 0; i < N; ++i) b[i] = to<T, U>(a[i]);
	return near_arr(b, below(4) != 0);
}
template <class T, class U, sz C, sz R> void matrices()
{
	for (unsigned k = 0; k < rounds; ++k)
	{
		std::array<T, C * R> a{};
		for (auto &x : a) x = below(8) ? small_val<T>() : rand_val<T>();
		auto b = mostly<C * R, T, U>(a);
		dsga::basic_matrix<T, C, R> m; dsga::basic_matrix<U, C, R> n;
		for (sz i = 0; i < C * R; ++i) { m[i / R][i % R] = a[i]; n[i / R][i % R] = b[i]; }
		{ Ev ev("=="); ev.arg(m).arg(n); auto r = (m == n); ev.res(r).fld("u", 1).done(); }
		{ Ev ev("!="); ev.arg(m).arg(n); auto r = (m != n); ev.res(r).fld("u", 1).done(); }
		if (below(2)) m[below(C)][below(R)] = std::numeric_limits<T>::quiet_NaN();
		{ Ev ev("=="); ev.arg(m).arg(m); auto r = (m == m); ev.res(r).fld("u", 1).done(); }		// one object on both sides
		{ Ev ev("!="); ev.arg(m).arg(m); auto r = (m != m); ev.res(r).fld("u", 1).done(); }
	}
}
void sections()
{
	upto<4>([](auto nn) {
		constexpr sz N = nn + 1;
		upto<8>([](auto kk) {		// every kind on the left, all of them on the right over the shards
			constexpr int K = int(kk);
			constexpr int L = kind(unsigned(K * 3 + N + SHARD * 5 + K / 2));
			for (unsigned k = 0; k < rounds * 2; ++k)
			{
				auto a = rand_arr<X, N>();
				auto b = near_arr(a, k & 1);
				relational<N, K, L>(a, b);
				whole<N, K, L>(a, b);
			}
		});
	});
	for (unsigned k = 0; k < rounds * 8; ++k) { auto a = rand_arr<X, 1>(); auto b = near_arr(a, false); relational<1, -1, -1>(a, b); }
	for (unsigned k = 0; k < 16; ++k)		// every boolean value
		if constexpr (std::is_same_v<X, bool>)
			for (unsigned j = 0; j < 16; ++j)
			{
				std::array<bool, 4> a{ bool(k & 1), bool(k & 2), bool(k & 4), bool(k & 8) }, b{ bool(j & 1), bool(j & 2), bool(j & 4), bool(j & 8) };
				relational<4, 0, 0>(a, b); whole<4, 0, 0>(a, b);
				std::array<bool, 3> c{ a[0], a[1], a[2] }, d{ b[0], b[1], b[2] };
				relational<3, 0, 0>(c, d); whole<3, 0, 0>(c, d);
				std::array<bool, 2> e{ a[0], a[1] }, f{ b[0], b[1] };
				relational<2, 0, 0>(e, f);
			}
	if constexpr (!std::is_same_v<X, bool>)
	{
		// == across element types, where one type converts to the other
		upto<6>([](auto jj) {
			using Y = nth<decltype(jj)::value, ALLT>;
			using CT = std::common_type_t<X, Y>;
			if constexpr (std::is_same_v<CT, X> || std::is_same_v<CT, Y>)
				upto<4>([](auto nn) {
					constexpr sz N = nn + 1;
					constexpr unsigned h = unsigned(SHARD * 11 + decltype(jj)::value * 3 + N);
					for (unsigned k = 0; k < rounds * 2; ++k)
					{
						auto a = rand_arr<X, N>();
						whole<N, kind(h), kind(h / 2 + 3)>(a, mostly<N, X, Y>(a));
						std::array<X, 1> a1{ a[0] };
						std::array<Y, 1> b1 = mostly<1, X, Y>(a1);
						if (N == 1) { call2<kind(h + 1), -1>("==", a1, b1, Eq{}); call2<kind(h + 1), -1>("!=", a1, b1, Ne{}); call2<-1, kind(h + 2)>("==", a1, b1, Eq{}); }
					}
				});
		});
	}
	if constexpr (std::is_floating_point_v<X>)
	{
		matrices<X, X, 2, 2>(); matrices<X, X, 2, 3>(); matrices<X, X, 2, 4>(); matrices<X, X, 3, 2>(); matrices<X, X, 3, 3>();
		matrices<X, X, 3, 4>(); matrices<X, X, 4, 2>(); matrices<X, X, 4, 3>(); matrices<X, X, 4, 4>();
		matrices<X, float, 2, 3>(); matrices<X, double, 3, 3>(); matrices<X, float, 4, 2>(); matrices<X, double, 4, 4>();
	}
}
#endif

#if SEC == 11
template <sz N, int K, class T> void logical()
{
	for (unsigned k = 0; k < rounds; ++k)
	{
		auto a = rand_arr<T, N>();
		auto rets = rand_arr<T, N + 2>();
		auto yes = rand_arr<bool, N + 2>();
		std::array<T, N + 2> calls{}; sz n = 0;
		{
			Op<K, T, N> p(a); Ev ev("apply"); ev.arr(a, kc(K));
			auto r = p.ref().apply([&](T x) -> T { if (n >= N + 2) return x; calls[n] = x; return rets[n++]; });
			ev.res(r).fld("u", p.unchanged()).list("calls", calls.data(), n).list("rets", rets.data(), n).done();
		}
		n = 0;
		{
			Op<K, T, N> p(a); Ev ev("apply", "ref"); ev.arr(a, kc(K));
			auto r = p.ref().apply([&](const T &x) -> T { if (n >= N + 2) return x; calls[n] = x; return rets[n++]; });
			ev.res(r).fld("u", p.unchanged()).list("calls", calls.data(), n).list("rets", rets.data(), n).done();
		}
		n = 0;
		{
			Op<K, T, N> p(a); Ev ev("query"); ev.arr(a, kc(K));
			auto r = p.ref().query([&](const T &x) -> bool { if (n >= N + 2) return true; calls[n] = x; return yes[n++]; });
			ev.res(r).fld("u", p.unchanged()).list("calls", calls.data(), n).list("rets", yes.data(), n).done();
		}
		for (int s = 0; s < 6; ++s)
		{
			static const int sp[] = { INT32_MIN, INT32_MAX, INT32_MIN + 1, 1 << 30, -(1 << 30), 100, -100 };
			int by = s < 4 ? int(below(2 * N + 5)) - int(N) - 2 : s == 4 ? sp[below(7)] : int(rnd());
			{ Op<K, T, N> p(a); Ev ev("shift"); ev.arr(a, kc(K)); auto r = p.ref().shift(by); ev.res(r).fld("u", p.unchanged()).fld("n", by).done(); }
			{ Op<K, T, N> p(a); Ev ev("cshift"); ev.arr(a, kc(K)); auto r = p.ref().cshift(by); ev.res(r).fld("u", p.unchanged()).fld("n", by).done(); }
		}
		if constexpr (!std::is_same_v<T, bool>)
		{
			auto b = a;
			if constexpr (std::is_floating_point_v<T>) for (auto &x : b) if (x != x) x = T(3);
			if (k & 1) for (sz i = 1; i < N; ++i) b[i] = near(b[i - 1]);		// close calls and ties
			if constexpr (std::is_floating_point_v<T>) for (auto &x : b) if (x != x) x = T(3);
			call1<K>("vmin", b, [](auto &x) requires requires { x.min(); } { return x.min(); });
			call1<K>("vmax", b, [](auto &x) requires requires { x.max(); } { return x.max(); });
			auto c = small_arr<T, N>();
			if constexpr (std::is_floating_point_v<T>) c = eighth_arr<T, N>();
			if constexpr (std::is_unsigned_v<T>) c = rand_arr<T, N>();
			call1<K>("vsum", c, [](auto &x) requires requires { x.sum(); } { return x.sum(); });
		}
	}
}
void sections() { upto<4>([](auto nn) { upto<8>([](auto kk) { logical<decltype(nn)::value + 1, int(decltype(kk)::value), X>(); }); }); }
#endif

#if SEC == 16
template <sz N, int K, class T> void rounding()
{
	for (unsigned k = 0; k < rounds; ++k)
	{
		if constexpr (std::is_floating_point_v<T>)
		{
			auto a = round_arr<T, N>();
			call1<K>("floor", a, F1(dsga::floor)); call1<K>("ceil", a, F1(dsga::ceil)); call1<K>("trunc", a, F1(dsga::trunc));
			call1<K>("round", a, F1(dsga::round)); call1<K>("roundEven", a, F1(dsga::roundEven)); call1<K>("fract", a, F1(dsga::fract));
			call1<K>("abs", a, F1(dsga::abs)); call1<K>("sign", a, F1(dsga::sign));
		}
		else
		{
			auto a = rand_arr<T, N>();
			auto b = a;
			for (auto &x : b) if (x == std::numeric_limits<T>::min()) x = 5;		// has no magnitude
			call1<K>("abs", b, F1(dsga::abs)); call1<K>("sign", a, F1(dsga::sign));
		}
	}
}
void sections()
{
	if constexpr (std::is_signed_v<X>)
	{
		upto<4>([](auto nn) { upto<8>([](auto kk) { rounding<decltype(nn)::value + 1, int(decltype(kk)::value), X>(); }); });
		rounds *= 30;
		rounding<1, -1, X>();
	}
}
#endif

#if SEC == 17
template <sz N, int A, int B, int C, int W, class T> void common()
{
	for (unsigned k = 0; k < rounds; ++k)
	{
		auto a = rand_arr<T, N>(); auto b = near_arr(a, k & 1); auto lo = b; auto hi = near_arr(b, false);
		std::array<T, 1> s{ near(a[0]) }, s2{ near(s[0]) };
		auto e = rand_arr<bool, N>();
		call3<A, B, C>("select", a, b, e, F3(dsga::mix), true);
		if constexpr (N == 1) call3<-1, -1, -1>("select", a, b, e, F3(dsga::mix), true);
		if constexpr (!std::is_same_v<T, bool>)
		{
			call2<A, B>("min", a, b, F2(dsga::min), true); call2<B, -1>("min", a, s, F2(dsga::min), true);
			call2<A, B>("max", a, b, F2(dsga::max), true); call2<B, -1>("max", a, s, F2(dsga::max), true);
			if (N == 1) { call2<-1, -1>("min", s, s2, F2(dsga::min), true); call2<-1, -1>("max", s, s2, F2(dsga::max), true); }
			for (sz i = 0; i < N; ++i) { if constexpr (std::is_floating_point_v<T>) { if (lo[i] != lo[i]) lo[i] = T(1); if (hi[i] != hi[i]) hi[i] = T(2); } if (hi[i] < lo[i]) std::swap(lo[i], hi[i]); }
			std::array<T, 1> l1{ lo[0] }, h1{ hi[0] };
			call3<A, B, C>("clamp", a, lo, hi, F3(dsga::clamp), true);
			call3<C, -1, -1>("clamp", a, l1, h1, F3(dsga::clamp), true);
			if (N == 1) call3<-1, -1, -1>("clamp", s, l1, h1, F3(dsga::clamp), true);
		}
		if constexpr (std::is_floating_point_v<T>)
		{
			call2<A, B>("step", a, b, F2(dsga::step), true); call2<-1, B>("step", s, b, F2(dsga::step), true);
			if (N == 1) call2<-1, -1>("step", s, s2, F2(dsga::step), true);
			// blending
			auto x = eighth_arr<T, N>(), y = eighth_arr<T, N>();
			std::array<T, N> t{}; for (auto &q : t) q = T(int(below(21)) - 6) / T(8);
			std::array<T, 1> t1{ t[0] };
			call3<A, B, C>("mix", x, y, t, F3(dsga::mix), true, 1);
			call3<C, A, -1>("mix", x, y, t1, F3(dsga::mix), true, 1);
			if constexpr (N == 1) call3<-1, -1, -1>("mix", x, y, t, F3(dsga::mix), true, 1);
			auto mx = moderate_arr<T, N>(), my = moderate_arr<T, N>();
			std::array<T, N> mt{}; for (auto &q : mt) { q = T(below(1000001)) / T(1000000); if (below(5) == 0) q = T(below(2)); }
			std::array<T, 1> mt1{ mt[0] };
			call3<A, B, C>("mix", mx, my, mt, F3(dsga::mix), true, 0);
			call3<B, C, -1>("mix", mx, my, mt1, F3(dsga::mix), true, 0);
			// smoothstep: edges a power of two apart, then anything
			{
				std::array<T, N> e0{}, e1{}, xx{}; std::array<T, 1> f0{}, f1{};
				for (sz i = 0; i < N; ++i)
				{
					e0[i] = eighth<T>(100); T w = T(1u << below(4)); e1[i] = e0[i] + w;
					xx[i] = e0[i] + w * T(int(below(25)) - 4) / T(16);
				}
				f0[0] = e0[0]; f1[0] = e1[0];
				call3<A, B, C>("smoothstep", e0, e1, xx, F3(dsga::smoothstep), true, 1);
				call3<-1, -1, C>("smoothstep", f0, f1, xx, F3(dsga::smoothstep), true, 1);
				if constexpr (N == 1) call3<-1, -1, -1>("smoothstep", f0, f1, xx, F3(dsga::smoothstep), true, 1);
				for (sz i = 0; i < N; ++i)
				{
					e0[i] = moderate<T>(); do e1[i] = moderate<T>(); while (e1[i] == e0[i]); if (e1[i] < e0[i]) std::swap(e0[i], e1[i]);
					switch (below(5)) { case 0: xx[i] = e0[i]; break; case 1: xx[i] = e1[i]; break; case 2: xx[i] = moderate<T>(); break; default: xx[i] = e0[i] + (e1[i] - e0[i]) * T(below(1000)) / T(1000); }
				}
				f0[0] = e0[0]; f1[0] = e1[0];
				call3<A, B, C>("smoothstep", e0, e1, xx, F3(dsga::smoothstep), true, 0);
				call3<-1, -1, C>("smoothstep", f0, f1, xx, F3(dsga::smoothstep), true, 0);
			}
			// mod, fma
			auto d = k & 1 ? rand_arr<T, N>() : moderate_arr<T, N>();
			std::array<T, 1> d1{ d[0] };
			call2<A, B>("mod", k & 1 ? a : x, k & 2 ? d : t, F2(dsga::mod), true); call2<B, -1>("mod", x, d1, F2(dsga::mod), true); call2<A, -1>("mod", x, t1, F2(dsga::mod), true);
			if (N == 1) { call2<-1, -1>("mod", d1, t1, F2(dsga::mod), true); call2<-1, -1>("mod", s, d1, F2(dsga::mod), true); }
			auto p = k & 1 ? rand_arr<T, N>() : moderate_arr<T, N>();
			std::array<T, N> nxy{}; for (sz i = 0; i < N; ++i) nxy[i] = -(d[i] * p[i]);			// cancels all but the rounding error
			call3<A, B, C>("fma", d, p, k % 3 ? nxy : b, F3(dsga::fma), true);
			if constexpr (N == 1) call3<-1, -1, -1>("fma", d, p, k % 3 ? nxy : b, F3(dsga::fma), true);
			// modf, frexp, ldexp
			auto m = round_arr<T, N>();
			auto mscal = [&](Ev &ev) { T sr[N], o; for (sz i = 0; i < N; ++i) sr[i] = dsga::modf(m[i], o); ev.list("s", sr, N); };
			{
				Op<A, T, N> arg(m); Op<W, T, N> out(rand_arr<T, N>());
				Ev ev("modf"); ev.arr(m, kc(A));
				auto r = dsga::modf(arg.ref(), out.ref());
				ev.res(r).fld("u", arg.unchanged() && out.others_unchanged()).out("out", out.ref()); mscal(ev); ev.done();
			}
			{	// into itself
				Op<W, T, N> arg(m);
				Ev ev("modf", "self"); ev.arr(m, kc(W));
				auto r = dsga::modf(arg.ref(), arg.ref());
				ev.res(r).fld("u", arg.others_unchanged()).out("out", arg.ref()); mscal(ev); ev.done();
			}
			if constexpr (N == 2)
			{
				dsga::basic_vector<T, 3> v(m[0], T(7), m[1]);
				Ev ev("modf", "cross"); ev.arr(m, '2');
				auto r = dsga::modf(v.xz, v.zx);
				ev.res(r).fld("u", v.y == T(7)).out("out", v.zx); mscal(ev); ev.done();
			}
			if constexpr (N == 1)
			{
				T o = T(9); Ev ev("modf"); ev.arr(m, 'S'); auto r = dsga::modf(m[0], o); ev.res(r).fld("u", 1).out("out", o); mscal(ev); ev.done();
			}
			auto q = k & 1 ? rand_arr<T, N>() : round_arr<T, N>();
			auto fscal = [&](Ev &ev) { T sr[N]; int o; for (sz i = 0; i < N; ++i) sr[i] = dsga::frexp(q[i], o); ev.list("s", sr, N); };
			{
				Op<B, T, N> arg(q); Op<W, int, N> out(rand_arr<int, N>());
				Ev ev("frexp"); ev.arr(q, kc(B));
				auto r = dsga::frexp(arg.ref(), out.ref());
				ev.res(r).fld("u", arg.unchanged() && out.others_unchanged()).out("out", out.ref()); fscal(ev); ev.done();
			}
			if constexpr (N == 1)
			{
				int o = 99; Ev ev("frexp"); ev.arr(q, 'S'); auto r = dsga::frexp(q[0], o); ev.res(r).fld("u", 1).out("out", o); fscal(ev); ev.done();
			}
			std::array<int, N> ex{}; for (auto &n : ex) n = below(3) ? int(below(80)) - 40 : int(below(4400)) - 2200;
			call2<A, C>("ldexp", q, ex, F2(dsga::ldexp), true);
			if constexpr (N == 1) call2<-1, -1>("ldexp", q, ex, F2(dsga::ldexp), true);
		}
	}
}
void sections()
{
	upto<4>([](auto nn) { upto<4>([](auto rr) {
		constexpr sz N = decltype(nn)::value + 1, r = decltype(rr)::value;
		constexpr unsigned h = unsigned(N * 5 + r * 2 + SHARD);
		common<N, kind(h), kind(h * 3 + 1), kind(h * 5 + 2), wkind(N + r), X>();
	}); });
}
#endif

#if SEC == 18
// small numbers: everything in between is exact
template <class T> T coarse(int n = 12) { if constexpr (std::is_floating_point_v<T>) return below(2) ? T(int(below(2 * n + 1)) - n) : T(int(below(8 * n + 1)) - 4 * n) / T(4); else if constexpr (std::is_unsigned_v<T>) return T(below(unsigned(n))); else return T(int(below(2 * unsigned(n) + 1)) - n); }
template <class T, sz N> std::array<T, N> coarse_arr() { std::array<T, N> a{}; for (auto &x : a) x = below(6) ? coarse<T>() : T(0); return a; }
// a vector whose length is a whole number (times a power of two), in any order and with any signs
template <class T, sz N> std::array<T, N> whole_length()
{
	std::array<T, N> a{};
	for (;;)
	{
		int s = 0;
		for (sz i = 0; i < N; ++i) { int q = below(9) ? int(below(2) ? below(13) : below(60)) : 0; a[i] = T(below(2) ? q : -q); s += q * q; }
		int r = int(std::sqrt(double(s)) + 0.5);
		if (r * r == s && s) break;
	}
	constexpr int far = std::is_same_v<T, float> ? 50 : 450;		// the squares neither overflow nor vanish
	int e = below(3) ? int(below(20)) - 10 : int(below(2 * far)) - far;
	for (auto &x : a) x = std::ldexp(x, e);
	return a;
}
template <class T, class CT, sz N> std::array<T, N> wide_arr(std::array<T, N> a)
{
	if constexpr (std::is_same_v<T, double> && std::is_same_v<CT, double>) for (auto &x : a) if (below(3)) x = double(int(rnd() >> 33) - (1 << 30)) / 8;
	if constexpr (sizeof(T) == 8 && std::is_integral_v<T>  && std::is_same_v<T, CT>) for (auto &x : a) if (below(3)) { x = T(rnd() >> 16); if (std::is_signed_v<T> && below(2)) x = T(0) - x; }
	return a;
}
template <sz N, int A, int B, int C, class T> void geometric()
{
	using L = std::numeric_limits<T>;
	for (unsigned k = 0; k < rounds; ++k)
	{
		auto a = coarse_arr<T, N>(), b = coarse_arr<T, N>(), c = coarse_arr<T, N>();
		if (k % 7 == 3) a.fill(T(0));
		if (k % 5 == 4) b = a;
		call2<A, B>("innerProduct", a, b, F2(dsga::innerProduct));
		// other element types on the right
		upto<6>([&](auto jj) {
			using Y = nth<decltype(jj)::value, ALLT>;
			using CT = std::common_type_t<T, Y>;
			if constexpr (!std::is_same_v<T, Y> && (std::is_same_v<CT, T> || std::is_same_v<CT, Y>))
			{
				auto y = coarse_arr<Y, N>();
				constexpr int Q = kind(unsigned(B + jj));
				call2<C, Q>("innerProduct", a, y, F2(dsga::innerProduct));
				// values of the wider type which the narrower one does not have, products still exact
				{ auto wa = wide_arr<T, CT, N>(a); auto wy = wide_arr<Y, CT, N>(y); call2<A, Q>("innerProduct", wa, wy, F2(dsga::innerProduct)); call2<Q, B>("innerProduct", wy, wa, F2(dsga::innerProduct));
				if constexpr (std::is_floating_point_v<T> && std::is_floating_point_v<Y>)
				{
					call2<B, Q>("dot", wa, wy, F2(dsga::dot)); call2<Q, A>("dot", wy, wa, F2(dsga::dot));
					call2<C, Q>("distance", wa, wy, F2(dsga::distance)); call2<Q, B>("distance", wy, wa, F2(dsga::distance));
					if constexpr (N == 1) { call2<-1, -1>("distance", wa, wy, F2(dsga::distance)); call2<-1, -1>("distance", wy, wa, F2(dsga::distance)); }
					if constexpr (N == 3) { call2<B, Q>("cross", wa, wy, F2(dsga::cross)); call2<Q, C>("cross", wy, wa, F2(dsga::cross)); }
				} }
				if constexpr (std::is_floating_point_v<T> && std::is_floating_point_v<Y>)
				{
					call2<C, Q>("dot", a, y, F2(dsga::dot)); call2<Q, C>("dot", y, a, F2(dsga::dot));
					call2<A, Q>("distance", a, y, F2(dsga::distance));
					if constexpr (N == 3) { call2<A, Q>("cross", a, y, F2(dsga::cross)); call2<Q, A>("cross", y, a, F2(dsga::cross)); }
				}
			}
		});
		if constexpr (std::is_floating_point_v<T>)
		{
			call2<A, B>("dot", a, b, F2(dsga::dot)); call2<C, C>("dot", a, a, F2(dsga::dot));
			auto w = moderate_arr<T, N>(), w2 = moderate_arr<T, N>();
			call1<A>("length", a, F1(dsga::length)); call1<B>("length", w, F1(dsga::length));
			call2<A, B>("distance", a, b, F2(dsga::distance)); call2<B, C>("distance", b, b, F2(dsga::distance));
			for (int q = 0; q < 3; ++q)
			{
				auto u = whole_length<T, N>();
				std::array<T, N> from{}, to{};
				int low = 0; for (auto x : u) if (x != 0) { low = std::ilogb(x); break; }
				T step = std::ldexp(T(1), low - 12);
				for (sz i = 0; i < N; ++i) { from[i] = T(int(below(9)) - 4) * step; to[i] = from[i] + u[i]; }
				if constexpr (N > 1) call1<B>("normalize", u, F1(dsga::normalize));
				call1<C>("length", u, F1(dsga::length)); call2<B, A>("distance", from, to, F2(dsga::distance)); call2<A, C>("distance", to, from, F2(dsga::distance));
			}
			if constexpr (N == 1)
			{
				call1<-1>("length", a, F1(dsga::length)); call2<-1, -1>("distance", a, b, F2(dsga::distance));
				std::array<T, 1> sp{ round_val<T>() }, sq{ round_val<T>() };
				call1<-1>("length", sp, F1(dsga::length)); call1<A>("length", sp, F1(dsga::length)); call2<-1, -1>("distance", sp, sq, F2(dsga::distance)); call2<A, B>("distance", sp, sq, F2(dsga::distance));
			}
			if constexpr (N == 3) call2<A, B>("cross", a, b, F2(dsga::cross));
			if constexpr (N > 1)
			{
				call1<A>("normalize", a, F1(dsga::normalize)); call1<C>("normalize", w, F1(dsga::normalize));
				auto i = b; auto nref = c;
				if (k % 3 == 0) { i.fill(T(0)); nref.fill(T(0)); i[0] = coarse<T>(); nref[1] = coarse<T>(); }		// orthogonal
				call3<A, B, C>("faceforward", a, i, nref, F3(dsga::faceforward));
				call2<A, B>("reflect", a, b, F2(dsga::reflect));
				// refract: dyadic directions, both signs of the radicand, and exactly zero
				std::array<T, N> in{}, n{};
				for (auto &q : in) q = T(int(below(9)) - 4) / T(4);
				for (auto &q : n) q = T(int(below(9)) - 4) / T(4);
				if (k % 4 == 0) { in.fill(T(0)); n.fill(T(0)); in[1] = T(-1); n[1] = T(1); }
				if (k % 4 == 2) { in.fill(T(0)); n.fill(T(0)); in[0] = T(1); n[1] = T(1); }						// no common direction
				std::array<T, 1> eta{ T(below(13)) / T(4) };
				if (k % 8 == 2) eta[0] = T(1);																	// radicand exactly zero
				if (k % 8 == 6) eta[0] = T(1) + L::epsilon() * T(int(below(3)) - 1);
				call3<A, B, -1>("refract", in, n, eta, F3(dsga::refract));
			}
		}
	}
}
void sections()
{
	upto<4>([](auto nn) { upto<6>([](auto rr) {
		constexpr sz N = decltype(nn)::value + 1, r = decltype(rr)::value;
		constexpr unsigned h = unsigned(N * 5 + r * 3 + SHARD);
		if constexpr (!std::is_same_v<X, bool>) geometric<N, kind(h), kind(h * 3 + 1), kind(h * 5 + 2), X>();
	}); });
	if constexpr (std::is_floating_point_v<X>)			// cross: every pair of kinds
		upto<64>([](auto ii) { constexpr int I = int(ii); for (unsigned k = 0; k < rounds; ++k) { auto a = coarse_arr<X, 3>(), b = coarse_arr<X, 3>(); call2<I / 8, I % 8>("cross", a, b, F2(dsga::cross)); } });
}
#endif

#if SEC == 19
template <class T> T pattern()
{
	if constexpr (std::is_floating_point_v<T>)
	{
		constexpr bool f = sizeof(T) == 4;
		switch (below(4))
		{
			case 0: return from_bits<T>(rnd());
			case 1: { // NaNs of every sort
				unsigned long long pay = below(2) ? 1ull << below(f ? 23 : 52) : rnd() & (f ? 0x7fffffull : 0xfffffffffffffull);
				return from_bits<T>((f ? 0x7f800000ull : 0x7ff0000000000000ull) | (pay ? pay : 1) | (below(2) ? (f ? 0x80000000ull : 0x8000000000000000ull) : 0)); }
			case 2: return round_val<T>();
			default: return rand_val<T>();
		}
	}
	else switch (below(3))
	{
		case 0: return T(rnd());
		case 1: { static const unsigned long long sp[] = { 0x7f800001ull, 0xff800001ull, 0x7fc00000ull, 0x80000000ull, 0x7f800000ull, 0xff800000ull, 1ull, 0x7ff0000000000001ull, 0xfff8000000000000ull, 0x8000000000000000ull, 0x0102030405060708ull, 0xff00000000000000ull }; return T(sp[below(12)]); }
		default: return rand_val<T>();
	}
}
template <class T, sz N> std::array<T, N> pattern_arr() { std::array<T, N> a{}; for (auto &x : a) x = pattern<T>(); return a; }
template <sz N, int K, class T> void bitwise()
{
	for (unsigned k = 0; k < rounds * 3; ++k)
	{
		auto a = pattern_arr<T, N>();
		if constexpr (std::is_same_v<T, float>) { call1<K>("floatBitsToInt", a, F1(dsga::floatBitsToInt)); call1<K>("floatBitsToUint", a, F1(dsga::floatBitsToUint)); }
		if constexpr (std::is_same_v<T, double>) { call1<K>("doubleBitsToLongLong", a, F1(dsga::doubleBitsToLongLong)); call1<K>("doubleBitsToUlongLong", a, F1(dsga::doubleBitsToUlongLong)); }
		if constexpr (std::is_same_v<T, int>) call1<K>("intBitsToFloat", a, F1(dsga::intBitsToFloat));
		if constexpr (std::is_same_v<T, unsigned>) call1<K>("uintBitsToFloat", a, F1(dsga::uintBitsToFloat));
		if constexpr (std::is_same_v<T, long long>) call1<K>("longLongBitsToDouble", a, F1(dsga::longLongBitsToDouble));
		if constexpr (std::is_same_v<T, unsigned long long>) call1<K>("ulongLongBitsToDouble", a, F1(dsga::ulongLongBitsToDouble));
		if constexpr (std::is_integral_v<T>) call1<K>("byteswap", a, F1(dsga::byteswap));
		if constexpr (std::is_floating_point_v<T> && K != 6) { call1<K>("isnan", a, F1(dsga::isnan)); call1<K>("isinf", a, F1(dsga::isinf)); }
	}
}
void sections()
{
	if constexpr (!std::is_same_v<X, bool>)
	{
		upto<4>([](auto nn) { upto<8>([](auto kk) { bitwise<decltype(nn)::value + 1, int(decltype(kk)::value), X>(); }); });
		rounds *= 8;
		bitwise<1, -1, X>();
#if SHARD == 0
		upto<8>([](auto kk) { bitwise<3, int(decltype(kk)::value), unsigned long>(); });
#endif
	}
}
#endif

#if SEC == 22 || SEC == 24
template <int K, class T, sz N, class F, class G> void elem1(const char *name, const std::array<T, N> &a, F f, G std_f)
{
	Op<K, T, N> p(a);
	Ev ev(name);
	ev.arr(a, kc(K));
	auto r = f(p.ref());
	T s[N], t[N];
	for (sz i = 0; i < N; ++i) { T x = a[i]; s[i] = f(x); t[i] = std_f(x); }
	ev.res(r).fld("u", p.unchanged()).list("s", s, N).list("std", t, N).done();
}
template <int K, int L, class T, sz N, class F, class G> void elem2(const char *name, const std::array<T, N> &a, const std::array<T, N> &b, F f, G std_f)
{
	Op<K, T, N> p(a); Op<L, T, N> q(b);
	Ev ev(name);
	ev.arr(a, kc(K)).arr(b, kc(L));
	auto r = f(p.ref(), q.ref());
	T s[N], t[N];
	for (sz i = 0; i < N; ++i) { T x = a[i], y = b[i]; s[i] = f(x, y); t[i] = std_f(x, y); }
	ev.res(r).fld("u", p.unchanged() && q.unchanged()).list("s", s, N).list("std", t, N).done();
}
template <class T> T unit() { return below(6) ? T(int(below(2001)) - 1000) / T(1000) : round_val<T>(); }
template <class T, sz N> std::array<T, N> unit_arr() { std::array<T, N> a{}; for (auto &x : a) x = unit<T>(); return a; }
// positive numbers of every size, the ends of the range more often
template <class T> T positive()
{
	using L = std::numeric_limits<T>;
	switch (below(8))
	{
		case 0: return std::ldexp(T(1) + T(below(16)) / T(16), L::max_exponent - 1 - int(below(3)));
		case 1: return std::ldexp(T(1) + T(below(16)) / T(16), L::min_exponent - 1 + int(below(3)));
		case 2: return std::ldexp(T(1), L::min_exponent - int(below(L::digits)));
		case 3: return std::ldexp(T(1), int(below(200)) - 100);
		default: { T x; do x = std::fabs(from_bits<T>(rnd())); while (!(x > 0 && x <= L::max())); return x; }
	}
}
#endif
#if SEC == 24
// every exponent of a normal number, several fractions each, in vectors and scalars
void sections()
{
	if constexpr (std::is_floating_point_v<X>)
	{
		using L = std::numeric_limits<X>;
		const int lane = int(env_u("LANE", 0)), lanes = int(env_u("LANES", 1));
		for (unsigned k = 0; k < rounds; ++k)
			for (int e = L::min_exponent - 1 + lane; e < L::max_exponent; e += lanes * (sizeof(X) == 4 ? 1 : 4))
			{
				std::array<X, 4> a{};
				for (auto &x : a) x = std::ldexp(X(1) + X(double(rnd() >> 11) * 0x1p-53), e);
				if (k == 0) { a[0] = std::ldexp(X(1), e); a[1] = std::nextafter(std::ldexp(X(2), e), X(0)); }
				for (auto &x : a) if (!(x <= L::max())) x = L::max();
				call1<0>("inversesqrt", a, F1(dsga::inversesqrt)); call1<3>("fast_inversesqrt", a, F1(dsga::fast_inversesqrt));
				std::array<X, 1> s{ a[e & 3] };
				call1<-1>("inversesqrt", s, F1(dsga::inversesqrt)); call1<-1>("fast_inversesqrt", s, F1(dsga::fast_inversesqrt));
			}
	}
}
#endif
#if SEC == 22
template <sz N, int K, int L, class T> void elementary()
{
	for (unsigned k = 0; k < rounds; ++k)
	{
		auto a = k & 1 ? rand_arr<T, N>() : eighth_arr<T, N>(60), u = unit_arr<T, N>(), m = moderate_arr<T, N>();
#define E1(fn, in) elem1<K>(#fn, in, F1(dsga::fn), [](T x) -> T { return std::fn(x); });
		E1(sin, a) E1(cos, a) E1(tan, a) E1(asin, u) E1(acos, u) E1(atan, a) E1(sinh, a) E1(cosh, a) E1(tanh, a) E1(asinh, a) E1(acosh, m) E1(atanh, u)
		E1(exp, a) E1(log, a) E1(exp2, a) E1(log2, a)
		auto b = k & 1 ? rand_arr<T, N>() : eighth_arr<T, N>(60);
		elem2<K, L>("atan2", a, b, [](auto &x, auto &y) { return dsga::atan(x, y); }, [](T x, T y) -> T { return std::atan2(x, y); });
		auto base = m, ex = b;
		for (sz i = 0; i < N; ++i) { base[i] = std::fabs(base[i]); if (base[i] == T(0)) base[i] = T(2); if (ex[i] != ex[i]) ex[i] = T(3); if (below(6) == 0) { base[i] = T(0); ex[i] = std::fabs(ex[i]) + T(1); } }
		elem2<K, L>("pow", base, ex, F2(dsga::pow), [](T x, T y) -> T { return std::pow(x, y); });
		call1<K>("radians", k & 1 ? m : a, F1(dsga::radians), true); call1<L>("degrees", k & 1 ? m : a, F1(dsga::degrees), true);
		auto q = k & 1 ? rand_arr<T, N>() : round_arr<T, N>();
		call1<K>("sqrt", q, F1(dsga::sqrt));
		auto pos = k & 1 ? rand_arr<T, N>() : m;
		for (auto &x : pos) if (below(2)) x = positive<T>();
		call1<L>("inversesqrt", pos, F1(dsga::inversesqrt)); call1<K>("fast_inversesqrt", pos, F1(dsga::fast_inversesqrt));
	}
}
void sections()
{
	if constexpr (std::is_floating_point_v<X>)
	{
		upto<4>([](auto nn) { upto<8>([](auto kk) { constexpr int k = int(decltype(kk)::value); constexpr sz N = decltype(nn)::value + 1; elementary<N, k, kind(unsigned(k * 3 + N + SHARD)), X>(); }); });
		rounds *= 4;
		elementary<1, -1, -1, X>();
	}
}
#endif
#if SEC == 26
// the wrappers compare as the values they hold, on any pair of element types of which the second becomes the first
template <sz N, class T, class U> std::array<U, N> nearly(const std::array<T, N> &a)
{
	std::array<U, N> b{};
	for (sz i = 0; i < N; ++i) b[i] = castable<U>(a[i]) ? U(a[i]) : U(1);
	switch (below(6))
	{
		case 0: b[below(N)] = rand_val<U>(); break;
		case 1: { auto &x = b[below(N)]; if constexpr (std::is_floating_point_v<U>) x = std::nextafter(x, U(below(2) ? 1e30 : -1e30)); else if (x > U(0)) x = U(x - U(1)); break; }
		case 2: b[below(N)] = U(0); break;
		default: break;
	}
	return b;
}
template <class A, class B, class T, class U, sz N> void wrapped(const std::array<T, N> &a, const std::array<U, N> &b, A &x, B &y)
{
	{ Ev ev("==", "wrap"); ev.arr(a, 'B').arr(b, 'B'); const bool r = std::as_const(x) == std::as_const(y); ev.res(r).fld("u", 1).done(); }
	{ Ev ev("!=", "wrap"); ev.arr(a, 'B').arr(b, 'B'); const bool r = x != y; ev.res(r).fld("u", 1).done(); }
}
template <sz N, class T, class U> void wrappers()
{
	for (unsigned k = 0; k < rounds; ++k)
	{
		auto a = rand_arr<T, N>();
		if (k % 3 == 0) a = small_arr<T, N>();
		auto b = nearly<N, T, U>(a);
		dsga::storage_wrapper<true, T, N> s{}; dsga::storage_wrapper<true, U, N> t{};
		T m[N + 2]; U n[N + 1];
		for (sz i = 0; i < N + 2; ++i) m[i] = filler<T>(i);
		for (sz i = 0; i < N + 1; ++i) n[i] = filler<U>(i);
		for (sz i = 0; i < N; ++i) { s[i] = m[i + 2] = a[i]; t[i] = n[i + 1] = b[i]; }
		dsga::view_wrapper<true, T, N> v(m + 2); dsga::view_wrapper<true, U, N> w(n + 1);
		const dsga::view_wrapper<false, T, N> cv(std::as_const(m) + 2); const dsga::view_wrapper<false, U, N> cw(std::as_const(n) + 1);
		wrapped(a, b, s, t); wrapped(a, b, v, w); wrapped(a, b, v, cw); wrapped(a, b, cv, w);
		// the same object, and windows onto the same elements
		switch (k % 3)
		{
			case 0: wrapped(a, a, s, s); wrapped(b, b, t, t); break;
			case 1: wrapped(a, a, v, cv); wrapped(a, a, cv, v); break;
			default: { dsga::view_wrapper<true, T, N> v2(m + 2); wrapped(a, a, v2, v); wrapped(a, a, cv, cv); }
		}
	}
}
void sections()
{
	upto<7>([](auto jj) {
		using U = nth<decltype(jj)::value, List<int, unsigned, long long, unsigned long long, float, double, bool>>;
		if constexpr (dsga::implicitly_convertible_to<U, X>) upto<4>([](auto nn) { wrappers<decltype(nn)::value + 1, X, U>(); });
	});
}
#endif

int main(int argc, char **argv)
{
	start(argc, argv);
	seed(env_u("VERIF_SEED", 1) * 100000 + env_u("LANE", 0) * 1000 + SEC * 10 + SHARD);
	rounds = env_u("ROUNDS", 2);
	sections();
	return finish();
}
