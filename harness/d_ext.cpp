// C28: the extensions in examples/.  PART picks the headers, SHARD the element type.
#define NDEBUG
#include <format>
#include <sstream>
#include <stdexcept>
#include "trace.hpp"
#include "compare.hxx"
#include "hash.hxx"
#include "tolerance.hxx"
#include "slice.hxx"
#include "span_convert.hxx"
#include "valarray_convert.hxx"
#if PART == 4
#include "stl.cxx"		// has its own operator <<
#else
#include "ostream_output.hxx"
#endif
#include "format_output.hxx"
#include "angle.hxx"
#include "basic.hxx"
#include "bezier.hxx"
using namespace tr;
using ALLT = List<int, unsigned, long long, unsigned long long, float, double, bool>;
using T = nth<SHARD, ALLT>;
constexpr bool fl = std::is_floating_point_v<T>;
constexpr char kc(int k) { return char('0' + 1 + k); }
static unsigned rounds = 2;

template <class X> X near(X x)
{
	if constexpr (std::is_same_v<X, bool>) return !x;
	else if constexpr (std::is_integral_v<X>) { using U = std::make_unsigned_t<X>; return X(U(x) + (below(2) ? U(1) : U(-1))); }
	else return below(4) ? std::nextafter(x, below(2) ? std::numeric_limits<X>::infinity() : -std::numeric_limits<X>::infinity()) : -x;
}
// like a, up to a component or two
template <class X, sz N> std::array<X, N> like(std::array<X, N> a)
{
	if (below(5) == 0) return a;
	sz i = below(N);
	a[i] = below(2) ? near(a[i]) : rand_val<X>();
	if (below(2)) { sz j = below(N); a[j] = rand_val<X>(); }
	return a;
}

// ---------------------------------------------------------------- order and hash
#if PART == 0
template <class O> constexpr int code(O o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; }
template <class O> constexpr const char *cat(O) { return std::is_same_v<O, std::strong_ordering> ? "strong" : "partial"; }
template <int K, int L, class X, class Y, sz N> void order(const std::array<X, N> &a, const std::array<Y, N> &b)
{
	Op<K, X, N> p(a); Op<L, Y, N> q(b);
	{
		auto r = p.ref() <=> q.ref();
		int op = 0;
		op |= (p.ref() < q.ref()) ? 1 : 0; op |= (p.ref() <= q.ref()) ? 2 : 0;
		op |= (p.ref() > q.ref()) ? 4 : 0; op |= (p.ref() >= q.ref()) ? 8 : 0;
		Ev("order").arr(a, kc(K)).arr(b, kc(L)).results().endresults().fld("ord", code(r)).fld("ops", op).str("cat", cat(r)).fld("u", p.unchanged() && q.unchanged()).done();
	}
	{
		std::array<int, N> w{};
		static const int ws[8] = { 1, 3, 9, 27, -1, -3, 0, 100 };
		if (below(3)) { int s[4] = { 1, 3, 9, 27 }; for (sz i = 0; i < 4; ++i) std::swap(s[i], s[below(4)]); for (sz i = 0; i < N; ++i) w[i] = s[i]; }
		else for (auto &x : w) x = ws[below(8)];
		Op<0, int, N> v(w);
		auto r = dsga::weighted_compare(p.ref(), q.ref(), v.ref());
		Ev("wcmp").arr(a, kc(K)).arr(b, kc(L)).arr(w, kc(0)).results().endresults().fld("ord", code(r)).str("cat", cat(r)).fld("u", p.unchanged() && q.unchanged()).done();
	}
}
template <class X, class Y> X to(Y y) { return castable<X>(y) ? X(y) : X(1); }
template <class H> unsigned long h(const H &v) { return std::hash<H>{}(v); }
template <sz N> void hashes()
{
	std::array<T, N> a = rand_arr<T, N>();
	std::array<unsigned long, 8> hs{};
	upto<8>([&](auto kk) {
		constexpr int K = decltype(kk)::value;
		std::array<T, N> b = a;
		if constexpr (fl) for (auto &x : b) if (x == 0 && below(2)) x = -x;		// equal, though not the same
		Op<K, T, N> p(b);
		using V = std::remove_cvref_t<decltype(p.ref())>;
		hs[kk] = std::hash<V>{}(p.ref());
	});
	dsga::storage_wrapper<true, T, N> sw;
	T mem[N];
	for (sz i = 0; i < N; ++i) sw[i] = mem[i] = a[i];
	std::array<unsigned long, 2> hw{ h(sw), h(dsga::view_wrapper<true, T, N>(mem)) };
	Ev("hash").arr(a).results().endresults().list("h", hs.data(), 8).list("hw", hw.data(), 2).done();
}
template <class X, class Y, sz C, sz R> void mats()
{
	for (unsigned k = 0; k < rounds * 3; ++k)
	{
		std::array<X, C * R> a; std::array<Y, C * R> b;
		for (auto &x : a) x = below(6) ? small_val<X>() : rand_val<X>();
		for (sz i = 0; i < C * R; ++i) b[i] = Y(a[i]);
		if (below(5)) { sz i = below(C * R); b[i] = near(b[i]); if (below(2)) b[below(C * R)] = small_val<Y>(); }
		dsga::basic_matrix<X, C, R> m; dsga::basic_matrix<Y, C, R> n;
		for (sz i = 0; i < C * R; ++i) { m[i / R][i % R] = a[i]; n[i / R][i % R] = b[i]; }
		auto r = m <=> n;
		Ev("morder").arg(m).arg(n).results().endresults().fld("ord", code(r)).str("cat", cat(r)).done();
		dsga::basic_matrix<X, C, R> z = m;
		for (sz i = 0; i < C * R; ++i) if (z[i / R][i % R] == 0) z[i / R][i % R] *= -1;
		std::array<unsigned long, 2> hm{ h(m), h(z) };
		Ev("hash").arr(a).results().endresults().list("h", hm.data(), 2).list("hw", hm.data(), 0).done();
	}
}
void sections()
{
	if constexpr (!std::is_same_v<T, bool>)
		upto<4>([&](auto nn) { upto<6>([&](auto jj) {
			constexpr sz N = decltype(nn)::value + 1;
			using Y = nth<decltype(jj)::value, ALLT>;
			constexpr unsigned hsh = unsigned(N * 7 + decltype(jj)::value * 3 + SHARD);
			constexpr int K = int(hsh % 8), L = int((hsh * 5 + 3) % 8);
			for (unsigned k = 0; k < rounds; ++k)
			{
				std::array<T, N> a = rand_arr<T, N>();
				std::array<Y, N> b{};
				for (sz i = 0; i < N; ++i) b[i] = to<Y>(a[i]);
				if (below(8)) b = like(b);
				if (below(8) == 0) b = rand_arr<Y, N>();
				order<K, L>(a, b);
				order<0, 0>(a, b);
				if constexpr (std::is_same_v<T, Y>) { auto c = like(a); order<(K + 1) % 8, (L + 2) % 8>(a, c); order<L, K>(c, a); }
			}
		}); });
	if constexpr (std::is_same_v<T, int>) order<0, 0>(std::array<int, 1>{ std::numeric_limits<int>::min() }, std::array<int, 1>{ 1 });
	upto<4>([&](auto nn) { for (unsigned k = 0; k < rounds * 3; ++k) hashes<decltype(nn)::value + 1>(); });
	if constexpr (fl) upto<3>([&](auto cc) { upto<3>([&](auto rr) {
		constexpr sz C = decltype(cc)::value + 2, R = decltype(rr)::value + 2;
		mats<T, T, C, R>(); mats<T, std::conditional_t<sizeof(T) == 4, double, float>, C, R>();
	}); });
}
#endif

// ---------------------------------------------------------------- tolerances, slices, spans and valarrays
#if PART == 1
template <class X> X tol_val() { X x = below(3) ? small_val<X>() : rand_val<X>(); if constexpr (std::is_signed_v<X>) { if (x < 0) x = x == std::numeric_limits<X>::min() ? X(1) : X(-x); if (!(x >= 0)) x = X(1); } return x; }
template <class X> X mag_val(X tol)		// near the tolerance
{
	X x;
	switch (below(4)) { case 0: x = tol; break; case 1: x = near(tol); break; case 2: x = rand_val<X>(); break; default: x = small_val<X>(); }
	if constexpr (std::is_integral_v<X> && std::is_signed_v<X>) if (x == std::numeric_limits<X>::min()) x = X(0);
	if constexpr (std::is_signed_v<X>) if (below(2)) x = -x;
	return x;
}
template <int K, int L, class U, sz N> void tolerance(const std::array<T, N> &x, const std::array<T, N> &y, const std::array<U, N> &t)
{
	Op<K, T, N> p(x); Op<L, T, N> q(y); Op<0, U, N> w(t); Op<1, U, 1> w1({ t[0] });
	std::array<U, 1> t1{ t[0] };
	bool diff = true;
	for (sz i = 0; i < N; ++i) { if (!defined_op('-', x[i], y[i])) diff = false; else if constexpr (std::is_integral_v<T>) if (x[i] - y[i] == std::numeric_limits<T>::min()) diff = false; }
	if constexpr (!std::is_unsigned_v<T>)
	{
		Ev("tol").arr(x, kc(K)).arr(t, 'V').res(dsga::within_tolerance(p.ref(), w.ref())).done();
		Ev("tol").arr(x, kc(K)).arr(t1, 'V').res(dsga::within_tolerance(p.ref(), w1.ref())).done();
		Ev("tol").arr(x, kc(K)).arr(t1, 'S').res(dsga::within_tolerance(p.ref(), t[0])).done();
		if (diff)
		{
			if constexpr (N > 1)		// one component: within_box() does not compile
			{
				Ev("box").arr(x, kc(K)).arr(y, kc(L)).arr(t, 'V').res(dsga::within_box(p.ref(), q.ref(), w.ref())).done();
				Ev("box").arr(x, kc(K)).arr(y, kc(L)).arr(t1, 'V').res(dsga::within_box(p.ref(), q.ref(), w1.ref())).done();
			}
			Ev("box").arr(x, kc(K)).arr(y, kc(L)).arr(t1, 'S').res(dsga::within_box(p.ref(), q.ref(), t[0])).done();
		}
	}
	if constexpr (N == 1)
	{
		Ev("tol").arr(x, 'S').arr(t1, 'S').res(dsga::within_tolerance(x[0], t[0])).done();
		if (diff)
		{
			Ev("box").arr(x, 'S').arr(y, 'S').arr(t1, 'S').res(dsga::within_box(x[0], y[0], t[0])).done();
			Ev("box").arr(x, 'S').arr(y, 'S').arr(t1, 'S').res(dsga::within_distance(x[0], y[0], t[0])).done();
		}
	}
	if constexpr (fl)
	{
		std::array<T, N> u, v;			// distances of small numbers
		for (sz i = 0; i < N; ++i) { u[i] = small_val<T>(); v[i] = u[i]; }
		v[below(N)] += T(below(2) ? 3 : -8); v[below(N)] -= T(below(2) ? 4 : 6);
		Op<K, T, N> a(u); Op<L, T, N> b(v);
		static const int ds[8] = { 0, 1, 3, 4, 5, 7, 10, 12 };
		std::array<U, 1> d{ U(ds[below(8)]) }; Op<0, U, 1> dv(d);
		Ev("dist").arr(u, kc(K)).arr(v, kc(L)).arr(d, 'S').res(dsga::within_distance(a.ref(), b.ref(), d[0])).done();
		Ev("dist").arr(u, kc(K)).arr(v, kc(L)).arr(d, 'V').res(dsga::within_distance(a.ref(), b.ref(), dv.ref())).done();
	}
}
// a slice of p, written through where that is possible
template <sz LEN, class V, sz N> void slice1(const char *w, V &p, const std::array<T, N> &a, sz off, bool writable)
{
	std::array<T, LEN> r{}; std::array<T, N> after{};
	int thr = 0, same = 1;
	const T val = T(1);
	try
	{
		auto s = dsga::slice<LEN>(p, off);
		for (sz i = 0; i < LEN; ++i) { r[i] = s[i]; if (&std::as_const(p)[off + i] != s.data() + i) same = 0; }
		if constexpr (requires { s[0] = val; }) s[LEN - 1] = val; else same |= 2;
	}
	catch (const std::out_of_range &) { thr = 1; }
	for (sz i = 0; i < N; ++i) after[i] = std::as_const(p)[i];
	Ev("slice", w).arr(a).results().arr(r).arr(after).endresults().fld("off", off > 100 ? -1 : int(off)).fld("len", LEN).fld("thr", thr).fld("same", same).fld("wr", writable).done();
}
template <sz N> void slices()
{
	upto<N>([&](auto ll) {
		constexpr sz LEN = decltype(ll)::value + 1;
		for (sz o : { sz(0), sz(1), sz(2), sz(3), sz(4), sz(5), ~sz(0), ~sz(0) - LEN + 1, sz(1) << 32 })
		{
			auto a = rand_arr<T, N>();
			T mem[N];
			auto fill = [&] { for (sz i = 0; i < N; ++i) mem[i] = a[i]; };
			{ Op<0, T, N> p(a); slice1<LEN>("vector", p.obj, a, o, true); }
			{ Op<0, T, N> p(a); slice1<LEN>("const vector", std::as_const(p.obj), a, o, false); }
			{ Op<6, T, N> p(a); slice1<LEN>("view_vector", p.obj, a, o, true); }
			{ Op<6, T, N> p(a); slice1<LEN>("const view_vector", std::as_const(p.obj), a, o, false); }
			{ fill(); dsga::basic_view<true, T, N> v{ mem }; slice1<LEN>("view", v, a, o, true); }
			{ fill(); const dsga::basic_view<true, T, N> v{ mem }; slice1<LEN>("const view", v, a, o, false); }
			{ fill(); dsga::basic_view<false, T, N> v{ mem }; slice1<LEN>("view of const", v, a, o, false); }
		}
	});
}
template <class X, class Y> bool all_castable(const X &a) { for (auto &x : a) if (!castable<Y>(x)) return false; return true; }
template <class X, sz M> std::array<X, M> mid_arr() { std::array<X, M> a{}; for (auto &x : a) x = below(2) ? small_val<X>() : rand_val<X>(); return a; }
// copies between a vector of N and a sequence of M other elements
template <class U, sz N, sz M> void copies()
{
	auto a = mid_arr<T, N>(); auto b = mid_arr<U, M>();
	auto vec = [&] { dsga::basic_vector<T, N> v; for (sz i = 0; i < N; ++i) v[i] = a[i]; return v; };
	auto give = [&](const char *w, const dsga::basic_vector<T, N> &v, const std::array<U, M> &src) {
		std::array<T, N> r{}; for (sz i = 0; i < N; ++i) r[i] = v[i];
		Ev("copyto", w).arr(a).arr(src).results().arr(r).endresults().done(); };
	if constexpr (!std::is_same_v<U, bool>) if (all_castable<std::array<U, M>, T>(b))
	{
		{ auto v = vec(); auto s = b; copy_to_vector(v, std::span<U, M>(s)); give("span", v, b); }
		{ auto v = vec(); auto s = b; copy_to_vector(v, std::span<const U, M>(s)); give("const span", v, b); }
		{ auto v = vec(); auto s = b; copy_to_vector(v, std::span<U>(s)); give("dynamic span", v, b); }
		{ auto v = vec(); auto s = b; copy_to_vector(v, std::span<const U>(s)); give("const dynamic span", v, b); }
	}
	if (all_castable<std::array<U, M>, T>(b)) { auto v = vec(); copy_to_vector(v, std::valarray<U>(b.data(), M)); give("valarray", v, b); }
	auto take = [&](const char *w, const std::array<U, M> &r) { Ev("copyfrom", w).arr(a).arr(b).results().arr(r).endresults().done(); };
	if (all_castable<std::array<T, N>, U>(a))
	{
		if constexpr (!std::is_same_v<U, bool>)
		{
			{ auto s = b; copy_from_vector(std::span<U, M>(s), vec()); take("span", s); }
			{ auto s = b; copy_from_vector(std::span<U>(s), vec()); take("dynamic span", s); }
		}
		{ std::valarray<U> s(b.data(), M); copy_from_vector(s, vec()); std::array<U, M> r; for (sz i = 0; i < M; ++i) r[i] = s[i]; take("valarray", r); }
	}
	{
		auto v = vec();
		auto s = make_span(v); auto t = make_const_span(v); auto u = make_span(std::as_const(v));
		int ok = s.data() == &v[0] && t.data() == &v[0] && u.data() == &v[0] && std::is_same_v<decltype(s), std::span<T, N>> && std::is_same_v<decltype(t), std::span<const T, N>> && std::is_same_v<decltype(u), std::span<const T, N>>;
		auto y = to_valarray(v);
		std::array<T, N> r{}; for (sz i = 0; i < N && i < y.size(); ++i) r[i] = y[i];
		Ev("to_valarray").arr(a).results().arr(r).endresults().fld("spans", ok).fld("n", long(y.size())).done();
	}
}
template <sz E, sz... Is> void picked()
{
	auto a = rand_arr<T, E>();
	std::array<int, sizeof...(Is)> is{ int(Is)... };
	Ev("make_vector").arr(a).arr(is).res(make_vector(std::span<T, E>(a), std::index_sequence<Is...>{})).done();
	Ev("make_vector").arr(a).arr(is).res(make_vector(std::span<const T, E>(a), std::index_sequence<Is...>{})).done();
}
void sections()
{
	upto<4>([&](auto nn) {
		constexpr sz N = decltype(nn)::value + 1;
		for (unsigned k = 0; k < rounds; ++k)
		{
			slices<N>();
			upto<7>([&](auto jj) {
				using U = nth<decltype(jj)::value, ALLT>;
				if constexpr (!std::is_same_v<T, bool> && !std::is_same_v<U, bool>) if constexpr (dsga::implicitly_convertible_to<U, T>)
					for (unsigned q = 0; q < 4; ++q)
					{
						std::array<T, N> x{}, y{}; std::array<U, N> t{};
						for (sz i = 0; i < N; ++i)
						{
							t[i] = tol_val<U>();
							if (below(3) == 0) t[i] = t[0];
							T c = castable<T>(t[i]) ? T(t[i]) : T(1);
							x[i] = mag_val<T>(c);
							T z = mag_val<T>(c);
							y[i] = below(3) || !defined_op('-', x[i], z) ? small_val<T>() : T(x[i] - z);
						}
						if (below(3) == 0) { y = like(x); }
						constexpr int K = (decltype(jj)::value + N) % 8, L = (decltype(jj)::value * 3 + N * 5 + SHARD) % 8;
						tolerance<K, L>(x, y, t);
					}
				copies<U, N, (decltype(jj)::value + N) % 6 + 1>();
				copies<U, N, N>();
			});
			if constexpr (std::is_same_v<T, unsigned>) Ev("box").arg(1u + (unsigned)N).arg(2u + (unsigned)N).arg(1u).res(dsga::within_box(1u + (unsigned)N, 2u + (unsigned)N, 1u)).done();
		}
	});
	for (unsigned k = 0; k < rounds; ++k)
	{
		picked<1, 0>(); picked<2, 1, 0>(); picked<5, 4, 0, 3>(); picked<5, 1, 1, 1, 2>(); picked<7, 6, 2>(); picked<9, 8, 3, 5, 1>(); picked<4, 0, 1, 2, 3>(); picked<3, 2>();
	}
	if constexpr (fl)
	{
		for (unsigned k = 0; k < rounds; ++k) upto<3>([&](auto cc) { upto<3>([&](auto rr) {
			constexpr sz C = decltype(cc)::value + 2, R = decltype(rr)::value + 2;
			auto a = rand_arr<T, C * R + 2>();
			auto m = make_matrix<C, R>(std::span<T, C * R + 2>(a));
			auto cm = make_matrix<C, R>(std::span<const T, C * R + 2>(a));
			auto s = make_span(m); auto t = make_const_span(m); auto u = make_span(std::as_const(m));
			using Col = dsga::basic_vector<T, R>;
			int ok = s.data() == &m[0] && t.data() == &m[0] && u.data() == &m[0] && std::is_same_v<decltype(s), std::span<Col, C>> && std::is_same_v<decltype(t), std::span<const Col, C>> && std::is_same_v<decltype(u), std::span<const Col, C>>;
			Ev("make_matrix").arr(a).res(m).fld("spans", ok).done();
			Ev("make_matrix").arr(a).res(cm).fld("spans", 1).done();
		}); });
	}
}
#endif

// ---------------------------------------------------------------- text
#if PART == 2
template <class X> X text_val()
{
	if constexpr (std::is_same_v<X, bool>) return rnd() >> 63;
	else if constexpr (std::is_integral_v<X>) return std::is_signed_v<X> ? X(static_cast<long long>(below(2000001)) - 1000000) : X(below(2000001));
	else return X(static_cast<int>(below(below(2) ? 41 : 7999)) - (below(2) ? 20 : 0)) / X(8) * (below(2) ? X(1) : X(-1));
}
template <class V> void text(const char *w, const V &v, const T *p, sz n, sz cols)
{
	std::ostringstream o; o << v;
	std::string f = std::format("{}", v);
	Ev("text", w).fld("cols", long(cols));		// patched below
	line.resize(line.rfind(",\"cols\""));
	put_value(p, n, 'A');
	line += "],\"r\":0";
	line += ",\"out\":\"" + o.str() + "\",\"fmt\":\"" + f + "\",\"cols\":"; num(long(cols));
	line += "}\n"; buf += line; ++lines;
}
template <sz N> void vectors()
{
	std::array<T, N> a; for (auto &x : a) x = text_val<T>();
	upto<8>([&](auto kk) {
		constexpr int K = decltype(kk)::value;
		Op<K, T, N> p(a);
		text("vector", p.ref(), a.data(), N, 0);
	});
	dsga::storage_wrapper<true, T, N> sw; T mem[N];
	for (sz i = 0; i < N; ++i) sw[i] = mem[i] = a[i];
	text("storage_wrapper", sw, a.data(), N, 0);
	text("view_wrapper", dsga::view_wrapper<true, T, N>(mem), a.data(), N, 0);
}
void sections()
{
	for (unsigned k = 0; k < rounds * 4; ++k)
	{
		upto<4>([&](auto nn) { vectors<decltype(nn)::value + 1>(); });
		if constexpr (fl) upto<3>([&](auto cc) { upto<3>([&](auto rr) {
			constexpr sz C = decltype(cc)::value + 2, R = decltype(rr)::value + 2;
			std::array<T, C * R> a; for (auto &x : a) x = text_val<T>();
			dsga::basic_matrix<T, C, R> m;
			for (sz i = 0; i < C * R; ++i) m[i / R][i % R] = a[i];
			text("matrix", m, a.data(), C * R, C);
		}); });
	}
}
#endif

// ---------------------------------------------------------------- geometry
#if PART == 3
template <sz N> std::array<T, N> ints(int n = 12) { std::array<T, N> a; for (auto &x : a) x = T(int(below(unsigned(2 * n + 1))) - n); return a; }
template <sz N> bool zero(const std::array<T, N> &a) { for (auto x : a) if (x != 0) return false; return true; }
template <int K, class F> void one(const char *name, const std::array<T, 2> &a, F f) { Op<K, T, 2> p(a); Ev(name).arr(a, kc(K)).res(f(p.ref())).done(); }
using A3 = std::array<T, 3>;
A3 sub(const A3 &a, const A3 &b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
A3 crs(const A3 &a, const A3 &b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
template <int K, int L, sz N> void angles()
{
	// multiples of 45 degrees
	std::array<T, N> a = ints<N>(), b{};
	if (zero(a)) a[0] = 1;
	T s = T(1 + below(9));
	switch (below(5))
	{
		case 0: for (sz i = 0; i < N; ++i) b[i] = a[i] * s; break;
		case 1: for (sz i = 0; i < N; ++i) b[i] = -a[i] * s; break;
		case 2: b[0] = -a[1] * s; b[1] = a[0] * s; break;
		case 3: if constexpr (N == 3) { a[2] = 0; } b[0] = (a[0] - a[1]) * s; b[1] = (a[0] + a[1]) * s; break;
		default: if constexpr (N == 3) { a[2] = 0; } b[0] = -(a[0] - a[1]) * s; b[1] = -(a[0] + a[1]) * s; break;
	}
	if (zero(a)) return;
	if (zero(b)) return;
	Op<K, T, N> p(a); Op<L, T, N> q(b);
	Ev("angle").arr(a, kc(K)).arr(b, kc(L)).res(angle_between(p.ref(), q.ref())).done();
}
template <int K, int L, int M> void solids()
{
	A3 x = ints<3>(), a = ints<3>(), b = ints<3>(), c = ints<3>();
	Op<K, T, 3> px(x), pa(a); Op<L, T, 3> pb(b); Op<M, T, 3> pc(c);
	auto log = [&](const char *name, auto r, std::initializer_list<const A3 *> as) { Ev e(name); for (auto p : as) e.arr(*p, '9'); e.res(r).done(); };
	if (a != b)
	{
		log("line", project_to_line1(px.ref(), pa.ref(), pb.ref()), { &x, &a, &b });
		log("line", project_to_line2(px.ref(), pa.ref(), pb.ref()), { &x, &a, &b });
		log("line", project_to_line3(px.ref(), pa.ref(), pb.ref()), { &x, &a, &b });
		log("linedist", distance_to_line(px.ref(), pa.ref(), pb.ref()), { &x, &a, &b });
	}
	if (!zero(crs(sub(b, a), sub(c, a))))
	{
		log("plane", project_to_plane1(px.ref(), pa.ref(), pb.ref(), pc.ref()), { &x, &a, &b, &c });
		log("plane", project_to_plane2(px.ref(), pa.ref(), pb.ref(), pc.ref()), { &x, &a, &b, &c });
		log("center", three_point_circle_center(pa.ref(), pb.ref(), pc.ref()), { &a, &b, &c });
		log("radius", three_point_circle_radius(pa.ref(), pb.ref(), pc.ref()), { &a, &b, &c });
	}
}
template <sz N, int K, int L> void beziers()
{
	auto e = [] { std::array<T, N> a; for (auto &x : a) x = T(int(below(129)) - 64) / T(4); return a; };
	std::array<T, N> a = e(), b = e(), c = e(), d = e();
	std::array<T, 1> t{ T(int(below(17))) / T(16) };
	Op<K, T, N> pa(a), pb(b); Op<L, T, N> pc(c), pd(d);
	auto log = [&](const char *name, auto r, std::initializer_list<const std::array<T, N> *> as) { Ev ev(name); for (auto p : as) ev.arr(*p, '9'); ev.arr(t, 'S'); ev.res(r).done(); };
	log("bezier", quadratic_bezier_eval(pa.ref(), pb.ref(), pc.ref(), t[0]), { &a, &b, &c });
	log("bezier", quadratic_bezier_eval2(pa.ref(), pb.ref(), pc.ref(), t[0]), { &a, &b, &c });
	log("bezier", cubic_bezier_eval(pa.ref(), pb.ref(), pc.ref(), pd.ref(), t[0]), { &a, &b, &c, &d });
	log("bezier", cubic_bezier_eval2(pa.ref(), pb.ref(), pc.ref(), pd.ref(), t[0]), { &a, &b, &c, &d });
}
void sections()
{
	for (unsigned k = 0; k < rounds * 6; ++k)
	{
		auto p = rand_arr<T, 2>();
		one<0>("perp", p, [](auto &v) { return get_perpendicular2(v); });
		auto i = ints<2>(1000);
		one<0>("perp", i, [](auto &v) { return get_perpendicular1(v); });
		angles<0, 3, 2>(); angles<2, 0, 3>(); angles<5, 1, 2>(); angles<4, 7, 3>();
		solids<0, 0, 0>(); solids<1, 3, 4>(); solids<2, 5, 6>();
		upto<4>([&](auto nn) { beziers<decltype(nn)::value + 1, 0, 0>(); beziers<decltype(nn)::value + 1, 2, 3>(); });
	}
}
#endif

// ---------------------------------------------------------------- STL files
#if PART == 4
void sections()
{
	std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr);
	for (unsigned k = 0; k < rounds * 20; ++k)
	{
		unsigned n = k < 3 ? k : below(6);
		std::string file(80, 'h');
		std::array<std::array<float, 9>, 6> fs{};
		auto put4 = [&](auto v) { file.append(reinterpret_cast<const char *>(&v), 4); };
		int off = below(5) ? 0 : int(below(5)) - 2;		// a size that does not fit
		put4(n + (below(9) ? 0u : 1u));
		unsigned said; std::memcpy(&said, file.data() + 80, 4);
		for (unsigned i = 0; i < n; ++i)
		{
			for (auto &x : fs[i]) x = float(int(below(41)) - 20) / 4;
			auto &f = fs[i];
			switch (below(7))
			{
				case 0: { static const float sp[] = { std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN() }; f[below(9)] = sp[below(3)]; break; }
				case 1: for (int j = 0; j < 3; ++j) f[6 + j] = f[3 + j]; break;
				case 2: for (int j = 0; j < 3; ++j) f[6 + j] = 3 * f[3 + j] - 2 * f[j]; break;
				case 3: for (int j = 0; j < 3; ++j) f[j] = f[3 + j] = 0; break;
				default: ;
			}
			for (int j = 0; j < 3; ++j) put4(float(j));		// a normal not to be trusted
			for (auto x : f) put4(x);
			file += "ab";
		}
		if (off > 0) file.append(sz(off), 'z'); else file.resize(file.size() + off);
		{ std::ofstream o("in.stl", std::ios::binary); o << file; }
		fs::remove("out.stl");
		const char *argv[] = { "stl", "in.stl", "out.stl" };
		int ret = stl_main(3, const_cast<char **>(argv));
		bool there = fs::exists("out.stl");
		std::vector<float> nums;
		std::string toks;
		{
			std::ifstream in("out.stl"); std::string w;
			while (in >> w)
			{
				char *e; float x = std::strtof(w.c_str(), &e);
				if (!toks.empty()) toks += ",";
				if (!*e) { nums.push_back(x); toks += "\"#\""; } else toks += "\"" + w + "\"";
			}
		}
		Ev ev("stl");
		for (unsigned i = 0; i < n; ++i) ev.arr(fs[i]);
		line += "],\"r\":0";
		ev.fld("ret", ret).fld("there", there).fld("said", said).fld("extra", off);
		ev.list("nums", nums.data(), nums.size());
		line += ",\"toks\":[" + toks + "]";
		ev.done();
	}
	fs::remove("in.stl"); fs::remove("out.stl");
}
#endif

int main(int argc, char **argv)
{
	start(argc, argv);
	seed(env_u("VERIF_SEED", 1) * 131 + SHARD * 7 + PART * 1009);
	rounds = env_u("ROUNDS", 2);
	sections();
	return finish();
}
