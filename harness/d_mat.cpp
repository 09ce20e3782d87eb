// C13 / C14 / C15: matrices.  SEC = property, SHARD = 2 * (columns - 2) + (0 float, 1 double)
#include "trace.hpp"
#include <vector>
using namespace tr;

#ifndef SHARD
#define SHARD 0
#endif
static unsigned rounds = 2;
using X = std::conditional_t<SHARD % 2 == 0, float, double>;
constexpr sz XC = 2 + SHARD / 2;
template <class T, sz C, sz R> using Mx = dsga::basic_matrix<T, C, R>;
constexpr char kc(int k) { return char('0' + 1 + k); }

template <class T> using Lists = std::vector<std::vector<T>>;
template <class T> void put_lists(const char *k, const Lists<T> &l)
{
	line += ",\""; line += k; line += "\":[";
	for (sz i = 0; i < l.size(); ++i) { if (i) line += ','; line += '['; for (sz j = 0; j < l[i].size(); ++j) { if (j) line += ','; put(l[i][j]); } line += ']'; }
	line += ']';
}
template <bool W, class T, sz C, class D> std::vector<T> vals(const dsga::vector_base<W, T, C, D> &v) { std::vector<T> r; for (sz i = 0; i < C; ++i) r.push_back(v[i]); return r; }
template <class T, sz C, sz R> void put_m(const std::array<T, C * R> &a)
{
	line += "{\"t\":\""; line += Tag<T>::c; line += "\",\"k\":\"M\",\"c\":"; num(C); line += ",\"r\":"; num(R); line += ",\"v\":[";
	for (sz i = 0; i < C * R; ++i) { if (i) line += ','; put(a[i]); }
	line += "]}";
}
template <sz C, sz R, class T> void marg(Ev &ev, const std::array<T, C * R> &a) { ev.sep(); put_m<T, C, R>(a); }
template <sz C, sz R, class T> Mx<T, C, R> make(const std::array<T, C * R> &a)
{
	Mx<T, C, R> m;
	for (sz c = 0; c < C; ++c) for (sz r = 0; r < R; ++r) m[c][r] = a[c * R + r];
	return m;
}
template <sz C, sz R, class T> bool is(const Mx<T, C, R> &m, const std::array<T, C * R> &a)
{
	for (sz c = 0; c < C; ++c) for (sz r = 0; r < R; ++r) if (!same_bits(T(m[c][r]), a[c * R + r])) return false;
	return true;
}
// multiples of 1/8 of limited size: sums of products of a few are exact
template <class T> T small_exact(int n = 12) { if constexpr (std::is_unsigned_v<T>) return T(below(unsigned(n))); else if constexpr (std::is_integral_v<T>) return T(int(below(2 * n + 1)) - n); else return T(int(below(16 * n + 1)) - 8 * n) / T(8); }
template <class T, sz N> std::array<T, N> exact_arr(int n = 12) { std::array<T, N> a{}; for (auto &x : a) x = small_exact<T>(n); return a; }
template <class T> T moderate() { T v = T(1) + T(double(rnd() >> 11) * 0x1p-53); return (rnd() >> 63 ? -v : v) * T(std::ldexp(1.0, int(below(17)) - 8)); }
template <class T, sz N> std::array<T, N> moderate_arr() { std::array<T, N> a{}; for (auto &x : a) x = moderate<T>(); return a; }

#if SEC == 13
template <sz I, class M> decltype(auto) g(M &m) { return dsga::get<I>(m); }
template <class M, class F> void bound(M &m, F f)		// structured bindings
{
	if constexpr (std::tuple_size_v<std::remove_const_t<M>> == 2) { auto &[a, b] = m; f(0, a); f(1, b); }
	else if constexpr (std::tuple_size_v<std::remove_const_t<M>> == 3) { auto &[a, b, c] = m; f(0, a); f(1, b); f(2, c); }
	else { auto &[a, b, c, d] = m; f(0, a); f(1, b); f(2, c); f(3, d); }
}
template <sz C, sz R> void reading()
{
	using M = Mx<X, C, R>;
	auto a = rand_arr<X, C * R>();
	M m = make<C, R>(a);
	const M &cm = m;
	Ev ev("mread");
	marg<C, R>(ev, a);
	ev.res(m);
	Lists<X> data, iter, citer, get, cget, bind, riter, criter, rows;
	for (sz c = 0; c < C; ++c) data.push_back(vals((below(2) ? m.data() : cm.data())[c]));
	for (auto &col : m) iter.push_back(vals(col));
	if (below(2)) for (auto it = cm.begin(); it != cm.end(); ++it) citer.push_back(vals(*it));
	else for (auto it = m.cbegin(); it != m.cend(); ++it) citer.push_back(vals(*it));
	for (auto it = m.rbegin(); it != m.rend(); ++it) riter.push_back(vals(*it));
	if (below(2)) for (auto it = cm.rbegin(); it != cm.rend(); ++it) criter.push_back(vals(*it));
	else for (auto it = m.crbegin(); it != m.crend(); ++it) criter.push_back(vals(*it));
	upto<C>([&](auto i) { get.push_back(vals(dsga::get<i>(m))); M t(m);
		switch (below(4)) { case 0: cget.push_back(vals(dsga::get<i>(cm))); break; case 1: cget.push_back(vals(dsga::get<i>(M(m)))); break;
			case 2: cget.push_back(vals(dsga::get<i>(std::move(t)))); break; default: cget.push_back(vals(dsga::get<i>(std::move(cm)))); } });
	if (below(2)) bound(m, [&](sz, auto &col) { bind.push_back(vals(col)); });
	else bound(cm, [&](sz, auto &col) { bind.push_back(vals(col)); });
	for (sz r = 0; r < R; ++r) { if (below(2)) rows.push_back(vals(m.row(r))); else rows.push_back(vals(cm.row(int(r)))); }
	put_lists("data", data); put_lists("iter", iter); put_lists("citer", citer); put_lists("get", get); put_lists("cget", cget);
	put_lists("bind", bind); put_lists("riter", riter); put_lists("criter", criter); put_lists("rows", rows);
	auto arr = dsga::to_array(cm);
	ev.list("arr", arr.data(), arr.size());
	X raw[C * R]; std::memcpy(raw, m.data(), sizeof raw);
	ev.list("raw", raw, C * R);
	ev.fld("len", cm.length()).fld("size", (long long)M::size()).fld("collen", cm.column_length()).fld("colsize", (long long)M::column_size());
	ev.fld("tsize", (long long)std::tuple_size_v<M>).fld("ssize", (long long)std::size(m));
	ev.fld("bytes", sizeof(M) == sizeof(X) * C * R && std::is_same_v<std::tuple_element_t<0, M>, dsga::basic_vector<X, R>>);
	ev.fld("u", is<C, R>(m, a)).done();
}
template <sz C, sz R> void writing(unsigned way)
{
	using M = Mx<X, C, R>;
	auto a = rand_arr<X, C * R>();
	sz c = below(C), r = below(R);
	X v = rand_val<X>();
	M m = make<C, R>(a), keep = m;
	auto row = m.row(r); auto col = m[c]; auto arr = dsga::to_array(m);		// copies share nothing
	switch (way)
	{
		case 0: m[c][r] = v; break;
		case 1: (*(m.begin() + int(c)))[r] = v; break;
		case 2: m.data()[c][r] = v; break;
		case 3: upto<C>([&](auto i) { if (i == c) dsga::get<i>(m)[r] = v; }); break;
		case 4: { auto it = m.rbegin(); for (sz i = c + 1; i < C; ++i) ++it; (*it)[r] = v; break; }
		case 5: { sz i = 0; for (auto &cl : m) { if (i++ == c) cl[int(r)] = v; } break; }
		case 6: { auto &cl = m[c]; if (r == 0) cl.x = v; else if (r == 1) cl.y = v; else if constexpr (R > 2) { if (r == 2) cl.z = v; else if constexpr (R > 3) cl.w = v; } break; }
		case 7: *(m[c].begin() + int(r)) = v; break;
		case 8: bound(m, [&](sz i, auto &cl) { if (i == c) cl[r] = v; }); break;
		default: m[(unsigned char)c][(long long)r] = v; break;
	}
	row[c] = X(99); col[r] = X(98); arr[0] = X(97);
	Ev ev("mwrite", std::to_string(way).c_str());
	marg<C, R>(ev, a);
	ev.arg(v).res(m).fld("c", (long long)c + 1).fld("row", (long long)r + 1).fld("u", is<C, R>(keep, a)).done();
	// a whole column
	auto b = rand_arr<X, R>();
	M n = make<C, R>(a);
	Ev e2("mcol");
	marg<C, R>(e2, a);
	e2.arr(b);
	if (way % 3 == 0) { Op<0, X, R> p(b); n[c] = p.ref(); }
	else if (way % 3 == 1) { Op<2, X, R> p(b); n[c] = p.ref(); }
	else { Op<3, X, R> p(b); n.data()[c] = p.ref(); }
	e2.res(n).fld("c", (long long)c + 1).fld("u", is<C, R>(keep, a)).done();
}
template <class M> void target(Ev &ev) { ev.fld("tc", M{}.length()).fld("tr", M{}.column_length()); }
// construction from a list of arguments given as kinds and lengths
template <sz C, sz R, class... A> void flat(const char *how, const A &...args)
{
	using M = Mx<X, C, R>;
	Ev ev("mflat", how);
	(ev.arg(args), ...);
	if constexpr (std::is_constructible_v<M, const A &...>)
	{
		M m(args...);
		ev.res(m);
	}
	else ev.res(X(0));
	ev.fld("tc", C).fld("tr", R).fld("u", 1).done();
}
template <class T, sz N> dsga::basic_vector<T, N> bv() { dsga::basic_vector<T, N> v; for (sz i = 0; i < N; ++i) v[i] = small_val<T>(); return v; }
template <sz C, sz R, sz... Is> void scalars(std::index_sequence<Is...>)
{
	flat<C, R>("scalars", ((void)Is, rand_val<X>())...);
	flat<C, R>("scalars of other types", [](auto i) { if constexpr (i % 3 == 0) return small_val<int>(); else if constexpr (i % 3 == 1) return small_val<double>(); else return small_val<float>(); }(std::integral_constant<sz, Is>{})...);
}
template <sz C, sz R, sz... Is> void columns(std::index_sequence<Is...>)
{
	flat<C, R>("columns", ((void)Is, bv<X, R>())...);
	flat<C, R>("int columns", ((void)Is, bv<int, R>())...);
	flat<C, R>("double columns", ((void)Is, bv<double, R>())...);
}
template <sz C, sz R> void building()
{
	using M = Mx<X, C, R>;
	scalars<C, R>(std::make_index_sequence<C * R>{});
	columns<C, R>(std::make_index_sequence<C>{});
	auto a = bv<X, 4>(); auto b = bv<float, 3>(); auto d = bv<X, 2>(); auto i1 = small_val<int>(); auto l3 = bv<long long, 3>(); bool t = below(2);
	X mem[6]; for (auto &x : mem) x = small_val<X>();
	dsga::basic_view<true, X, 4> w(mem + 1);
	dsga::basic_view<false, X, 2> cw(mem + 2);
	dsga::view_vector<X, 3> vv; for (sz i = 0; i < 3; ++i) vv[i] = small_val<X>();
	if constexpr (C * R == 4) { flat<C, R>("mix", a.wzyx); flat<C, R>("mix", i1, l3); flat<C, R>("mix", d, cw); flat<C, R>("mix", w); flat<C, R>("mix", t, b); flat<C, R>("mix", b, a); flat<C, R>("mix", d.y, vv.zx, X(5)); }
	if constexpr (C * R == 6) { flat<C, R>("mix", a, d); flat<C, R>("mix", i1, w, i1); flat<C, R>("mix", b.zyx, l3); flat<C, R>("mix", d, a.yz, cw); flat<C, R>("mix", vv, w); flat<C, R>("mix", w.wx, a.zzzz); flat<C, R>("mix", t, t, d, l3); }
	if constexpr (C * R == 8) { flat<C, R>("mix", a, w); flat<C, R>("mix", w.wzyx, d, d.x, i1); flat<C, R>("mix", vv, l3, cw); flat<C, R>("mix", b, i1, a); flat<C, R>("mix", a.xxyy, vv.yx, a); }
	if constexpr (C * R == 9) { flat<C, R>("mix", a, w, i1); flat<C, R>("mix", a.zy, b, a); flat<C, R>("mix", l3, vv, b); flat<C, R>("mix", i1, a, t, cw, d); flat<C, R>("mix", a, a.wzyx, w); }
	if constexpr (C * R == 12) { flat<C, R>("mix", a, w, b, i1); flat<C, R>("mix", a.wzyx, b, l3, d); flat<C, R>("mix", i1, d, w.zy, b, a); flat<C, R>("mix", vv.zyx, vv, l3, b); }
	if constexpr (C * R == 16) { flat<C, R>("mix", a, w, a.wwzz, b, i1); flat<C, R>("mix", b, l3, vv, d, cw, b.yxz); flat<C, R>("mix", i1, a, a, a, l3); flat<C, R>("mix", a.xyz, w, d, i1, w.yyyy, d); }
	// pointers: C*R consecutive elements, column by column
	auto f = rand_arr<float, 20>(); auto dd = rand_arr<double, 20>();
	auto from = [&](auto &arr, sz off)
	{
		Ev ev("mflat", "pointer");
		ev.arr(arr);
		ev.first = true; line.resize(line.find("\"a\":[") + 5);
		using E = std::remove_cvref_t<decltype(arr[0])>;
		put_value(arr.data() + off, 20 - off, 'A');
		if (below(2)) { M m(arr.data() + off); ev.res(m); }
		else { const E *p = arr.data() + off; M m = p; ev.res(m); }
		ev.fld("tc", C).fld("tr", R).fld("u", 1).done();
	};
	from(f, below(4)); from(dd, below(4));
	// arrays
	auto x = rand_arr<X, 16>(); auto y = rand_arr<X, C * R>();
	{ Ev ev("mflat", "to_matrix"); ev.arr(x); auto m = dsga::to_matrix<C, R>(x); ev.res(m).fld("tc", C).fld("tr", R).fld("u", 1).done(); }
	{ Ev ev("mflat", "to_matrix array"); ev.arr(y); X p[C * R]; for (sz i = 0; i < C * R; ++i) p[i] = y[i]; auto m = dsga::to_matrix<C, R>(p); ev.res(m).fld("tc", C).fld("tr", R).fld("u", 1).done(); }
	{ Ev ev("mflat", "to_matrix of to_array"); ev.arr(y); auto m = dsga::to_matrix<C, R>(dsga::to_array(make<C, R>(y))); ev.res(m).fld("tc", C).fld("tr", R).fld("u", 1).done(); }
	// the diagonal
	if constexpr (C == R)
	{
		auto diag = [&](auto s) { Ev ev("mdiag"); ev.arg(s); M m(s); ev.res(m).fld("u", 1).done(); };
		diag(rand_val<X>()); diag(small_val<int>()); diag(rand_val<double>()); diag(rand_val<float>()); diag(small_val<long long>()); diag(rand_val<unsigned>()); diag(bool(below(2)));
		dsga::basic_vector<X, 1> one(small_val<X>());
		{ Ev ev("mdiag", "vector of one"); X s = one[0]; ev.arg(s); M m(one); ev.res(m).fld("u", 1).done(); }
		{ Ev ev("mdiag", "swizzle of one"); X s = a[2]; ev.arg(s); M m(a.z); ev.res(m).fld("u", 1).done(); }
	}
	{ Ev ev("mdiag", "value"); M m{}; bool z = true; for (sz c = 0; c < C; ++c) for (sz r = 0; r < R; ++r) z = z && m[c][r] == X(0); ev.arg(X(0)); Mx<X, 2, 2> q; q[0][0] = q[1][1] = q[0][1] = q[1][0] = z ? X(0) : X(1); ev.res(q).fld("u", 1).done(); }
}
template <sz C, sz R, class U, sz C2, sz R2> void resizing()
{
	auto a = below(2) ? rand_arr<U, C2 * R2>() : exact_arr<U, C2 * R2>();
	auto src = make<C2, R2>(a);
	Ev ev("mresize");
	marg<C2, R2>(ev, a);
	Mx<X, C, R> m(src);
	ev.res(m).fld("u", is<C2, R2>(src, a)).done();
}
template <sz C, sz R, class U> void assigning()
{
	auto a = rand_arr<U, C * R>(); auto b = rand_arr<X, C * R>();
	auto src = make<C, R>(a); auto dst = make<C, R>(b);
	{ Ev ev("massign"); marg<C, R>(ev, a); auto &r = (dst = src); ev.res(dst).fld("self", &r == &dst).fld("u", is<C, R>(src, a)).done(); }
	{ Ev ev("massign", "implicit"); marg<C, R>(ev, a); Mx<X, C, R> m = src; ev.res(m).fld("self", 1).fld("u", is<C, R>(src, a)).done(); }
	if constexpr (std::is_same_v<U, X>)
	{
		{ Ev ev("massign", "move"); marg<C, R>(ev, a); auto t = src; Mx<X, C, R> d2 = make<C, R>(b); auto &r = (d2 = std::move(t)); ev.res(d2).fld("self", &r == &d2).fld("u", 1).done(); }
		{ Ev ev("massign", "self"); marg<C, R>(ev, a); auto t = src; auto &al = t; t = al; ev.res(t).fld("self", 1).fld("u", 1).done(); }
		{ Ev ev("mswap"); marg<C, R>(ev, a); marg<C, R>(ev, b); auto p = make<C, R>(a); auto q = make<C, R>(b); if (below(2)) p.swap(q); else { using std::swap; swap(p, q); }
		  ev.results().arg(p).arg(q).endresults().fld("u", 1).done(); }
	}
}
template <sz C, sz R> void shape()
{
	for (unsigned k = 0; k < rounds; ++k)
	{
		reading<C, R>();
		for (unsigned w = 0; w < 10; ++w) writing<C, R>(w);
		building<C, R>();
		upto<3>([](auto c2) { upto<3>([](auto r2) { resizing<C, R, float, decltype(c2)::value + 2, decltype(r2)::value + 2>(); resizing<C, R, double, decltype(c2)::value + 2, decltype(r2)::value + 2>(); }); });
		assigning<C, R, X>();
		if constexpr (std::is_same_v<X, double>) assigning<C, R, float>();
	}
}
#endif

#if SEC == 14
template <char O, class A, class B> auto app(const A &a, const B &b) { if constexpr (O == '+') return a + b; else if constexpr (O == '-') return a - b; else if constexpr (O == '*') return a * b; else return a / b; }
template <char O> constexpr const char *name = O == '+' ? "+" : O == '-' ? "-" : O == '*' ? "*" : "/";
template <sz C, sz R, char O, class U> void with_scalar()
{
	auto a = below(2) ? rand_arr<X, C * R>() : exact_arr<X, C * R>();
	U s = below(2) ? rand_val<U>() : small_val<U>();
	auto m = make<C, R>(a);
	{ Ev ev(name<O>); marg<C, R>(ev, a); ev.arg(s); ev.res(app<O>(m, s)).fld("u", is<C, R>(m, a)).done(); }
	{ Ev ev(name<O>); ev.arg(s); marg<C, R>(ev, a); ev.res(app<O>(s, m)).fld("u", is<C, R>(m, a)).done(); }
}
template <sz C, sz R, char O, class U> void with_matrix()
{
	auto a = below(2) ? rand_arr<X, C * R>() : exact_arr<X, C * R>();
	auto b = below(2) ? rand_arr<U, C * R>() : exact_arr<U, C * R>();
	auto m = make<C, R>(a); auto n = make<C, R>(b);
	Ev ev(O == 'c' ? "matrixCompMult" : name<O>); marg<C, R>(ev, a); marg<C, R>(ev, b);
	if constexpr (O == 'c') ev.res(dsga::matrixCompMult(m, n)); else ev.res(app<O>(m, n));
	ev.fld("u", is<C, R>(m, a) && is<C, R>(n, b)).done();
	if (below(3) == 0)		// one object as both operands
	{
		Ev both(O == 'c' ? "matrixCompMult" : name<O>); marg<C, R>(both, a); marg<C, R>(both, a);
		if constexpr (O == 'c') both.res(dsga::matrixCompMult(m, m)); else both.res(app<O>(m, m));
		both.fld("u", is<C, R>(m, a)).done();
	}
}
template <sz C, sz R, class U, int K> void with_vector(bool ex)
{
	auto a = ex ? exact_arr<X, C * R>() : moderate_arr<X, C * R>();
	std::array<U, C> v{}; std::array<U, R> w{};
	for (auto &x : v) if constexpr (std::is_floating_point_v<U>) x = ex ? small_exact<U>() : moderate<U>(); else x = small_exact<U>();
	for (auto &x : w) if constexpr (std::is_floating_point_v<U>) x = ex ? small_exact<U>() : moderate<U>(); else x = small_exact<U>();
	auto m = make<C, R>(a);
	Op<K, U, C> p(v); Op<K, U, R> q(w);
	{ Ev ev("*"); marg<C, R>(ev, a); ev.arr(v, kc(K)); auto &vec = p.ref(); ev.res(m * vec).fld("ex", ex).fld("u", is<C, R>(m, a) && p.unchanged()).done(); }
	{ Ev ev("*"); ev.arr(w, kc(K)); marg<C, R>(ev, a); auto &vec = q.ref(); ev.res(vec * m).fld("ex", ex).fld("u", is<C, R>(m, a) && q.unchanged()).done(); }
}
template <sz C, sz R, class U, sz C2> void product(bool ex)
{
	auto a = ex ? exact_arr<X, C * R>() : moderate_arr<X, C * R>();
	auto b = ex ? exact_arr<U, C2 * C>() : moderate_arr<U, C2 * C>();
	auto m = make<C, R>(a); auto n = make<C2, C>(b);
	Ev ev("*"); marg<C, R>(ev, a); marg<C2, C>(ev, b);
	ev.res(m * n).fld("ex", ex).fld("u", is<C, R>(m, a) && is<C2, C>(n, b)).done();
	if constexpr (C == R && C2 == C) if (below(2))
	{
		Ev both("*"); marg<C, R>(both, a); marg<C, R>(both, a);
		both.res(m * m).fld("ex", ex).fld("u", is<C, R>(m, a)).done();
	}
}
template <sz C, sz R, class U, int K, int L> void outer()
{
	auto a = below(2) ? rand_arr<X, C>() : exact_arr<X, C>(); std::array<U, R> b{};
	for (auto &x : b) x = std::is_floating_point_v<U> && below(2) ? rand_val<U>() : small_val<U>();
	Op<K, X, C> p(a); Op<L, U, R> q(b);
	auto &x = p.ref(); auto &y = q.ref();
	{ Ev ev("outerProduct"); ev.arr(a, kc(K)).arr(b, kc(L)); ev.res(dsga::outerProduct(x, y)).fld("u", p.unchanged() && q.unchanged()).done(); }
	{ Ev ev("outerProduct"); ev.arr(b, kc(L)).arr(a, kc(K)); ev.res(dsga::outerProduct(y, x)).fld("u", p.unchanged() && q.unchanged()).done(); }
	if constexpr (C == R && K == L) { Ev ev("outerProduct"); ev.arr(a, kc(K)).arr(a, kc(K)); ev.res(dsga::outerProduct(x, x)).fld("u", p.unchanged()).done(); }
}
template <sz C, int K> void from_vector()
{
	auto a = rand_arr<X, C>();
	Op<K, X, C> p(a);
	auto &x = p.ref();
	{ Ev ev("diagonal_matrix"); ev.arr(a, kc(K)); ev.res(dsga::diagonal_matrix(x)).fld("u", p.unchanged()).done(); }
	if constexpr (C == 3) { Ev ev("cross_matrix"); ev.arr(a, kc(K)); ev.res(dsga::cross_matrix(x)).fld("u", p.unchanged()).done(); }
}
template <sz C, sz R> void stepping()
{
	auto a = below(3) ? exact_arr<X, C * R>() : rand_arr<X, C * R>();
	auto m1 = make<C, R>(a), m2 = m1, m3 = m1, m4 = m1;
	{ Ev ev("++m"); marg<C, R>(ev, a); auto &r = ++m1; ev.res(r).out("after", m1).fld("self", &r == &m1).fld("u", 1).done(); }
	{ Ev ev("--m"); marg<C, R>(ev, a); auto &r = --m2; ev.res(r).out("after", m2).fld("self", &r == &m2).fld("u", 1).done(); }
	{ Ev ev("m++"); marg<C, R>(ev, a); auto r = m3++; ev.res(r).out("after", m3).fld("u", 1).done(); }
	{ Ev ev("m--"); marg<C, R>(ev, a); auto r = m4--; ev.res(r).out("after", m4).fld("u", 1).done(); }
	auto b = rand_arr<X, C * R>();
	auto m = make<C, R>(b);
	{ Ev ev("u+"); marg<C, R>(ev, b); ev.res(+m).fld("u", is<C, R>(m, b)).done(); }
	{ Ev ev("u-"); marg<C, R>(ev, b); ev.res(-m).fld("u", is<C, R>(m, b)).done(); }
	{ Ev ev("transpose"); marg<C, R>(ev, b); ev.res(dsga::transpose(m)).fld("u", is<C, R>(m, b)).done(); }
}
template <sz C, sz R, class U> void equality()
{
	auto a = exact_arr<X, C * R>(3); std::array<U, C * R> b{};
	for (sz i = 0; i < C * R; ++i) b[i] = U(a[i]);
	if (below(2)) { sz i = below(C * R); switch (below(3)) { case 0: b[i] = b[i] + U(1); break; case 1: b[i] = std::numeric_limits<U>::quiet_NaN(); a[i] = std::numeric_limits<X>::quiet_NaN(); break; default: b[i] = U(-0.0); a[i] = X(0); } }
	auto m = make<C, R>(a); auto n = make<C, R>(b);
	{ Ev ev("=="); marg<C, R>(ev, a); marg<C, R>(ev, b); ev.res(m == n).fld("u", is<C, R>(m, a) && is<C, R>(n, b)).done(); }
	{ Ev ev("!="); marg<C, R>(ev, a); marg<C, R>(ev, b); ev.res(m != n).fld("u", is<C, R>(m, a) && is<C, R>(n, b)).done(); }
	{ Ev ev("=="); marg<C, R>(ev, a); marg<C, R>(ev, a); ev.res(m == m).fld("u", is<C, R>(m, a)).done(); }
	{ Ev ev("!="); marg<C, R>(ev, b); marg<C, R>(ev, b); ev.res(n != n).fld("u", is<C, R>(n, b)).done(); }
}
template <sz C, sz R> void shape()
{
	using Y = std::conditional_t<std::is_same_v<X, float>, double, float>;
	for (unsigned k = 0; k < rounds; ++k)
	{
		auto scal = [](auto tt) { using U = typename decltype(tt)::type; with_scalar<C, R, '+', U>(); with_scalar<C, R, '-', U>(); with_scalar<C, R, '*', U>(); with_scalar<C, R, '/', U>(); };
		scal(Type<X>{}); scal(Type<Y>{}); scal(Type<int>{}); scal(Type<long long>{}); if (k % 2) { scal(Type<unsigned>{}); scal(Type<unsigned long long>{}); }
		auto mats = [](auto tt) { using U = typename decltype(tt)::type; with_matrix<C, R, '+', U>(); with_matrix<C, R, '-', U>(); with_matrix<C, R, '/', U>(); with_matrix<C, R, 'c', U>(); };
		mats(Type<X>{}); mats(Type<Y>{});
		upto<8>([&](auto kk) {
			constexpr int K = int(decltype(kk)::value), L = (K * 3 + SHARD) % 8;
			with_vector<C, R, X, K>(true); with_vector<C, R, X, K>(false);
			if constexpr (K % 4 == 0) { with_vector<C, R, Y, K>(true); with_vector<C, R, Y, K>(false); }
			if constexpr (K % 4 == 1) { with_vector<C, R, int, K>(true); with_vector<C, R, unsigned long long, K>(true); }
			outer<C, R, X, K, L>(); if constexpr (K % 3 == 0) outer<C, R, Y, K, L>(); else if constexpr (K % 3 == 1) outer<C, R, int, K, L>(); else outer<C, R, unsigned, K, L>();
			if constexpr (R == 2) from_vector<C, K>();
		});
		upto<3>([&](auto c2) { for (int ex = 0; ex < 2; ++ex) { product<C, R, X, decltype(c2)::value + 2>(ex); if ((k + decltype(c2)::value) % 2 == 0) product<C, R, Y, decltype(c2)::value + 2>(ex); } });
		for (int i = 0; i < 2; ++i) stepping<C, R>();
		for (int i = 0; i < 3; ++i) { equality<C, R, X>(); equality<C, R, Y>(); }
	}
}
#endif

#if SEC == 15
template <sz C, class T> void det(const std::array<T, C * C> &a, bool ex)
{
	auto m = make<C, C>(a);
	Ev ev("determinant"); marg<C, C>(ev, a); ev.res(dsga::determinant(m)).fld("ex", ex).fld("u", is<C, C>(m, a)).done();
}
template <sz C, class T> void inv(const std::array<T, C * C> &a, bool ex)
{
	auto m = make<C, C>(a);
	{ Ev ev("inverse"); marg<C, C>(ev, a); ev.res(dsga::inverse(m)).fld("ex", ex).fld("u", is<C, C>(m, a)).done(); }
	if (ex) { Ev ev("mulinverse"); marg<C, C>(ev, a); ev.res(below(2) ? m * dsga::inverse(m) : dsga::inverse(m) * m).fld("u", is<C, C>(m, a)).done(); }
}
// small integer matrices whose determinant is a power of two: products of elementary ones
template <sz C, class T> std::array<T, C * C> pow2()
{
	long long m[C][C] = {};		// [column][row]
	for (int tries = 0; ; ++tries)
	{
		for (sz i = 0; i < C; ++i) for (sz j = 0; j < C; ++j) m[i][j] = 0;
		bool used[C] = {};
		for (sz i = 0; i < C; ++i) { sz j; do j = below(C); while (used[j]); used[j] = true; m[i][j] = (rnd() >> 63 ? -1 : 1) * (1ll << (below(3) ? 0 : below(3))); }
		for (unsigned k = 0, n = below(8); k < n; ++k)
		{
			sz i = below(C), j = below(C);
			if (i == j) continue;
			long long f = (long long)(below(5)) - 2;
			if (below(2)) for (sz r = 0; r < C; ++r) m[i][r] += f * m[j][r]; else for (sz c = 0; c < C; ++c) m[c][i] += f * m[c][j];
		}
		bool small = true;
		for (sz i = 0; i < C; ++i) for (sz j = 0; j < C; ++j) small = small && m[i][j] >= -20 && m[i][j] <= 20;
		if (small) break;
	}
	std::array<T, C * C> a{};
	for (sz i = 0; i < C; ++i) for (sz j = 0; j < C; ++j) a[i * C + j] = T(m[i][j]);
	return a;
}
template <sz C, class T> void square()
{
	for (unsigned k = 0; k < rounds; ++k)
	{
		auto a = exact_arr<T, C * C>(C == 4 ? 2 : 6);
		for (auto &x : a) x = T(std::trunc(x));
		if (k % 3 == 0) for (auto &x : a) if (below(3) == 0) x = T(0);
		det<C>(a, true);
		std::array<T, C * C> t{}, s = a;
		for (sz i = 0; i < C; ++i) for (sz j = 0; j < C; ++j) t[i * C + j] = a[j * C + i];
		det<C>(t, true);
		sz p = below(C), q = (p + 1 + below(C - 1)) % C;
		for (sz j = 0; j < C; ++j) std::swap(s[p * C + j], s[q * C + j]);
		det<C>(s, true);
		auto b = pow2<C, T>();
		det<C>(b, true); inv<C>(b, true);
		if (k % 2) { auto m = moderate_arr<T, C * C>(); det<C>(m, false); }
		// one element per row and column, far apart magnitudes elsewhere zero
		if (k % 4 == 1) { std::array<T, C * C> z{}; bool used[C] = {}; for (sz i = 0; i < C; ++i) { sz j; do j = below(C); while (used[j]); used[j] = true; z[i * C + j] = T(std::ldexp(1.0, int(below(21)) - 10)); } det<C>(z, true); inv<C>(z, true); }
	}
}
#endif

int main(int argc, char **argv)
{
	start(argc, argv);
	seed(env_u("VERIF_SEED", 1) * 100000 + env_u("LANE", 0) * 1000 + SEC * 10 + SHARD);
	rounds = env_u("ROUNDS", 2);
#if SEC == 15
	square<XC, X>();
#else
	upto<3>([](auto r) { shape<XC, r + 2>(); });
#endif
	return finish();
}
