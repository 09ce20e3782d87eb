// Support for the generated construction drivers (tools/gen_ctor.py).
#pragma once
#include "trace.hpp"
using namespace tr;
// n values of type U that can be cast to T
template <class U, class T, sz N> std::array<U, N> vals()
{
	std::array<U, N> a{};
	for (auto &x : a) { for (int i = 0; i < 40; ++i) { x = rand_val<U>(); if (castable<T>(x)) break; } if (!castable<T>(x)) x = U(1); }
	return a;
}
template <class V> auto copy(V &v) { return dsga::basic_vector(v); }
template <class T, sz C, sz R> struct Mat
{
	dsga::basic_matrix<T, C, R> m; std::array<T, C * R> a;
	explicit Mat(const std::array<T, C * R> &in) : a(in) { for (sz c = 0; c < C; ++c) for (sz r = 0; r < R; ++r) m[c][r] = in[c * R + r]; }
	auto &ref() { return m; }
	bool unchanged() const { for (sz c = 0; c < C; ++c) for (sz r = 0; r < R; ++r) if (!same_bits(T(m[c][r]), a[c * R + r])) return false; return true; }
	void log(Ev &ev) const { ev.arr(a, 'A'); }
};
template <class T, sz N> void target_v(Ev &ev, const T *p) { line += "],\"r\":"; put_value(p, N, 'V'); ev.fld("n", N); char t[2] = { Tag<T>::c, 0 }; ev.str("t", t); }
template <class D, class T, sz N> void target(Ev &ev, const dsga::basic_vector<T, N> &d) { T a[N]; for (sz i = 0; i < N; ++i) a[i] = d[i]; target_v<T, N>(ev, a); }
template <class D, class T, sz N> void target(Ev &ev, const dsga::view_vector<T, N> &d) { T a[N]; for (sz i = 0; i < N; ++i) a[i] = d[i]; target_v<T, N>(ev, a); }
template <class D, class T, sz C, sz R> void target(Ev &ev, const dsga::basic_matrix<T, C, R> &d) { ev.res(d).fld("tc", C).fld("tr", R); }
template <class D> struct Off;
template <class T, sz N> struct Off<dsga::basic_vector<T, N>> { static void f(bool ok, const char *c) { Ev ev("offer"); ev.results().endresults().fld("ok", ok).fld("n", N); line += ",\"counts\":["; line += c; line += ']'; ev.done(); } };
template <class T, sz N> struct Off<dsga::view_vector<T, N>> : Off<dsga::basic_vector<T, N>> {};
template <class T, sz C, sz R> struct Off<dsga::basic_matrix<T, C, R>> { static void f(bool ok, const char *c) { Ev ev("moffer"); ev.results().endresults().fld("ok", ok).fld("c", C).fld("row", R); line += ",\"counts\":["; line += c; line += ']'; ev.done(); } };
template <class D> void offer(bool ok, const char *counts) { Off<D>::f(ok, counts); }
