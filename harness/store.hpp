// The world of spec/BigWorld.tla as a C++ program, and the observation of all of it after every operation.
#pragma once
#include "trace.hpp"
#include <algorithm>
#include <bit>
#include <cstring>
#include <optional>
#include <utility>
#include <vector>

namespace st
{
	using namespace tr;
	template <class T> constexpr bool isf = std::is_floating_point_v<T>;
	// the element that stands for the number v of the specification: the number itself, or a token, of which only the identity matters
	template <class T> T K(long long v)
	{
#ifdef TOKENS
		constexpr std::uint64_t f64[] = { 0, 0x8000000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 0x7ff8000000000123, 1,
			0x8000000000000001, 0x000fffffffffffff, 0x0010000000000000, 0x8010000000000000, 0x7fefffffffffffff, 0xffefffffffffffff, 0x3ff0000000000000, 0x3ff0000000000001 };
		constexpr std::uint32_t f32[] = { 0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7fc00123, 1,
			0x80000001, 0x007fffff, 0x00800000, 0x80800000, 0x7f7fffff, 0xff7fffff, 0x3f800000, 0x3f800001 };
		const std::uint64_t n = static_cast<std::uint64_t>(v + 9);
		if constexpr (std::is_same_v<T, double>) return n < 16 ? std::bit_cast<T>(f64[n]) : std::bit_cast<T>(0xbff123456789abcdu + n);
		else if constexpr (std::is_same_v<T, float>) return n < 16 ? std::bit_cast<T>(f32[n]) : std::bit_cast<T>(static_cast<std::uint32_t>(0xbf923456u + n));
		else if (v == 9 && std::is_signed_v<T>) return std::numeric_limits<T>::min();
		else if (v == 8) return std::numeric_limits<T>::max();
		else return static_cast<T>(n * 0x9e3779b97f4a7c15u);
#else
		return T(v);
#endif
	}
	struct NoMat {};
	template <class T> auto mat_type() { if constexpr (isf<T>) return Type<dsga::basic_matrix<T, 2, 3>>{}; else return Type<std::array<std::array<T, 3>, 2>>{}; }

	template <class T, class U> struct World
	{
		dsga::basic_vector<T, 4> a{}, a2{};
		dsga::basic_vector<T, 3> v3{}, w3{};
		dsga::basic_vector<T, 2> v2{}, w2{};
		dsga::basic_vector<T, 1> v1{}, w1{};
		T s[10]{};
		dsga::view_vector<T, 4> e{}, e2{};
		dsga::view_vector<T, 3> f{};
		dsga::view_vector<T, 2> g{};
		dsga::view_vector<T, 1> h{};
		std::optional<dsga::basic_vector<T, 4>> n4{ std::in_place };
		std::optional<dsga::basic_vector<T, 3>> n3{ std::in_place };
		std::optional<dsga::basic_vector<T, 2>> n2{ std::in_place };
		std::optional<dsga::view_vector<T, 4>> x4{ std::in_place };
		std::array<T, 3> ar{};
		dsga::basic_vector<U, 4> ua{};
		dsga::basic_vector<U, 2> ub{};
		dsga::view_vector<U, 3> uf{};
		typename decltype(mat_type<T>())::type M{}, N{};
		std::optional<dsga::basic_view<true, T, 4>> p{}, p2{};
		std::optional<dsga::basic_view<true, T, 3>> q{}, q2{};
		std::optional<dsga::basic_view<true, T, 2>> r{}, r2{};
		std::optional<dsga::basic_view<true, T, 1>> o{}, o2{};
		std::optional<dsga::basic_view<false, T, 4>> cp{};
		std::optional<dsga::basic_view<false, T, 2>> cr{};

		dsga::storage_wrapper<true, T, 4> t1{}, t2{};
		dsga::indexed_vector<true, T, 4, 3, 2, 0, 1> iv{};
		dsga::dexvec2<true, T, 3, 2, 0> iw{};
		std::optional<dsga::view_wrapper<true, T, 3>> vw{}, vx{};
		std::optional<dsga::view_wrapper<false, T, 3>> cw{};
		std::optional<dsga::indexed_view<true, T, 4, 3, 3, 1, 2>> jv{};

		static constexpr int CELLS = 96;
		// the address of a cell: how a program gets at the storage behind it
		T *cell(int c)
		{
			if (c <= 4) return &a[c - 1];
			if (c <= 8) return &a2[c - 5];
			if (c <= 11) return &v3[c - 9];
			if (c <= 14) return &w3[c - 12];
			if (c <= 16) return &v2[c - 15];
			if (c <= 18) return &w2[c - 17];
			if (c == 19) return &v1[0];
			if (c == 20) return &w1[0];
			if (c <= 30) return &s[c - 21];
			if (c <= 34) return &e[c - 31];
			if (c <= 38) return &e2[c - 35];
			if (c <= 41) return &f[c - 39];
			if (c <= 43) return &g[c - 42];
			if (c == 44) return &h[0];
			if (c <= 48) return &(*n4)[c - 45];
			if (c <= 51) return &(*n3)[c - 49];
			if (c <= 53) return &(*n2)[c - 52];
			if (c <= 57) return &(*x4)[c - 54];
			if (c <= 60) return &ar[c - 58];
			if (c >= 94) return &iw.base[c - 94];
			if (c >= 90) return &iv.base[c - 90];
			if (c >= 86) return &t2.store[c - 86];
			if (c >= 82) return &t1.store[c - 82];
			if (c >= 70) { int k = (c - 70) % 6; auto &m = c < 76 ? M : N; return &m[k / 3][k % 3]; }
			return nullptr;
		}
		U *ucell(int c)
		{
			if (c >= 61 && c <= 64) return &ua[c - 61];
			if (c >= 65 && c <= 66) return &ub[c - 65];
			if (c >= 67 && c <= 69) return &uf[c - 67];
			return nullptr;
		}
		int where(const T *ptr) { for (int c = 1; c <= CELLS; ++c) if (const T *x = cell(c); x && x == ptr) return c; return 0; }
		void setup()
		{
			for (int c = 1; c <= CELLS; ++c)
			{
				long long v = std::is_same_v<T, bool> ? ((c * c + c) % 3) % 2 : c % 23;
				if (T *t = cell(c)) *t = K<T>(v); else *ucell(c) = K<U>(v);
			}
			p.emplace(cell(21)); p2.emplace(cell(26)); q.emplace(cell(22)); q2.emplace(cell(27)); r.emplace(cell(23)); r2.emplace(cell(1));
			o.emplace(cell(24)); o2.emplace(cell(9)); cp.emplace(cell(23)); cr.emplace(cell(21));
			vw.emplace(cell(24)); vx.emplace(cell(28)); cw.emplace(cell(22)); jv.emplace(cell(25));
		}
	};

	template <class X> void put_num(X v)
	{
#ifdef TOKENS
		if constexpr (!std::is_same_v<X, int>)		// (the answers to questions are ints)
		{
			for (int k = -9; k < 23; ++k) if (X t = K<X>(k); std::memcmp(&t, &v, sizeof v) == 0) { num(k); return; }
			line += "\"changed\"";
			return;
		}
#endif
		// only exact small numbers are admitted by the specification; anything else shows up as a string
		if constexpr (std::is_floating_point_v<X>)
		{
			if (v == X(static_cast<long long>(v)) && v < 1e9 && v > -1e9) { num(static_cast<long long>(v)); return; }
			line += "\"inexact\"";
		}
		else if (static_cast<long long>(v) < 1000000000 && static_cast<long long>(v) > -1000000000) num(static_cast<long long>(v));
		else line += "\"big\"";
	}
	template <class W> void snapshot(W &w)
	{
		line += ",\"m\":[";
		for (int c = 1; c <= W::CELLS; ++c) { if (c > 1) line += ','; if (auto *t = w.cell(c)) put_num(*t); else put_num(*w.ucell(c)); }
		line += "],\"b\":{";
		auto bnd = [&](const char *n, auto &v, bool first = false) { if (!first) line += ','; line += '"'; line += n; line += "\":"; num(w.where(std::as_const(*v).data())); };
		bnd("p", w.p, true); bnd("p2", w.p2); bnd("q", w.q); bnd("q2", w.q2); bnd("r", w.r); bnd("r2", w.r2); bnd("o", w.o); bnd("o2", w.o2); bnd("cp", w.cp); bnd("cr", w.cr);
		bnd("vw", w.vw); bnd("vx", w.vx); bnd("cw", w.cw); bnd("jv", w.jv);
		line += "},\"s2\":{";
		auto shw = [&](const char *n, auto &v, bool first = false) {
			if (!first) line += ',';
			line += '"'; line += n; line += "\":[";
			for (int i = 0; i < v->length(); ++i) { if (i) line += ','; put_num((*v)[i]); }
			line += ']'; };
		shw("p", w.p, true); shw("p2", w.p2); shw("q", w.q); shw("q2", w.q2); shw("r", w.r); shw("r2", w.r2); shw("o", w.o); shw("o2", w.o2); shw("cp", w.cp); shw("cr", w.cr);
		shw("vw", w.vw); shw("vx", w.vx); shw("cw", w.cw); shw("jv", w.jv);
		line += '}';
	}
	inline void begin_event(const char *head) { std::snprintf(cur, sizeof cur, "store event %llu", lines); line = head; }
	template <class W> void end_event(W &w) { snapshot(w); line += "}\n"; buf += line; ++lines; if (buf.size() > (1u << 20)) flush(); }
	template <class X> const void *addr(const X &x) { return static_cast<const void *>(std::addressof(x)); }

	struct Ret
	{
		bool first = true;
		Ret() { line += ",\"r\":["; }
		template <class X> void operator()(X v) { if (!first) line += ','; first = false; put_num(v); }
		void done() { line += ']'; }
	};
	template <class V> void ret_indexed(const V &v) { Ret r; if constexpr (Scal<V>) r(v); else for (int i = 0; i < v.length(); ++i) r(v[i]); r.done(); }
	template <class V> void ret_iter(V &v) { Ret r; for (auto it = v.begin(); it != v.end(); ++it) r(*it); r.done(); }
	template <class V> void ret_citer(V &v) { Ret r; for (auto it = v.cbegin(); it != v.cend(); it++) r(*it); r.done(); }
	template <class V> void ret_riter(V &v)
	{
		Ret r;
		std::vector<std::remove_cvref_t<decltype(v[0])>> t;
		for (auto it = v.rbegin(); it != v.rend(); ++it) t.push_back(*it);
		for (sz i = t.size(); i-- > 0;) r(t[i]);
		r.done();
	}
	template <class V> void ret_range(V &v) { Ret r; for (auto &&x : v) r(x); r.done(); }
	template <class V, sz... Is> void ret_get(V &v, std::index_sequence<Is...>) {
		Ret r;
		// all four overloads name the element itself
		auto one = [&](auto ii) {
			constexpr int I = int(decltype(ii)::value);
			const void *want = addr(v[I]);
			auto &&c = get<I>(std::move(v)); auto &&d = get<I>(std::move(std::as_const(v)));
			if (addr(get<I>(v)) != want || addr(get<I>(std::as_const(v))) != want || addr(c) != want || addr(d) != want) { if (!r.first) line += ','; r.first = false; line += "\"elsewhere\""; }
			static unsigned turn = 0;
			switch (++turn % 4) { case 0: r(get<I>(v)); break; case 1: r(get<I>(std::as_const(v))); break; case 2: r(c); break; default: r(d); }
		};
		(one(std::integral_constant<sz, Is>{}), ...);
		r.done();
	}
	template <class V> void ret_data(V &v)
	{
		Ret r;
		auto sq = dsga::make_sequence_array(v.sequence());
		const auto *d = v.data();
		for (sz i : sq) r(d[i]);
		r.done();
	}
	// a vector seen as its base class
	template <bool W, class T, sz C, class D> auto &vb(dsga::vector_base<W, T, C, D> &v) { return v; }
	template <bool W, class T, sz C, class D> const auto &vb(const dsga::vector_base<W, T, C, D> &v) { return v; }
	template <class C> void ret_cont(const C &c, int n) { Ret r; for (int i = 0; i < n; ++i) r(c[i]); r.done(); }
	template <class V, class K> void write_data(V &v, int i, K k)
	{
		auto sq = dsga::make_sequence_array(v.sequence());
		v.data()[sq[i]] = k;
	}
}
