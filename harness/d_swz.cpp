// C01 / C02: every accessor of a vector of DIM components of type TY, on every kind of object.
// names.inc (written from the words TLC enumerates) has a line A(accessor, letters, indexes...) for each of them,
// pairs.inc a line P(accessor, letters, other accessor, its letters, indexes...) for assignments within one object.
#include "trace.hpp"
using namespace tr;
#ifndef DIM
#define DIM 4
#endif
#ifndef TY
#define TY float
#endif
#ifndef WRITE
#define WRITE 0
#endif
#ifndef KIND
#define KIND 0		// 0 owning, 1 view, 2 view_vector
#endif
using T = TY;
constexpr sz N = DIM;
using Arr = std::array<T, N>;
static const char *kindname = "0";

static Arr values()
{
	Arr a{};
	for (sz i = 0; i < N; ++i)
		for (int t = 0; t < 20; ++t)
		{
			a[i] = t < 10 ? rand_val<T>() : small_val<T>();
			bool same = false;
			for (sz j = 0; j < i; ++j) same = same || same_bits(a[i], a[j]);
			if (!same) break;
		}
	return a;
}
// the object and what it lives in
struct World
{
	T mem[N + 4]; T pad[N + 4];
#if KIND == 0
	dsga::basic_vector<T, N> obj;
	explicit World(const Arr &a) : obj() { load(a); }
	void load(const Arr &a) { for (sz i = 0; i < N + 4; ++i) mem[i] = pad[i] = filler<T>(i); for (sz i = 0; i < N; ++i) obj[i] = a[i]; }
	T at(sz i) const { return obj[i]; }
	bool rest() const { for (sz i = 0; i < N + 4; ++i) if (!same_bits(mem[i], pad[i])) return false; return true; }
#elif KIND == 1
	dsga::basic_view<true, T, N> obj;
	explicit World(const Arr &a) : obj(mem + 2) { load(a); }
	void load(const Arr &a) { for (sz i = 0; i < N + 4; ++i) mem[i] = pad[i] = filler<T>(i); for (sz i = 0; i < N; ++i) mem[2 + i] = a[i]; }
	T at(sz i) const { return mem[2 + i]; }
	bool rest() const { for (sz i = 0; i < N + 4; ++i) if ((i < 2 || i >= N + 2) && !same_bits(mem[i], pad[i])) return false; return obj.data() == mem + 2; }
#else
	dsga::view_vector<T, N> obj;
	explicit World(const Arr &a) : obj() { load(a); }
	void load(const Arr &a) { for (sz i = 0; i < N + 4; ++i) mem[i] = pad[i] = filler<T>(i); for (sz i = 0; i < N; ++i) obj[i] = a[i]; }
	T at(sz i) const { return obj[i]; }
	bool rest() const { return true; }
#endif
	World(const World &) = delete;
	bool is(const Arr &a) const { for (sz i = 0; i < N; ++i) if (!same_bits(at(i), a[i])) return false; return rest(); }
};
static void word(const char *k, const char *letters) { line += ",\""; line += k; line += "\":["; line += letters; line += ']'; }
template <sz... Is> constexpr bool distinct() { constexpr sz a[] = { Is... }; for (sz i = 0; i < sizeof...(Is); ++i) for (sz j = 0; j < i; ++j) if (a[i] == a[j]) return false; return true; }

template <class A, sz K> int writable()
{
	constexpr bool ix = requires(A a, T v) { a[0] = v; };
	constexpr bool it = requires(A a, T v) { *a.begin() = v; };
	constexpr bool da = requires(A a, T v) { *a.data() = v; };
	constexpr bool ge = requires(A a, T v) { dsga::get<0>(a) = v; };
	constexpr bool st = [] { if constexpr (K == 1) return requires(A a, T v) { a.set(v); }; else if constexpr (K == 2) return requires(A a, T v) { a.set(v, v); };
		else if constexpr (K == 3) return requires(A a, T v) { a.set(v, v, v); }; else return requires(A a, T v) { a.set(v, v, v, v); }; }();
	constexpr bool as = std::is_same_v<T, bool> ? ix : requires(A a, dsga::basic_vector<T, K> v) { a = v; };
	constexpr bool pl = std::is_same_v<T, bool> ? ix : requires(A a, dsga::basic_vector<T, K> v) { a += v; };
	constexpr bool in = std::is_same_v<T, bool> ? ix : requires(A a) { ++a; };
	return ix && it && da && ge && st && as && pl && in ? 1 : !ix && !it && !da && !ge && !st && !as && !pl && !in ? 0 : 2;
}

// every way of reading one accessor
template <sz... Is, class O, class A> void read(const char *letters, const World &w, const Arr &a, O &o, A &acc)
{
	constexpr sz K = sizeof...(Is);
	Ev ev("swread");
	std::snprintf(cur, sizeof cur, "swread ");
	for (sz i = 0, n = 7; letters[i] && n < 40; ++i) if (letters[i] != '"' && letters[i] != ',') { cur[n++] = letters[i]; cur[n] = 0; }
	ev.arr(a, kindname[0]);
	if constexpr (K == 1) { T s = acc; ev.res(s); } else if constexpr (std::is_constructible_v<dsga::basic_vector<T, K>, A &>) { dsga::basic_vector<T, K> v(acc); ev.res(v); }
	else { dsga::basic_vector<T, K> v(acc.as_base()); ev.res(v); }
	word("nm", letters);
	T ix[K], ds[K], get[K], it[K], rt[K];
	for (sz i = 0; i < K; ++i) ix[i] = i % 2 ? acc[i] : acc[int(i)];
	constexpr auto seq = dsga::make_sequence_array(std::remove_cvref_t<A>::sequence());
	const T *p = acc.data();
	for (sz i = 0; i < K; ++i) ds[i] = p[seq[i]];
	upto<K>([&](auto i) { switch (below(4)) {		// all four overloads
		case 0: get[i] = dsga::get<int(i)>(acc); break; case 1: get[i] = dsga::get<int(i)>(std::as_const(acc)); break;
		case 2: get[i] = dsga::get<int(i)>(std::move(acc)); break; default: get[i] = dsga::get<int(i)>(std::move(std::as_const(acc))); } });
	sz n = 0;
	for (auto &&x : acc) { if (n < K) it[n] = x; ++n; }
	ev.list("ix", ix, K).list("ds", ds, K).list("get", get, K).list("it", it, n < K ? n : K);
	auto r = dsga::swizzle(o, Is...);
	if constexpr (K == 1) { rt[0] = r; ev.str("rk", std::is_same_v<decltype(r), T> ? "S" : "other"); }
	else { for (sz i = 0; i < K; ++i) rt[i] = r[i]; ev.str("rk", std::is_same_v<decltype(r), dsga::basic_vector<T, K>> ? "V" : "other"); }
	ev.list("rt", rt, K).fld("cnt", n == K && std::remove_cvref_t<A>::size() == K && std::tuple_size_v<std::remove_cvref_t<A>> == K ? K : 99).fld("len", acc.length());
	if constexpr (K == 1)
	{
		// explicitly, as every other scalar type: the component's, and what a vector of one component has to say for itself
		line += ",\"cast\":["; ev.first = true;
		each(List<bool, int, unsigned, long long, unsigned long long, float, double>{}, [&](auto ty) {
			using C = typename decltype(ty)::type;
			if (!castable<C>(a[(Is + ...)])) return;
			ev.arg(static_cast<C>(acc));
			ev.arg(C(std::as_const(acc)));
			if constexpr (N == 1) { ev.arg(static_cast<C>(o)); ev.arg(C(std::as_const(o))); }
		});
		line += ']';
	}
	ev.fld("wr", writable<A &, K>()).fld("const", std::is_const_v<O> || !O::Writable).fld("u", w.is(a)).done();
}

// every way of writing one accessor
template <sz... Is, class A> void write(const char *letters, World &w, A &acc)
{
	if constexpr (distinct<Is...>())
	{
		constexpr sz K = sizeof...(Is);
		using U = std::conditional_t<std::is_same_v<T, double>, float, std::conditional_t<std::is_same_v<T, unsigned long long>, unsigned, int>>;
		for (int way = 0; way < 12; ++way)
		{
			Arr a = values();
			w.load(a);
			std::array<T, K> v{}; for (auto &x : v) x = rand_val<T>();
			std::array<U, K> y{}; for (auto &x : y) x = rand_val<U>();
			bool other = false, done = true, u = true;
			char way_name[8]; std::snprintf(way_name, sizeof way_name, "%d", way);
			std::snprintf(cur, sizeof cur, "swset way %d of ", way);
			for (sz i = 0, n = std::strlen(cur); letters[i] && n < 60; ++i) if (letters[i] != '"' && letters[i] != ',') { cur[n++] = letters[i]; cur[n] = 0; }
			dsga::basic_vector<T, K> vec; for (sz i = 0; i < K; ++i) vec[i] = v[i];
			switch (way)
			{
				case 0: if constexpr (!std::is_same_v<T, bool>) { auto &r = (acc = vec); u = static_cast<const void *>(&r) == static_cast<const void *>(&acc); } else done = false; break;
				case 1: std::apply([&](auto... x) { acc.set(x...); }, v); break;
				case 2: for (sz i = 0; i < K; ++i) acc[i] = v[i]; break;
				case 3: { auto it = acc.begin(); for (sz i = 0; i < K; ++i) *it++ = v[i]; break; }
				case 4: { auto it = acc.rbegin(); for (sz i = K; i-- > 0; ++it) *it = v[i]; break; }
				case 5: upto<K>([&](auto i) { dsga::get<int(i)>(acc) = v[i]; }); break;
				case 6: { constexpr auto seq = dsga::make_sequence_array(A::sequence()); for (sz i = 0; i < K; ++i) acc.data()[seq[i]] = v[i]; break; }
				case 7: if constexpr (!std::is_same_v<T, bool> && dsga::implicitly_convertible_to<U, T>) { other = true; dsga::basic_vector<U, K> q; for (sz i = 0; i < K; ++i) q[i] = y[i]; acc = q; } else done = false; break;
				case 8: if constexpr (!std::is_same_v<T, bool>) { Op<5, T, K> q(v); if constexpr (requires { acc = q.ref(); } && !std::is_same_v<std::remove_cvref_t<A>, std::remove_cvref_t<decltype(q.ref())>>) { acc = q.ref(); u = q.unchanged(); } else done = false; } else done = false; break;
				case 9: if constexpr (!std::is_same_v<T, bool>) { Op<4, T, K> q(v); if constexpr (requires { acc = q.ref(); } && !std::is_same_v<std::remove_cvref_t<A>, std::remove_cvref_t<decltype(q.ref())>>) { acc = q.ref(); u = q.unchanged(); } else done = false; } else done = false; break;
				case 10: if constexpr (K == 1 && !std::is_same_v<T, bool>) acc = v[0];
					else if constexpr (K == 1) done = false;
					else if constexpr (K == 2) { auto &[p, q] = acc; p = v[0]; q = v[1]; }
					else if constexpr (K == 3) { auto &[p, q, r] = acc; p = v[0]; q = v[1]; r = v[2]; }
					else { auto &[p, q, r, s] = acc; p = v[0]; q = v[1]; r = v[2]; s = v[3]; }
					break;
				default: if constexpr (K == 1 && !std::is_same_v<T, bool> && dsga::implicitly_convertible_to<U, T>) { other = true; acc = y[0]; } else if constexpr (K > 1) { sz i = 0; for (auto &x : acc) x = v[i++]; } else done = false; break;
			}
			if (!done) continue;
			char keep[sizeof cur]; std::memcpy(keep, cur, sizeof cur);
			Ev ev("swset", way_name);
			std::memcpy(cur, keep, sizeof cur);
			ev.arr(a, kindname[0]);
			if (other) ev.arr(y); else ev.arr(v);
			Arr after{}; for (sz i = 0; i < N; ++i) after[i] = w.at(i);
			line += "],\"r\":"; put_value(after.data(), N, 'V');
			word("nm", letters);
			ev.fld("u", u && w.rest()).done();
		}
	}
}
// one accessor assigned from another one of the same object
template <sz... Is, class A, class B> void alias(const char *letters, World &w, A &acc, const char *src, const B &from)
{
	if constexpr (!std::is_same_v<T, bool>)
	{
		Arr a = values();
		w.load(a);
		acc = from;
		Ev ev("swset", "self");
		ev.arr(a, kindname[0]);
		Arr after{}; for (sz i = 0; i < N; ++i) after[i] = w.at(i);
		line += "],\"r\":"; put_value(after.data(), N, 'V');
		word("nm", letters); word("src", src);
		ev.fld("u", w.rest()).done();
	}
}

template <class O> void read_all(const char *kind, World &w, const Arr &a, O &o)
{
	kindname = kind;
	w.load(a);
#define A(nm, letters, ...) read<__VA_ARGS__>(letters, w, a, o, o.nm);
#if !WRITE
#include "names.inc"
#endif
#undef A
}
static void write_all_names(const char *kind, World &w)
{
	kindname = kind;
	auto &o = w.obj; (void)o;
#define A(nm, letters, ...) write<__VA_ARGS__>(letters, w, o.nm);
#define P(nm, letters, nm2, letters2, ...) alias<__VA_ARGS__>(letters, w, o.nm, letters2, o.nm2);
#if WRITE
#include "names.inc"
#include "pairs.inc"
#endif
}
static void finished(const char *what, std::initializer_list<const char *> kinds)
{
	Ev ev("all");
	ev.results().endresults().str("what", what).fld("n", N);
	line += ",\"kinds\":["; bool f = true; for (auto k : kinds) { if (!f) line += ','; f = false; line += '"'; line += k; line += '"'; } line += ']';
	ev.done();
}
// swizzle() refuses indexes that are no component
template <class O> void refuse(const char *kind, World &w, O &o)
{
	kindname = kind;
	for (int k = 0; k < 8; ++k)
	{
		Arr a = values(); w.load(a);
		int n = 1 + int(below(4)), at = int(below(unsigned(n)));
		int ix[4]; for (int i = 0; i < 4; ++i) ix[i] = int(below(N));
		ix[at] = below(3) ? int(N + below(3)) : below(2) ? 1000 : -1 - int(below(3));
		const char *r = "nothing";
		try
		{
			switch (n)
			{
				case 1: (void)dsga::swizzle(o, ix[0]); break;
				case 2: (void)dsga::swizzle(o, ix[0], ix[1]); break;
				case 3: (void)dsga::swizzle(o, ix[0], ix[1], ix[2]); break;
				default: (void)dsga::swizzle(o, ix[0], ix[1], ix[2], ix[3]); break;
			}
		}
		catch (const std::out_of_range &) { r = "out_of_range"; }
		catch (...) { r = "another exception"; }
		Ev ev("refuse");
		ev.arr(a, kind[0]);
		line += "],\"r\":\""; line += r; line += "\",\"ix\":[";
		for (int i = 0; i < n; ++i) { if (i) line += ','; num(ix[i]); }
		line += ']';
		ev.fld("u", w.is(a)).done();
	}
}

int main(int argc, char **argv)
{
	start(argc, argv);
	seed(env_u("VERIF_SEED", 1) * 1000 + DIM * 10 + WRITE + KIND * 3);
	unsigned rounds = env_u("ROUNDS", 1);
	World w(values());
	for (unsigned k = 0; k < rounds; ++k)
	{
#if WRITE
		write_all_names(KIND == 0 ? "0" : KIND == 1 ? "2" : "6", w);
#else
		read_all(KIND == 0 ? "0" : KIND == 1 ? "2" : "6", w, values(), w.obj);
		read_all(KIND == 0 ? "1" : KIND == 1 ? "3" : "7", w, values(), std::as_const(w.obj));
#if KIND == 1
		const dsga::basic_view<false, T, N> cv(w.mem + 2);
		read_all("4", w, values(), cv);
		dsga::basic_view<false, T, N> ncv(w.mem + 2);
		read_all("5", w, values(), ncv);
#endif
#if defined(DSGA_DISABLE_ASSERTS)
		refuse(KIND == 0 ? "0" : KIND == 1 ? "2" : "6", w, w.obj);
		refuse(KIND == 0 ? "1" : KIND == 1 ? "3" : "7", w, std::as_const(w.obj));
#endif
#endif
	}
#if WRITE
	finished("swset", { KIND == 0 ? "0" : KIND == 1 ? "2" : "6" });
#elif KIND == 1
	finished("swread", { "2", "3", "4", "5" });
#else
	finished("swread", { KIND == 0 ? "0" : "6", KIND == 0 ? "1" : "7" });
#endif
	return finish();
}
