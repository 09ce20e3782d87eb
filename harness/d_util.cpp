// Writes down what the library's compile-time vocabulary says: sequences, concepts, names, deduced types, static members.
// The facts are the compiler's; the driver only lists them.
#include "trace.hpp"
#include <iterator>
#include <vector>
using namespace tr;
#ifndef SHARD
#define SHARD 0
#endif
#ifndef USEED
#define USEED 1
#endif

template <class T> constexpr const char *letter()
{
#define L(type, name) if constexpr (std::is_same_v<T, type>) return name; else
	L(bool, "b") L(int, "i") L(unsigned, "u") L(long long, "l") L(unsigned long long, "m") L(float, "f") L(double, "d") L(std::size_t, "z")
	L(signed char, "a") L(unsigned char, "h") L(char, "c") L(short, "s") L(unsigned short, "t") L(long, "g") L(long double, "e")
	L(const int, "ki") L(int &, "ri") L(const double, "kd") L(double &, "rd")
	L(const bool, "kb") L(bool &, "rb") L(const unsigned, "ku") L(const long long, "kl") L(const unsigned long long, "km") L(unsigned &, "ru") L(const float, "kf") L(float &, "rf")
	return "?";
#undef L
}
using Every = List<bool, int, unsigned, long long, unsigned long long, float, double, std::size_t, signed char, unsigned char, char, short, unsigned short, long, long double, const int, int &, const double, double &,
	const bool, bool &, const unsigned, const long long, const unsigned long long, unsigned &, const float, float &>;
constexpr sz EVERY = 27;
using Elems = List<bool, int, unsigned, long long, unsigned long long, float, double, std::size_t>;

#define C_(x) sz(decltype(x)::value)
struct U : Ev
{
	explicit U(const char *q) : Ev("util", q) { line = "{\"o\":\"util\",\"q\":\""; line += q; line += '"'; }
	U &seq(const char *k, auto const &v) { line += ",\""; line += k; line += "\":["; bool f = true; for (auto x : v) { if (!f) line += ','; f = false; num((long long)x); } line += ']'; return *this; }
	U &str(const char *k, const char *v) { Ev::str(k, v); return *this; }
	U &fld(const char *k, long long v) { Ev::fld(k, v); return *this; }
	U &flag(const char *k, bool b) { line += ",\""; line += k; line += b ? "\":true" : "\":false"; return *this; }
};
// read a sequence without the library's help
template <sz... Is> std::vector<long long> list(std::index_sequence<Is...>) { return { (long long)Is... }; }

template <sz S, sz E> void ranges()
{
	U("range").seq("a", std::array{ S, E }).seq("r", list(dsga::make_index_range<S, E>{})).done();
	U("closed").seq("a", std::array{ S, E }).seq("r", list(dsga::make_closed_index_range<S, E>{})).done();
}
constexpr std::uint64_t mixed(std::uint64_t k) { std::uint64_t z = (k + USEED * 1000003ull) * 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return (z ^ (z >> 31)) >> 8; }
template <class T, sz N, sz K> constexpr std::array<T, N> some() { std::array<T, N> a{}; for (sz i = 0; i < N; ++i) a[i] = T(mixed(K * 100 + i) % 120); return a; }
template <auto A> concept Sequenceable = requires { typename dsga::make_array_sequence<A>; };
template <sz... Is> void sequence()
{
	std::index_sequence<Is...> s;
	U("seqarray").seq("a", list(s)).seq("r", dsga::make_sequence_array(s)).done();
	U("reverse").seq("a", list(s)).seq("r", list(dsga::make_reverse_sequence(s))).done();
}
template <class T, sz N, sz K> void sequences()
{
	static constexpr auto a = some<T, N, K>();
	U("arrayseq").seq("a", a).seq("r", list(dsga::make_array_sequence<a>{})).done();
	[&]<sz... Is>(std::index_sequence<Is...>) { sequence<sz(a[Is])...>(); }(std::make_index_sequence<N>{});
	if constexpr (std::is_signed_v<T>)
	{
		static constexpr auto b = [] { auto x = some<T, N, K>(); x[mixed(K) % N] = T(-1 - int(mixed(K + 7) % 5)); return x; }();
		U("negative").seq("a", b).flag("ok", Sequenceable<b>).done();
	}
}
template <sz Size, sz Count, sz... Is> void swizzle()
{
	constexpr bool ok = dsga::indexable<Size, Count, Is...>;
	U("indexable").seq("a", list(std::index_sequence<Is...>{})).flag("ok", ok).fld("size", Size).fld("count", Count).done();
	if constexpr (ok) U("writable").seq("a", list(std::index_sequence<Is...>{})).flag("ok", dsga::writable_swizzle<Size, Count, Is...>).fld("size", Size).done();
}
template <class T> void concepts()
{
#define C(name) U("concept").flag("ok", dsga::name<T>).str("name", #name).str("t", letter<T>()).done();
	C(bool_scalar) C(signed_scalar) C(unsigned_scalar) C(numeric_integral_scalar) C(floating_point_scalar) C(non_bool_scalar) C(dimensional_scalar)
#undef C
	upto<7>([](auto n) { U("storage").flag("ok", dsga::dimensional_storage<T, C_(n)>).str("t", letter<T>()).fld("n", n).done(); });
	upto<EVERY>([](auto jj) {
		using V = nth<jj, Every>;
		U("promotes").flag("ok", dsga::promotes_to<T, V>).str("t", letter<T>()).str("u", letter<V>()).done();
		U("implicit").flag("ok", dsga::implicitly_convertible_to<T, V>).str("t", letter<T>()).str("u", letter<V>()).done();
	});
}
enum class E8 : unsigned char { low = 0, mid = 129, high = 255 };
enum class Es : short { low = -32768, one = 1, high = 32767 };
enum class Ei { minus = -7, seven = 7 };
enum Plainly : int { three = 3 };
enum class El : long long { v = -100 };
enum class Eb : bool { no, yes };
template <class E> void underlying(E e)
{
	auto r = dsga::to_underlying(e);
	U("underlying").seq("a", std::array{ (long long)static_cast<std::underlying_type_t<E>>(e) }).seq("r", std::array{ (long long)r }).str("t", letter<decltype(r)>()).str("u", letter<std::underlying_type_t<E>>()).done();
}

// ---------------------------------------------------------------- types
template <class X> struct Kind;
template <class T, sz N> struct Kind<dsga::basic_vector<T, N>> { static constexpr const char *k = "V"; static constexpr sz n = N; using type = T; };
template <class T, sz N> struct Kind<dsga::view_vector<T, N>> { static constexpr const char *k = "X"; static constexpr sz n = N; using type = T; };
template <bool M, class T, sz N> struct Kind<dsga::basic_view<M, T, N>> { static constexpr const char *k = M ? "W" : "WR"; static constexpr sz n = N; using type = T; };
template <bool M, class T, sz N> struct Kind<dsga::storage_wrapper<M, T, N>> { static constexpr const char *k = "B"; static constexpr sz n = N; using type = T; };
template <bool M, class T, sz N> struct Kind<dsga::view_wrapper<M, T, N>> { static constexpr const char *k = M ? "Y" : "YR"; static constexpr sz n = N; using type = T; };
template <bool M, class T, sz S, sz C, sz... Is> struct Kind<dsga::indexed_vector<M, T, S, C, Is...>> { static constexpr const char *k = M ? "Z" : "ZR"; static constexpr sz n = S; using type = T; };
template <bool M, class T, sz S, sz C, sz... Is> struct Kind<dsga::indexed_view<M, T, S, C, Is...>> { static constexpr const char *k = M ? "U" : "UR"; static constexpr sz n = S; using type = T; };

template <class X> void name(const char *s) { U("name").str("name", s).str("k", Kind<X>::k).str("t", letter<typename Kind<X>::type>()).seq("dims", std::array{ Kind<X>::n }).done(); }
template <class T, sz C, sz R> void matname(const char *s, Type<dsga::basic_matrix<T, C, R>>) { U("name").str("name", s).str("k", "M").str("t", letter<T>()).seq("dims", std::array{ C, R }).done(); }

template <class X, sz... Is> void describe(std::index_sequence<Is...>)
{
	using K = Kind<X>;
	using T = typename K::type;
	T cells[4]{};
	auto make = [&]() -> X { if constexpr (std::is_constructible_v<X, const T *> && (K::k[0] == 'W' || K::k[0] == 'Y' || K::k[0] == 'U')) return X(cells); else return X{}; };
	X x = make();
	U u("type");
	u.str("k", K::k).str("t", letter<T>()).fld("n", K::n).seq("ix", list(std::index_sequence<Is...>{}));
	u.fld("length", std::as_const(x).length()).fld("size", (long long)X::size()).fld("tsize", (long long)std::tuple_size_v<X>);
	u.seq("offs", X::offsets).seq("seq", list(X::sequence()));
	u.str("vt", letter<typename X::value_type>()).str("te", letter<std::tuple_element_t<sizeof...(Is) - 1, X>>());
	u.flag("writable", X::Writable).flag("mutable", X::Mutable);
	u.flag("lval", std::is_same_v<decltype(x[0]), T &> && std::is_same_v<decltype(*x.begin()), T &>).flag("clval", !std::is_same_v<decltype(std::as_const(x)[0]), const T &> || !std::is_same_v<decltype(*std::as_const(x).begin()), const T &>);
	using I = decltype(x.begin()); using CI = decltype(std::as_const(x).begin());
	u.str("it", std::contiguous_iterator<I> && std::contiguous_iterator<CI> ? "contiguous" : std::random_access_iterator<I> && std::random_access_iterator<CI> ? "random" : "other");
	u.flag("copyable", std::is_copy_constructible_v<X> && std::is_move_constructible_v<X>).flag("standard", std::is_standard_layout_v<X>).flag("assignable", std::is_copy_assignable_v<X>);
	u.fld("bytes", sizeof(X)).fld("each", sizeof(T)).done();
}
template <class X> void plain() { describe<X>(std::make_index_sequence<Kind<X>::n>{}); }
template <class T, sz S, sz... Is> void swizzles()
{
	std::index_sequence<Is...> s;
	describe<dsga::indexed_vector<true, T, S, sizeof...(Is), Is...>>(s); describe<dsga::indexed_vector<false, T, S, sizeof...(Is), Is...>>(s);
	describe<dsga::indexed_view<true, T, S, sizeof...(Is), Is...>>(s); describe<dsga::indexed_view<false, T, S, sizeof...(Is), Is...>>(s);
}
template <class X> void deduced(const char *how, std::vector<const char *> from)
{
	U u("ctad");
	u.str("how", how).str("t", letter<typename Kind<X>::type>()).fld("n", Kind<X>::n);
	line += ",\"from\":["; bool f = true; for (auto s : from) { if (!f) line += ','; f = false; line += '"'; line += s; line += '"'; } line += ']';
	u.done();
}
template <class... Ts> void ctad(Ts... v)
{
	// braces refuse narrowing in aggregates, so the wrapper is asked with one type only
	deduced<decltype(dsga::basic_vector(v...))>("vector", { letter<Ts>()... });
	deduced<decltype(dsga::view_vector(v...))>("view_vector", { letter<Ts>()... });
	if constexpr ((std::is_same_v<Ts, nth<0, List<Ts...>>> && ...)) deduced<decltype(dsga::storage_wrapper{ v... })>("storage", { letter<Ts>()... });
}
template <class X> void ctadv(X &x)
{
	using V = decltype(dsga::basic_vector(x)); using W = decltype(dsga::view_vector(x));
	U("ctadv").str("how", "vector").str("t", letter<typename Kind<V>::type>()).fld("n", Kind<V>::n).str("u", letter<std::remove_cvref_t<decltype(x[0])>>()).fld("m", x.length()).done();
	U("ctadv").str("how", "view_vector").str("t", letter<typename Kind<W>::type>()).fld("n", Kind<W>::n).str("u", letter<std::remove_cvref_t<decltype(x[0])>>()).fld("m", x.length()).done();
}

template <class T, class V> void pairs() { ctad(T(1), V(1)); ctad(T(1), V(1), T(0)); ctad(V(1), V(0), V(1), T(1)); }
template <class T, int K, sz N> void from_kind() { std::array<T, N> a{}; Op<K, T, N> x(a); decltype(auto) o = x.ref(); ctadv(o); }
template <class T, sz N> void from_kinds() { from_kind<T, 2, N>(); from_kind<T, 3, N>(); from_kind<T, 4, N>(); from_kind<T, 5, N>(); from_kind<T, 7, N>(); }
template <class T> void deductions()
{
	pairs<T, bool>(); pairs<T, int>(); pairs<T, unsigned>(); pairs<T, long long>(); pairs<T, unsigned long long>(); pairs<T, float>(); pairs<T, double>(); pairs<T, std::size_t>();
	ctad(T(1), T(0), T(1)); ctad(T(1), T(0));
	from_kinds<T, 1>(); from_kinds<T, 2>(); from_kinds<T, 3>(); from_kinds<T, 4>();
}
int main(int argc, char **argv)
{
	start(argc, argv);
#if SHARD == 0
	upto<9>([](auto s) { upto<9>([](auto e) { ranges<C_(s), C_(e)>(); }); });
	ranges<100, 103>(); ranges<103, 100>(); ranges<0, 40>(); ranges<40, 0>();
	upto<6>([](auto k) { sequences<int, 1, C_(k)>(); sequences<int, 4, C_(k)>(); sequences<std::size_t, 3, C_(k)>(); sequences<unsigned char, 5, C_(k)>(); sequences<long long, 2, C_(k)>(); sequences<short, 7, C_(k)>(); });
	sequence<>(); sequence<5>(); sequence<3, 3>(); sequence<0, 1, 2, 3, 4, 5>();
	upto<7>([](auto n) { U("dimsize").flag("ok", dsga::dimensional_size<C_(n)>).fld("n", n).done(); });
	underlying(E8::low); underlying(E8::mid); underlying(E8::high); underlying(Es::low); underlying(Es::one); underlying(Es::high); underlying(Ei::minus); underlying(Ei::seven);
	underlying(three); underlying(El::v); underlying(Eb::no); underlying(Eb::yes);
#elif SHARD == 1
	// every choice of components, and some past the end or too many
	upto<5>([](auto size) {
		constexpr sz S = size;
		upto<5>([](auto i) { swizzle<S, 1, C_(i)>(); swizzle<S, 2, C_(i)>(); swizzle<S, 0, C_(i)>();
			upto<5>([](auto j) { swizzle<S, 2, C_(i), C_(j)>(); swizzle<S, 1, C_(i), C_(j)>();
				if constexpr (S >= 2) upto<4>([](auto k) { swizzle<S, 3, C_(i), C_(j), C_(k)>(); }); }); });
		swizzle<S, 0>(); swizzle<S, 5, 0, 1, 2, 3, 0>(); swizzle<S, 4, 0, 1, 2, 3, 0>();
	});
	upto<4>([](auto i) { upto<4>([](auto j) { upto<4>([](auto k) { upto<4>([](auto l) { swizzle<4, 4, C_(i), C_(j), C_(k), C_(l)>(); if constexpr (C_(l) == C_(k)) swizzle<3, 4, C_(i), C_(j), C_(k), C_(l)>(); }); }); }); });
#elif SHARD == 2
	upto<EVERY>([](auto ii) { concepts<nth<ii, Every>>(); });
#elif SHARD == 3
#define A(x) name<dsga::x>(#x);
#define A4(p) A(p##1) A(p##2) A(p##3) A(p##4)
#define VS(p) A(p##scal) A(p##vec2) A(p##vec3) A(p##vec4) A4(p##view) A4(c##p##view)
	VS(b) VS(i) VS(u) VS(ll) VS(ull) VS(f) VS(d)
	A(scal) A(vec2) A(vec3) A(vec4) A4(view) A4(cview)
#define MA(x) matname(#x, Type<dsga::x>{});
#define MS(p) MA(p##2x2) MA(p##2x3) MA(p##2x4) MA(p##3x2) MA(p##3x3) MA(p##3x4) MA(p##4x2) MA(p##4x3) MA(p##4x4) MA(p##2) MA(p##3) MA(p##4)
	MS(mat) MS(dmat)
	line = "{\"o\":\"names\"}\n"; buf += line;
	upto<8>([](auto ii) { deductions<nth<C_(ii), Elems>>(); });
#else
	using T = nth<SHARD - 4, Elems>;
	upto<4>([](auto nn) {
		constexpr sz N = nn + 1;
		plain<dsga::basic_vector<T, N>>(); plain<dsga::view_vector<T, N>>(); plain<dsga::basic_view<true, T, N>>(); plain<dsga::basic_view<false, T, N>>();
		plain<dsga::storage_wrapper<true, T, N>>(); plain<dsga::view_wrapper<true, T, N>>(); plain<dsga::view_wrapper<false, T, N>>();
		upto<N>([](auto i) { swizzles<T, N, C_(i)>(); upto<N>([](auto j) { swizzles<T, N, C_(i), C_(j)>(); }); });
	});
	swizzles<T, 4, 2, 0, 1>(); swizzles<T, 4, 3, 3, 1>(); swizzles<T, 4, 3, 2, 1, 0>(); swizzles<T, 4, 1, 0, 1, 2>(); swizzles<T, 3, 2, 0, 1>(); swizzles<T, 3, 0, 2, 2, 1>(); swizzles<T, 2, 1, 0, 1>();
#endif
	return finish();
}
