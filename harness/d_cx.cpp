// C23: every call is evaluated twice, by the compiler in a constant expression and at run time.
// SEC picks a group of functions, SHARD the element type, CXSEED the inputs.
#include "trace.hpp"
using namespace tr;

#ifndef SHARD
#define SHARD 0
#endif
#ifndef CXSEED
#define CXSEED 1
#endif
#ifndef CASES
#define CASES 8		// inputs of every call
#endif
using ALLT = List<float, double, int, unsigned, long long, unsigned long long, bool>;
using X = nth<SHARD, ALLT>;
template <class T> constexpr bool isf = std::is_floating_point_v<T>;

// ---------------------------------------------------------------- inputs, drawn the same way by the compiler and at run time
struct Rng
{
	std::uint64_t s;
	constexpr std::uint64_t next() { s += 0x9E3779B97F4A7C15ull; std::uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	constexpr unsigned below(unsigned n) { return unsigned((next() >> 33) % n); }
	constexpr bool coin() { return next() >> 63; }
};
template <class T> constexpr T bitsof(std::uint64_t b) { if constexpr (sizeof(T) == 4) return std::bit_cast<T>(std::uint32_t(b)); else return std::bit_cast<T>(b); }
template <class T> constexpr std::uint64_t asbits(T v) { if constexpr (std::is_same_v<T, bool>) return v; else if constexpr (sizeof(T) == 4) return std::bit_cast<std::uint32_t>(v); else return std::bit_cast<std::uint64_t>(v); }
template <class T> constexpr T towards(T x, bool away)		// the neighbour, of a number that is not zero
{
	std::uint64_t b = asbits(x);
	return bitsof<T>(away ? b + 1 : b - 1);
}
template <class T> constexpr bool fin(T x) { if constexpr (isf<T>) return x == x && x <= std::numeric_limits<T>::max() && x >= -std::numeric_limits<T>::max(); else return true; }
template <class T> constexpr T pow2(int e)
{
	T r = 1;
	for (int i = e; i > 0; --i) r *= 2;
	for (int i = e; i < 0; ++i) r /= 2;
	return r;
}
struct Any		// any finite number
{
	template <class T> static constexpr T val(Rng &r)
	{
		if constexpr (std::is_same_v<T, bool>) return r.coin();
		else if constexpr (!isf<T>)
		{
			using L = std::numeric_limits<T>;
			switch (r.below(5))
			{
				case 0: { const T sp[] = { T(0), T(1), T(-1), L::max(), L::min(), T(2), T(L::max() - 1), T(L::min() + 1) }; return sp[r.below(8)]; }
				case 1: return T((long long)(r.below(41)) - 20);
				default: return T(r.next() >> r.below(sizeof(T) * 8 - 1));
			}
		}
		else
		{
			using L = std::numeric_limits<T>;
			constexpr bool f = sizeof(T) == 4;
			switch (r.below(6))
			{
				case 0: { const T sp[] = { T(0), -T(0), T(1), -T(1), L::max(), -L::max(), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::epsilon(), T(0.5) }; return sp[r.below(12)]; }
				case 1: return T(int(r.below(41)) - 20);
				case 2: return bitsof<T>(r.next() & (f ? 0x80ffffffull : 0x801fffffffffffffull));
				case 3: { std::uint64_t b = r.next(); if constexpr (f) return bitsof<T>((b & 0x807fffffull) | (std::uint64_t(127 - 12 + r.below(25)) << 23)); else return bitsof<T>((b & 0x800fffffffffffffull) | (std::uint64_t(1023 - 20 + r.below(41)) << 52)); }
				default: { T x = bitsof<T>(r.next()); return fin(x) ? x : T(7.5); }
			}
		}
	}
};
struct Special		// infinities and NaN as well
{
	template <class T> static constexpr T val(Rng &r)
	{
		if constexpr (isf<T>) { using L = std::numeric_limits<T>; if (r.below(4) == 0) { const T sp[] = { L::infinity(), -L::infinity(), L::quiet_NaN() }; return sp[r.below(3)]; } }
		return Any::val<T>(r);
	}
};
struct Round		// where rounding is delicate
{
	template <class T> static constexpr T val(Rng &r)
	{
		if constexpr (!isf<T>) return Any::val<T>(r);
		else
		{
			using L = std::numeric_limits<T>;
			constexpr T big = T(1ull << (L::digits - 2));
			auto k = [&](int n) { return T(int(r.below(2 * n + 1)) - n); };
			T x{};
			switch (r.below(10))
			{
				case 0: return k(8) + T(0.5);
				case 1: return towards(k(8) + T(0.5), r.coin());
				case 2: x = k(8); return x == 0 ? (r.coin() ? L::denorm_min() : -L::denorm_min()) : towards(x, r.coin());
				case 3: x = big * T(1u << r.below(4)); x += k(4); if (r.coin()) x += T(0.5); return r.coin() ? x : -x;
				case 4: x = big * T(1u << r.below(4)); x = towards(x, r.coin()); return r.coin() ? x : -x;
				case 5: x = big * T(2) - T(0.5); return r.coin() ? x : -x;		// the largest with a fraction
				case 6: x = towards(T(0.5), false); return r.coin() ? x : -x;
				case 7: return k(2000) / T(8);
				case 8: { const T sp[] = { T(0), -T(0), L::denorm_min(), -L::denorm_min(), L::max(), -L::max(), T(0.5), T(-0.5), T(1) - L::epsilon() / 2, T(9223372036854775808.0), T(-9223372036854775808.0), T(4294967296.0), T(2147483648.0), T(-2147483648.0) }; return sp[r.below(14)]; }
				default: return Any::val<T>(r);
			}
		}
	}
};
struct Pos		// positive numbers of every size
{
	template <class T> static constexpr T val(Rng &r)
	{
		using L = std::numeric_limits<T>;
		constexpr bool f = sizeof(T) == 4;
		constexpr int mb = L::digits - 1;
		switch (r.below(8))
		{
			case 0: return bitsof<T>((std::uint64_t(f ? 254 : 2046) - r.below(3)) << mb | (r.next() & ((1ull << mb) - 1)));
			case 1: return bitsof<T>((std::uint64_t(1) + r.below(3)) << mb | (r.next() & ((1ull << mb) - 1)));
			case 2: return bitsof<T>(1ull + (r.next() & ((1ull << r.below(mb + 1)) - 1)));		// subnormal
			case 3: { T q = T(1 + r.below(2000)) / T(8); return q * q; }		// squares
			case 4: { const T sp[] = { L::max(), L::min(), L::denorm_min(), T(1), T(2), T(4), T(1) + L::epsilon(), T(1) - L::epsilon() / 2 }; return sp[r.below(8)]; }
			default: { T x = bitsof<T>(r.next() & (f ? 0x7fffffffull : 0x7fffffffffffffffull)); return fin(x) && x > 0 ? x : T(3); }
		}
	}
};
struct NonNeg { template <class T> static constexpr T val(Rng &r) { return r.below(16) == 0 ? (r.coin() ? T(0) : -T(0)) : Pos::val<T>(r); } };
struct Small { template <class T> static constexpr T val(Rng &r) { if constexpr (std::is_same_v<T, bool>) return r.coin(); else if constexpr (std::is_unsigned_v<T>) return T(r.below(20)); else return T(int(r.below(41)) - 20); } };
struct Eighth { template <class T> static constexpr T val(Rng &r) { if constexpr (isf<T>) return T(int(r.below(401)) - 200) / T(8); else return Small::val<T>(r); } };
struct Tiny { template <class T> static constexpr T val(Rng &r) { if constexpr (isf<T>) return T(int(r.below(97)) - 48) / T(8); else if constexpr (std::is_unsigned_v<T>) return T(r.below(12)); else return T(int(r.below(23)) - 11); } };
struct WholeNum { template <class T> static constexpr T val(Rng &r) { return T(int(r.below(5)) - 2); } };
struct Sixth { template <class T> static constexpr T val(Rng &r) { return T(int(r.below(21)) - 6) / T(8); } };		// around [0, 1]
struct Moderate { template <class T> static constexpr T val(Rng &r) { T v = T(1) + T(double(r.next() >> 11) * 0x1p-53); v *= pow2<T>(int(r.below(17)) - 8); return r.coin() ? v : -v; } };
struct Unit { template <class T> static constexpr T val(Rng &r) { return r.below(5) ? T(r.below(1000001)) / T(1000000) : T(r.below(2)); } };

// ---------------------------------------------------------------- operands
// kinds as in trace.hpp: -1 a scalar, 0 owning, 1 const owning, 3 view, 4 const view, 6 view_vector
template <int K, class T, sz N, class G> struct Arg
{
	using type = T; static constexpr sz count = N; static constexpr int kind = K; static constexpr sz C = 0, R = 0;
	static constexpr std::array<T, N> make(Rng &r) { std::array<T, N> a{}; for (auto &x : a) x = G::template val<T>(r); return a; }
};
template <class T, sz Cols, sz Rows, class G> struct MArg
{
	using type = T; static constexpr sz count = Cols * Rows; static constexpr int kind = 100; static constexpr sz C = Cols, R = Rows;
	static constexpr std::array<T, count> make(Rng &r) { std::array<T, count> a{}; for (auto &x : a) x = G::template val<T>(r); return a; }
};
template <class A> struct Opnd
{
	using T = typename A::type;
	static constexpr sz N = A::count;
	static constexpr int K = A::kind;
	static auto object_type()
	{
		if constexpr (K == -1) return Type<T>{};
		else if constexpr (K == 0 || K == 1) return Type<dsga::basic_vector<T, N>>{};
		else if constexpr (K == 3) return Type<dsga::basic_view<true, T, N>>{};
		else if constexpr (K == 4) return Type<dsga::basic_view<false, T, N>>{};
		else if constexpr (K == 6) return Type<dsga::view_vector<T, N>>{};
		else return Type<dsga::basic_matrix<T, A::C, A::R>>{};
	}
	using Obj = typename decltype(object_type())::type;
	struct Own { Obj obj{}; constexpr explicit Own(T *) {} };
	struct See { Obj obj; constexpr explicit See(T *m) : obj(m + 1) {} };
	T mem[6];
	std::conditional_t<K == 3 || K == 4, See, Own> h;
	constexpr explicit Opnd(const std::array<T, N> &in) : mem{}, h(mem)
	{
		auto &obj = h.obj;
		if constexpr (K == -1) obj = in[0];
		else if constexpr (K == 100) { for (sz i = 0; i < N; ++i) obj[i / A::R][i % A::R] = in[i]; }
		else if constexpr (K == 3 || K == 4) { for (sz i = 0; i < N; ++i) mem[i + 1] = in[i]; }
		else for (sz i = 0; i < N; ++i) obj[i] = in[i];
	}
	Opnd(const Opnd &) = delete;
	constexpr decltype(auto) ref() { if constexpr (K == 1 || K == 4) return std::as_const(h.obj); else return (h.obj); }
	constexpr bool unchanged(const std::array<T, N> &in) const
	{
		for (sz i = 0; i < N; ++i)
		{
			T now{};
			if constexpr (K == -1) now = h.obj; else if constexpr (K == 100) now = h.obj[i / A::R][i % A::R]; else now = h.obj[i];
			if (asbits(now) != asbits(in[i])) return false;
		}
		return true;
	}
};

// ---------------------------------------------------------------- results
template <class T, sz N, char Kind, sz Cols = 0, sz Rows = 0> struct Flat { using type = T; static constexpr sz count = N, C = Cols, R = Rows; static constexpr char kind = Kind; std::array<T, N> v{}; bool u = true; };
template <Scal T> constexpr auto flat(const T &x) { Flat<T, 1, 'S'> f; f.v[0] = x; return f; }
template <bool W, class T, sz C, class D> constexpr auto flat(const dsga::vector_base<W, T, C, D> &x)
{
	Flat<T, C, std::is_same_v<D, dsga::basic_vector<T, C>> ? 'V' : 'O'> f;
	for (sz i = 0; i < C; ++i) f.v[i] = x[i];
	return f;
}
template <class T, sz C, sz R> constexpr auto flat(const dsga::basic_matrix<T, C, R> &x)
{
	Flat<T, C * R, 'M', C, R> f;
	for (sz i = 0; i < C * R; ++i) f.v[i] = x[i / R][i % R];
	return f;
}
template <class T, sz N> constexpr auto flat(const std::array<T, N> &x) { Flat<T, N, N == 1 ? 'S' : 'V'> f; f.v = x; return f; }

// ---------------------------------------------------------------- a call with its inputs
constexpr std::uint64_t mixed(std::uint64_t a, std::uint64_t b) { Rng r{ a * 0x100000001B3ull + b }; r.next(); return r.next(); }
constexpr std::uint64_t hash(const char *s) { std::uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ std::uint64_t((unsigned char)*s++)) * 1099511628211ull; return h; }
template <class F, class... A> struct Case
{
	using In = std::tuple<std::array<typename A::type, A::count>...>;
	using Seq = std::index_sequence_for<A...>;
	static constexpr In input(unsigned i)
	{
		std::uint64_t h = mixed(mixed(hash(F::name), CXSEED), SHARD);
		if constexpr (requires { F::via; }) h = mixed(h, hash(F::via));
		((h = mixed(h, std::uint64_t(A::kind + 2) * 64 + A::count)), ...);
		Rng r{ mixed(h, i) };
		In in{ A::make(r)... };
		if constexpr (requires { F::fix(in, r); }) F::fix(in, r);
		return in;
	}
	template <sz... Is> static constexpr auto run_on(const In &in, std::index_sequence<Is...>, Opnd<A> &&...ops)
	{
		auto f = flat(F::call(ops.ref()...));
		f.u = (ops.unchanged(std::get<Is>(in)) && ...);
		return f;
	}
	template <sz... Is> static constexpr auto run_(const In &in, std::index_sequence<Is...> s) { return run_on(in, s, Opnd<A>(std::get<Is>(in))...); }
	static constexpr auto run(const In &in) { return run_(in, Seq{}); }
	using Out = decltype(run(std::declval<In>()));
	struct Done { In in; Out out; };		// drawing an input is not the same at run time: the order of evaluation is free
	template <unsigned B, unsigned N> static constexpr auto batch() { std::array<Done, N> r{}; for (unsigned i = 0; i < N; ++i) { r[i].in = input(B + i); r[i].out = run(r[i].in); } return r; }
};
#ifdef __clang__
#define CLANG 2		// no std::isless() and the like in constant expressions
#else
#define CLANG 1
#endif
template <class Cs, unsigned B, unsigned N> void at_compile_time(std::array<typename Cs::Done, CASES> &out, std::array<bool, CASES> &have)
{
	if constexpr (requires { typename std::bool_constant<(Cs::template batch<B, N>(), true)>; })
	{
		static constexpr auto r = Cs::template batch<B, N>();
		for (unsigned i = 0; i < N; ++i) { out[B + i] = r[i]; have[B + i] = true; }
	}
	else if constexpr (N > 1) { at_compile_time<Cs, B, N / 2>(out, have); at_compile_time<Cs, B + N / 2, N - N / 2>(out, have); }
}
template <class T> void put_flat(const T &f)
{
	if constexpr (T::kind == 'M')
	{
		line += "{\"t\":\""; line += Tag<typename T::type>::c; line += "\",\"k\":\"M\",\"c\":"; num(T::C); line += ",\"r\":"; num(T::R); line += ",\"v\":[";
		for (sz i = 0; i < T::count; ++i) { if (i) line += ','; put(f.v[i]); }
		line += "]}";
	}
	else put_value(f.v.data(), T::count, T::kind);
}
template <class A> void put_arg(Ev &ev, const std::array<typename A::type, A::count> &a)
{
	if constexpr (A::kind == 100) { ev.sep(); Flat<typename A::type, A::count, 'M', A::C, A::R> f; f.v = a; put_flat(f); }
	else ev.arr(a, A::kind == -1 ? 'S' : char('0' + 1 + A::kind));
}
template <class F, class... A> void go()
{
	using Cs = Case<F, A...>;
	static std::array<typename Cs::Done, CASES> ct{};
	std::array<bool, CASES> have{};
	at_compile_time<Cs, 0, CASES>(ct, have);
	for (volatile unsigned i = 0; i < CASES; i = i + 1)
	{
		auto in = have[i] ? ct[i].in : Cs::input(i);
		Ev ev(F::name);
		[&]<sz... Is>(std::index_sequence<Is...>) { (put_arg<A>(ev, std::get<Is>(in)), ...); }(typename Cs::Seq{});
		auto r = Cs::run(in);
		line += "],\"r\":"; put_flat(r);
		ev.fld("u", r.u && (!have[i] || ct[i].out.u));
		if (have[i]) ev.list("ct", ct[i].out.v.data(), ct[i].out.v.size()); else ev.fld("nocx", CLANG);
		if constexpr (requires { F::ex; }) ev.fld("ex", F::ex);
		if constexpr (requires { F::extra(ev, in); }) F::extra(ev, in);
		if constexpr (requires { F::via; }) ev.str("via", F::via);
		ev.done();
	}
}

#define FN1(id, nm, e) struct id { static constexpr const char *name = nm; static constexpr auto call(const auto &x) { return e; } };
#define FN2(id, nm, e) struct id { static constexpr const char *name = nm; static constexpr auto call(const auto &x, const auto &y) { return e; } };
constexpr int vkinds[5] = { 0, 3, 6, 1, 4 };
// a function on every kind and length
template <class F, class T, class G> void on_all()
{
	go<F, Arg<-1, T, 1, G>>();
	upto<4>([](auto nn) { constexpr sz N = nn + 1; go<F, Arg<vkinds[(N + hash(F::name)) % 5], T, N, G>>(); go<F, Arg<vkinds[(N + hash(F::name) / 8 + 2) % 5], T, N, G>>(); });
}
template <class F, class T, class G> void on_vectors() { upto<4>([](auto nn) { constexpr sz N = nn + 1; go<F, Arg<vkinds[(N + hash(F::name)) % 5], T, N, G>>(); }); }

#if SEC == 1
FN1(Floor, "floor", dsga::floor(x)) FN1(Ceil, "ceil", dsga::ceil(x)) FN1(Trunc, "trunc", dsga::trunc(x)) FN1(RoundF, "round", dsga::round(x))
FN1(RoundEven, "roundEven", dsga::roundEven(x)) FN1(FractF, "fract", dsga::fract(x)) FN1(Abs, "abs", dsga::abs(x)) FN1(Sign, "sign", dsga::sign(x))
template <class G> struct NoMin { template <class T> static constexpr T val(Rng &r) { T x = G::template val<T>(r); return x == std::numeric_limits<T>::min() ? T(-9) : x; } };
void sections()
{
	if constexpr (isf<X>)
	{
		on_all<Floor, X, Round>(); on_all<Ceil, X, Round>(); on_all<Trunc, X, Round>(); on_all<RoundF, X, Round>();
		on_all<RoundEven, X, Round>(); on_all<FractF, X, Round>(); on_all<Abs, X, Special>(); on_all<Sign, X, Any>();
	}
	else { on_all<Abs, X, NoMin<Any>>(); on_all<Sign, X, Any>(); }
}
#endif

#if SEC == 2
FN1(Sqrt, "sqrt", dsga::sqrt(x)) FN1(Inv, "inversesqrt", dsga::inversesqrt(x)) FN1(FastInv, "fast_inversesqrt", dsga::fast_inversesqrt(x))
FN1(Rad, "radians", dsga::radians(x)) FN1(Deg, "degrees", dsga::degrees(x))
FN1(IsNan, "isnan", dsga::isnan(x)) FN1(IsInf, "isinf", dsga::isinf(x))
FN1(FI, "floatBitsToInt", dsga::floatBitsToInt(x)) FN1(FU, "floatBitsToUint", dsga::floatBitsToUint(x))
FN1(DL, "doubleBitsToLongLong", dsga::doubleBitsToLongLong(x)) FN1(DU, "doubleBitsToUlongLong", dsga::doubleBitsToUlongLong(x))
FN1(IF, "intBitsToFloat", dsga::intBitsToFloat(x)) FN1(UF, "uintBitsToFloat", dsga::uintBitsToFloat(x))
FN1(LD, "longLongBitsToDouble", dsga::longLongBitsToDouble(x)) FN1(UD, "ulongLongBitsToDouble", dsga::ulongLongBitsToDouble(x))
FN1(Swap, "byteswap", dsga::byteswap(x))
// no signalling NaN as the result of a cast: those may not survive being passed around
template <class F> struct Quiet { template <class T> static constexpr T val(Rng &r) { for (;;) { T x = Any::val<T>(r); if (fin(bitsof<F>(std::uint64_t(x)))) return x; } } };
void sections()
{
	if constexpr (isf<X>)
	{
		on_all<Sqrt, X, NonNeg>(); on_all<Inv, X, Pos>(); on_all<FastInv, X, Pos>();
		on_all<Rad, X, Moderate>(); on_all<Deg, X, Moderate>();
		go<IsNan, Arg<-1, X, 1, Special>>(); go<IsNan, Arg<0, X, 4, Special>>(); go<IsNan, Arg<3, X, 3, Special>>();
		go<IsInf, Arg<-1, X, 1, Special>>(); go<IsInf, Arg<0, X, 3, Special>>(); go<IsInf, Arg<4, X, 2, Special>>();
	}
	if constexpr (std::is_same_v<X, float>) { on_all<FI, X, Special>(); on_all<FU, X, Special>(); }
	if constexpr (std::is_same_v<X, double>) { on_all<DL, X, Special>(); on_all<DU, X, Special>(); }
	if constexpr (std::is_same_v<X, int>) on_all<IF, X, Quiet<float>>();
	if constexpr (std::is_same_v<X, unsigned>) on_all<UF, X, Quiet<float>>();
	if constexpr (std::is_same_v<X, long long>) on_all<LD, X, Quiet<double>>();
	if constexpr (std::is_same_v<X, unsigned long long>) on_all<UD, X, Quiet<double>>();
	if constexpr (std::is_integral_v<X>) on_all<Swap, X, Any>();
}
#endif

// shapes of two operands: vectors of all lengths, a scalar on the right or the left
template <class F, class T, class U, class G, class H = G> void pairs(bool = true)
{
	constexpr auto h = hash(F::name);
	upto<4>([](auto nn) { constexpr sz N = nn + 1; go<F, Arg<vkinds[(N + h) % 5], T, N, G>, Arg<vkinds[(N + h / 7) % 5], U, N, H>>(); });
}
template <class F, class T, class U, class G, class H = G> void right_scalar() { upto<4>([](auto nn) { constexpr sz N = nn + 1; go<F, Arg<vkinds[(N + hash(F::name) / 3) % 5], T, N, G>, Arg<-1, U, 1, H>>(); }); }
template <class F, class T, class U, class G, class H = G> void left_scalar() { upto<4>([](auto nn) { constexpr sz N = nn + 1; go<F, Arg<-1, T, 1, G>, Arg<vkinds[(N + hash(F::name) / 5) % 5], U, N, H>>(); }); }
template <class F, class T, class U, class G, class H = G> void both_scalar() { go<F, Arg<-1, T, 1, G>, Arg<-1, U, 1, H>>(); }

#if SEC == 6 || SEC == 7
// keep undefined behaviour out: operands until every component is fine
template <char O> struct Safe { template <class In> static constexpr void fix(In &in, Rng &r)
	{
		auto &a = std::get<0>(in); auto &b = std::get<1>(in);
		using A = typename std::remove_reference_t<decltype(a)>::value_type; using B = typename std::remove_reference_t<decltype(b)>::value_type; using T = std::common_type_t<A, B>;
		if constexpr (O == 'l' || O == 'r') { for (auto &q : b) q = B(r.below(sizeof(A) * 8)); if constexpr (O == 'l' && std::is_signed_v<A>) for (auto &q : a) q = A(q < 0 ? -(q + 1) : q) >> (sizeof(A) * 4); if constexpr (O == 'l' && std::is_signed_v<A>) for (auto &q : b) q = B(r.below(sizeof(A) * 4 - 2)); }
		else for (int t = 0; t < 12; ++t)
		{
			bool good = true;
			for (sz i = 0; i < (a.size() > b.size() ? a.size() : b.size()); ++i)
			{
				T x = T(a[a.size() == 1 ? 0 : i]), y = T(b[b.size() == 1 ? 0 : i]);
				if constexpr (isf<T>) { if (O == '/' && y == 0) good = false; else { double m = double(x < 0 ? -x : x), n = double(y < 0 ? -y : y); constexpr double top = sizeof(T) == 4 ? 1e30 : 1e200, low = sizeof(T) == 4 ? 1e-30 : 1e-200; if (O == '/') { if (n < 1 && m > top * n) good = false; } else if (O == '*' && n > 1 && m > top / n) good = false; (void)low; if (m > top || n > top) good = false; } }
				else { T q{}; if (O == '+' && std::is_signed_v<T> && __builtin_add_overflow(x, y, &q)) good = false; if (O == '-' && std::is_signed_v<T> && __builtin_sub_overflow(x, y, &q)) good = false; if (O == '*' && std::is_signed_v<T> && __builtin_mul_overflow(x, y, &q)) good = false;
					if ((O == '/' || O == '%') && (y == 0 || (std::is_signed_v<T> && x == std::numeric_limits<T>::min() && y == T(-1)))) good = false; }
			}
			if (good) return;
			if (t < 6) for (auto &q : b) q = Any::val<B>(r);
			if (t > 1) for (auto &q : a) q = Small::val<A>(r);
			if (t >= 6) for (auto &q : b) { q = Small::val<B>(r); if (q == 0) q = 3; }
		}
	} };
#endif

#if SEC == 3
FN2(Min, "min", dsga::min(x, y)) FN2(Max, "max", dsga::max(x, y)) FN2(Step, "step", dsga::step(x, y)) FN2(Mod, "mod", dsga::mod(x, y))
struct ModOk : Mod { template <class In> static constexpr void fix(In &in, Rng &) { for (auto &q : std::get<1>(in)) if (q == 0) q = 3; } };
#define FN3(id, nm, fn, fx) struct id { static constexpr const char *name = nm; static constexpr auto call(const auto &x, const auto &y, const auto &z) { return dsga::fn(x, y, z); } \
	template <class In> static constexpr void fix(In &in, Rng &r) { auto &a = std::get<0>(in); auto &b = std::get<1>(in); auto &c = std::get<2>(in); (void)a; (void)b; (void)c; (void)r; fx } 
FN3(Clamp, "clamp", clamp, for (sz i = 0; i < b.size(); ++i) if (c[i] < b[i]) { auto t = b[i]; b[i] = c[i]; c[i] = t; }) };
FN3(Mix, "mix", mix, ) static constexpr int ex = 1; };
FN3(MixM, "mix", mix, ) static constexpr int ex = 0; };
FN3(Select, "select", mix, ) };
FN3(Smooth, "smoothstep", smoothstep, for (sz i = 0; i < a.size(); ++i) b[i] = a[i] + pow2<X>(int(r.below(4))); for (sz i = 0; i < c.size(); ++i) { sz j = a.size() == 1 ? 0 : i; c[i] = a[j] + (b[j] - a[j]) * X(int(r.below(25)) - 4) / X(16); }) static constexpr int ex = 1; };
FN3(SmoothM, "smoothstep", smoothstep, for (sz i = 0; i < a.size(); ++i) { if (b[i] == a[i]) b[i] = a[i] + X(1); if (b[i] < a[i]) { auto t = b[i]; b[i] = a[i]; a[i] = t; } }
	for (sz i = 0; i < c.size(); ++i) { sz j = a.size() == 1 ? 0 : i; if (r.coin()) c[i] = a[j] + (b[j] - a[j]) * X(r.below(1000)) / X(1000); }) static constexpr int ex = 0; };
struct Modf { static constexpr const char *name = "modf"; template <class V> static constexpr auto call(const V &x)
	{ if constexpr (Scal<V>) { V out{}; auto f = dsga::modf(x, out); return std::array<V, 1>{ f }; } else { dsga::basic_vector<X, sz(V::Count)> out{}; auto f = dsga::modf(x, out); return f; } } 
	template <class In> static void extra(Ev &ev, const In &in)
	{
		auto a = std::get<0>(in); auto out = a;
		for (sz i = 0; i < a.size(); ++i) { X o{}; (void)dsga::modf(a[i], o); out[i] = o; }
		line += ",\"out\":"; put_value(out.data(), out.size(), 'V');
	} };
template <class F, class T, class U, class V, class G, class H, class I> void triples()
{
	constexpr auto h = hash(F::name);
	upto<4>([](auto nn) { constexpr sz N = nn + 1; go<F, Arg<vkinds[(N + h) % 5], T, N, G>, Arg<vkinds[(N + h / 7) % 5], U, N, H>, Arg<vkinds[(N + h / 3) % 5], V, N, I>>(); });
}
void sections()
{
	if constexpr (!std::is_same_v<X, bool>)
	{
		pairs<Min, X, X, Special>(); pairs<Max, X, X, Special>(); right_scalar<Min, X, X, Any>(); right_scalar<Max, X, X, Any>(); both_scalar<Min, X, X, Any>(); both_scalar<Max, X, X, Any>();
		triples<Clamp, X, X, X, Any, Any, Any>(); go<Clamp, Arg<0, X, 3, Any>, Arg<-1, X, 1, Any>, Arg<-1, X, 1, Any>>(); go<Clamp, Arg<-1, X, 1, Any>, Arg<-1, X, 1, Any>, Arg<-1, X, 1, Any>>();
	}
	triples<Select, X, X, bool, Any, Any, Any>(); go<Select, Arg<-1, X, 1, Any>, Arg<-1, X, 1, Any>, Arg<-1, bool, 1, Any>>();
	if constexpr (isf<X>)
	{
		pairs<Step, X, X, Any>(); left_scalar<Step, X, X, Any>(); both_scalar<Step, X, X, Any>();
		pairs<ModOk, X, X, Eighth>(); pairs<ModOk, X, X, Moderate>(); right_scalar<ModOk, X, X, Moderate>(); both_scalar<ModOk, X, X, Moderate>(); both_scalar<ModOk, X, X, Eighth>();
		triples<Mix, X, X, X, Eighth, Eighth, Sixth>(); triples<MixM, X, X, X, Moderate, Moderate, Unit>();
		go<Mix, Arg<0, X, 3, Eighth>, Arg<3, X, 3, Eighth>, Arg<-1, X, 1, Sixth>>(); go<MixM, Arg<-1, X, 1, Moderate>, Arg<-1, X, 1, Moderate>, Arg<-1, X, 1, Unit>>();
		triples<Smooth, X, X, X, Eighth, Eighth, Eighth>(); triples<SmoothM, X, X, X, Moderate, Moderate, Moderate>();
		go<Smooth, Arg<-1, X, 1, Eighth>, Arg<-1, X, 1, Eighth>, Arg<0, X, 4, Eighth>>(); go<SmoothM, Arg<-1, X, 1, Moderate>, Arg<-1, X, 1, Moderate>, Arg<-1, X, 1, Moderate>>();
		on_vectors<Modf, X, Round>(); go<Modf, Arg<-1, X, 1, Round>>(); go<Modf, Arg<-1, X, 1, Moderate>>();
	}
}
#endif

#if SEC == 4
FN2(Dot, "dot", dsga::dot(x, y)) FN2(Cross, "cross", dsga::cross(x, y)) FN1(Length, "length", dsga::length(x)) FN2(Distance, "distance", dsga::distance(x, y))
FN1(Normalize, "normalize", dsga::normalize(x)) FN2(Reflect, "reflect", dsga::reflect(x, y))
struct NormalizeOk : Normalize { template <class In> static constexpr void fix(In &in, Rng &) { bool z = true; for (auto q : std::get<0>(in)) z = z && q == 0; if (z) std::get<0>(in)[0] = 3; } };
struct Triple : Length { template <class In> static constexpr void fix(In &in, Rng &r)		// vectors of a rational length
	{ auto &a = std::get<0>(in); X k = X(int(r.below(60)) + 1) / X(8); const int t[4][4] = { { 5, 0, 0, 0 }, { 3, 4, 0, 0 }, { 2, 3, 6, 0 }, { 1, 5, 7, 5 } }; for (sz i = 0; i < a.size(); ++i) a[i] = (r.coin() ? k : -k) * X(t[a.size() - 1][i]); } };
struct Face { static constexpr const char *name = "faceforward"; static constexpr auto call(const auto &x, const auto &y, const auto &z) { return dsga::faceforward(x, y, z); } };
struct Refract { static constexpr const char *name = "refract"; static constexpr auto call(const auto &x, const auto &y, const auto &z) { return dsga::refract(x, y, z); } };
void sections()
{
	pairs<Dot, X, X, Tiny>();
	go<Cross, Arg<0, X, 3, Tiny>, Arg<3, X, 3, Tiny>>(); go<Cross, Arg<6, X, 3, Tiny>, Arg<4, X, 3, Tiny>>(); go<Cross, Arg<1, X, 3, Tiny>, Arg<0, X, 3, Tiny>>();
	if constexpr (isf<X>)
	{
		on_vectors<Length, X, Tiny>(); on_vectors<Length, X, Moderate>(); on_vectors<Triple, X, Tiny>(); go<Length, Arg<-1, X, 1, Any>>(); go<Length, Arg<0, X, 1, Any>>();
		pairs<Distance, X, X, Tiny>(); both_scalar<Distance, X, X, Moderate>();
		upto<3>([](auto nn) { constexpr sz N = nn + 2; go<NormalizeOk, Arg<vkinds[N], X, N, Tiny>>(); go<NormalizeOk, Arg<vkinds[N - 1], X, N, Moderate>>(); });
		upto<3>([](auto nn) { constexpr sz N = nn + 2; go<Reflect, Arg<vkinds[N - 1], X, N, WholeNum>, Arg<vkinds[N - 2], X, N, WholeNum>>(); go<Face, Arg<0, X, N, Tiny>, Arg<3, X, N, Tiny>, Arg<6, X, N, Tiny>>(); go<Refract, Arg<4, X, N, Sixth>, Arg<0, X, N, Sixth>, Arg<-1, X, 1, Sixth>>(); });
	}
}
#endif

#if SEC == 5
FN2(Mul, "*", x * y) FN2(Add, "+", x + y) FN2(Sub, "-", x - y) FN2(Div, "/", x / y) FN2(Comp, "matrixCompMult", dsga::matrixCompMult(x, y)) FN2(Outer, "outerProduct", dsga::outerProduct(x, y))
FN1(Transpose, "transpose", dsga::transpose(x)) FN1(Det, "determinant", dsga::determinant(x)) FN1(Inverse, "inverse", dsga::inverse(x)) FN1(Neg, "u-", -x) FN1(Plus, "u+", +x)
FN2(Eq, "==", x == y) FN2(Ne, "!=", x != y) FN1(Diag, "diagonal_matrix", dsga::diagonal_matrix(x)) FN1(CrossM, "cross_matrix", dsga::cross_matrix(x))
struct MulX : Mul { static constexpr int ex = 1; };
struct DetX : Det { static constexpr int ex = 1; };
struct InvX : Inverse { static constexpr int ex = 1;
	template <class In> static constexpr void fix(In &in, Rng &r)		// a product of elementary matrices: the determinant is a power of two
	{
		auto &a = std::get<0>(in);
		const sz C = a.size() == 4 ? 2 : a.size() == 9 ? 3 : 4;
		for (auto &x : a) x = 0;
		for (sz i = 0; i < C; ++i) a[i * C + (i + 1) % C] = (r.coin() ? X(1) : X(-2));
		for (unsigned k = r.below(4); k; --k)
		{
			sz i = r.below(unsigned(C)), j = (i + 1 + r.below(unsigned(C) - 1)) % C; X f = X(int(r.below(5)) - 2);
			if (r.coin()) for (sz q = 0; q < C; ++q) a[i * C + q] += f * a[j * C + q]; else for (sz q = 0; q < C; ++q) a[q * C + i] += f * a[q * C + j];
		}
	} };
struct Eqs { template <class In> static constexpr void fix(In &in, Rng &r) { auto &a = std::get<0>(in); auto &b = std::get<1>(in); b = a; if (r.coin()) b[r.below(unsigned(b.size()))] += 1; } };
struct EqM : Eq, Eqs {}; struct NeM : Ne, Eqs {};
template <sz C2, sz R2> struct Resize { static constexpr const char *name = "mresize"; static constexpr auto call(const auto &x) { return dsga::basic_matrix<X, C2, R2>(x); } };
template <sz C> struct DiagS { static constexpr const char *name = "mdiag"; static constexpr auto call(const auto &x) { return dsga::basic_matrix<X, C, C>(x); } };
template <sz C, sz R> struct FlatCols { static constexpr const char *name = "mflat";		// from columns
	static constexpr auto call(const auto &...x) { return dsga::basic_matrix<X, C, R>(x...); }
	template <class In> static void extra(Ev &ev, const In &) { ev.fld("tc", C).fld("tr", R); } };
// writing elements, columns, swap, iterators: sequences of steps on a matrix
struct Elem { static constexpr const char *name = "mwrite"; static constexpr auto call(auto x, const auto &y) { x[1][0] = y; return x; } template <class In> static void extra(Ev &ev, const In &) { ev.fld("c", 2).fld("row", 1); } };
struct Elem2 { static constexpr const char *name = "mwrite"; static constexpr auto call(auto x, const auto &y) { (*(x.begin() + 1))[1] = y; return x; } template <class In> static void extra(Ev &ev, const In &) { ev.fld("c", 2).fld("row", 2); } };
struct Elem3 { static constexpr const char *name = "mwrite"; static constexpr auto call(auto x, const auto &y) { dsga::get<0>(x)[1] = y; return x; } template <class In> static void extra(Ev &ev, const In &) { ev.fld("c", 1).fld("row", 2); } };
struct Column { static constexpr const char *name = "mcol"; static constexpr auto call(auto x, const auto &y) { x[1] = y; return x; } template <class In> static void extra(Ev &ev, const In &) { ev.fld("c", 2); } };
struct Assign { static constexpr const char *name = "massign"; static constexpr auto call(const auto &x) { auto t = -x; t = x; return t; } template <class In> static void extra(Ev &ev, const In &) { ev.fld("self", 1); } };
struct Swap1 { static constexpr const char *name = "massign"; static constexpr auto call(const auto &x) { auto t = -x, u = x; t.swap(u); return t; } template <class In> static void extra(Ev &ev, const In &) { ev.fld("self", 1); } };
struct RowOf { static constexpr const char *name = "massign"; static constexpr auto call(const auto &x) { auto t = -x; for (int r = 0; r < t.column_length(); ++r) { auto w = x.row(r); for (int c = 0; c < t.length(); ++c) t[c][r] = w[c]; } return t; } template <class In> static void extra(Ev &ev, const In &) { ev.fld("self", 1); } };
struct ToArr { static constexpr const char *name = "massign"; static constexpr auto call(const auto &x) { auto t = -x; auto a = dsga::to_array(x); sz i = 0; for (auto &col : t) for (auto &q : col) q = a[i++]; return t; } template <class In> static void extra(Ev &ev, const In &) { ev.fld("self", 1); } };
template <char O> struct Incr { static constexpr const char *name = O == 'P' ? "++m" : O == 'M' ? "--m" : O == 'p' ? "m++" : "m--";
	static constexpr auto call(auto x) { if constexpr (O == 'P') return ++x; else if constexpr (O == 'M') return --x; else if constexpr (O == 'p') return x++; else return x--; }
	template <class In> static void extra(Ev &ev, const In &in) { auto a = std::get<0>(in); for (auto &q : a) q = q + ((O == 'P' || O == 'p') ? X(1) : X(-1)); constexpr sz C = SHARD2; Flat<X, std::tuple_size_v<decltype(a)>, 'M', C, std::tuple_size_v<decltype(a)> / C> f; f.v = a; line += ",\"after\":"; put_flat(f); ev.fld("self", 1); } };
template <sz C, sz R> void shape()
{
	using M = MArg<X, C, R, Tiny>; using A = MArg<X, C, R, Any>; using Mo = MArg<X, C, R, Moderate>;
	go<MulX, M, Arg<0, X, C, Tiny>>(); go<MulX, M, Arg<3, X, C, Tiny>>(); go<MulX, Arg<0, X, R, Tiny>, M>(); go<MulX, Arg<6, X, R, Tiny>, M>(); go<Mul, Mo, Arg<0, X, C, Moderate>>(); go<Mul, Arg<0, X, R, Moderate>, Mo>();
	upto<3>([](auto c) { go<MulX, M, MArg<X, c + 2, C, Tiny>>(); }); go<Mul, Mo, MArg<X, 3, C, Moderate>>();
	go<Mul, Mo, Arg<-1, X, 1, Moderate>>(); go<Mul, Arg<-1, X, 1, Moderate>, Mo>(); go<Add, Mo, Mo>(); go<Sub, Mo, Mo>(); go<Div, Mo, Mo>(); go<Comp, Mo, Mo>();
	go<Add, Mo, Arg<-1, X, 1, Moderate>>(); go<Sub, Arg<-1, X, 1, Moderate>, Mo>(); go<Div, Mo, Arg<-1, X, 1, Moderate>>();
	go<Outer, Arg<0, X, R, Moderate>, Arg<3, X, C, Moderate>>(); go<Transpose, A>(); go<Neg, A>(); go<Plus, A>(); go<EqM, M, M>(); go<NeM, M, M>();
	upto<3>([](auto c) { upto<3>([](auto r) { go<Resize<decltype(c)::value + 2, decltype(r)::value + 2>, A>(); }); });
	go<Elem, A, Arg<-1, X, 1, Any>>(); go<Elem2, A, Arg<-1, X, 1, Any>>(); go<Elem3, A, Arg<-1, X, 1, Any>>(); go<Column, A, Arg<0, X, R, Any>>(); go<Assign, A>(); go<Swap1, A>(); go<RowOf, A>(); go<ToArr, A>();
	go<Incr<'P'>, M>(); go<Incr<'M'>, M>(); go<Incr<'p'>, M>(); go<Incr<'m'>, M>();
	using V = Arg<0, X, R, Any>; using W = Arg<1, X, R, Any>;
	if constexpr (C == 2) go<FlatCols<C, R>, V, W>(); else if constexpr (C == 3) go<FlatCols<C, R>, V, W, V>(); else go<FlatCols<C, R>, V, W, V, V>();
	if constexpr (C == R)
	{
		go<DetX, MArg<X, C, C, WholeNum>>(); go<Det, Mo>(); go<InvX, MArg<X, C, C, WholeNum>>(); go<DiagS<C>, Arg<-1, X, 1, Any>>();
		go<Diag, Arg<0, X, C, Any>>(); if constexpr (C == 3) go<CrossM, Arg<0, X, C, Any>>();
	}
}
void sections() { upto<3>([](auto r) { shape<SHARD2, r + 2>(); }); }
#endif

#if SEC == 6
FN2(Add, "+", x + y) FN2(Sub, "-", x - y) FN2(Mul, "*", x * y) FN2(Div, "/", x / y) FN2(Rem, "%", x % y) FN2(Shl, "<<", x << y) FN2(Shr, ">>", x >> y) FN2(And, "&", x & y) FN2(Or, "|", x | y) FN2(Xor, "^", x ^ y)
FN1(Pos1, "u+", +x) FN1(Neg, "u-", -x) FN1(Not, "~", ~x)
FN2(Lt, "lessThan", dsga::lessThan(x, y)) FN2(Le, "lessThanEqual", dsga::lessThanEqual(x, y)) FN2(Gt, "greaterThan", dsga::greaterThan(x, y)) FN2(Ge, "greaterThanEqual", dsga::greaterThanEqual(x, y))
FN2(EqF, "equal", dsga::equal(x, y)) FN2(NeF, "notEqual", dsga::notEqual(x, y)) FN2(EqO, "==", x == y) FN2(NeO, "!=", x != y)
FN2(CAnd, "compAnd", dsga::compAnd(x, y)) FN2(COr, "compOr", dsga::compOr(x, y)) FN1(CNot, "compNot", dsga::compNot(x)) FN1(AnyF, "any", dsga::any(x)) FN1(AllF, "all", dsga::all(x)) FN1(NoneF, "none", dsga::none(x))
#define OPS2(id, base, ch) struct id : base, Safe<ch> {};
OPS2(AddS, Add, '+') OPS2(SubS, Sub, '-') OPS2(MulS, Mul, '*') OPS2(DivS, Div, '/') OPS2(RemS, Rem, '%') OPS2(ShlS, Shl, 'l') OPS2(ShrS, Shr, 'r')
template <class F> struct Near : F { template <class In> static constexpr void fix(In &in, Rng &r) { auto &a = std::get<0>(in); auto &b = std::get<1>(in); if (r.below(3)) { auto k = b; for (sz i = 0; i < a.size(); ++i) b[i] = typename std::remove_reference_t<decltype(b)>::value_type(a[i]); if (r.coin()) { sz i = r.below(unsigned(a.size())); b[i] = k[i]; } } } };
template <class G> struct NoMin { template <class T> static constexpr T val(Rng &r) { T x = G::template val<T>(r); if constexpr (std::is_signed_v<T> && !isf<T>) if (x == std::numeric_limits<T>::min()) return T(-9); return x; } };
template <class F, class Y> void shapes() { pairs<F, X, Y, Any>(); right_scalar<F, X, Y, Any>(); left_scalar<F, X, Y, Any>(); go<F, Arg<0, X, 3, Any>, Arg<3, Y, 1, Any>>(); go<F, Arg<6, X, 1, Any>, Arg<0, Y, 4, Any>>(); }
void sections()
{
	using Y = std::conditional_t<std::is_same_v<X, float>, double, std::conditional_t<std::is_same_v<X, int>, unsigned, std::conditional_t<std::is_same_v<X, unsigned>, int, X>>>;
	if constexpr (!std::is_same_v<X, bool>)
	{
		shapes<AddS, X>(); shapes<SubS, X>(); shapes<MulS, X>(); shapes<DivS, X>();
		if constexpr (!std::is_same_v<X, Y>) { pairs<AddS, X, Y, Any>(); pairs<DivS, Y, X, Any>(); right_scalar<SubS, X, Y, Any>(); left_scalar<MulS, Y, X, Any>(); }
		on_vectors<Pos1, X, Any>(); on_vectors<Neg, X, NoMin<Any>>();
		pairs<Near<Lt>, X, X, Special>(); pairs<Near<Le>, X, X, Special>(); pairs<Near<Gt>, X, X, Special>(); pairs<Near<Ge>, X, X, Special>();
		if constexpr (!isf<X>) { shapes<RemS, X>(); shapes<ShlS, X>(); shapes<ShrS, X>(); shapes<And, X>(); shapes<Or, X>(); shapes<Xor, X>(); on_vectors<Not, X, Any>(); }
	}
	else { pairs<CAnd, X, X, Any>(); pairs<COr, X, X, Any>(); on_vectors<CNot, X, Any>(); on_vectors<AnyF, X, Any>(); on_vectors<AllF, X, Any>(); on_vectors<NoneF, X, Any>(); }
	pairs<Near<EqF>, X, X, Special>(); pairs<Near<NeF>, X, X, Special>(); pairs<Near<EqO>, X, X, Special>(); pairs<Near<NeO>, X, X, Special>();
}
#endif

#if SEC == 7
// constructions and sequences of steps that write, each of which amounts to building a vector from its arguments
template <sz N, class T = X> struct Ctor { static constexpr const char *name = "ctor"; template <class In> static constexpr void fix(In &, Rng &) {}
	template <class In> static void extra(Ev &ev, const In &) { ev.fld("n", N); char t[2] = { Tag<T>::c, 0 }; ev.str("t", t); } };
constexpr void into(auto &w, const auto &x) { if constexpr (requires { w = x; }) w = x; else w = dsga::basic_vector(x); }		// view = view is deleted
template <class D> constexpr sz count_of = 0;
template <class T, sz N> constexpr sz count_of<dsga::basic_vector<T, N>> = N;
template <class T, sz N> constexpr sz count_of<dsga::view_vector<T, N>> = N;
#define STEP(id, ...) template <class D> struct id : Ctor<count_of<D>> { static constexpr const char *via = #id; static constexpr auto call(const auto &...x) { __VA_ARGS__ } };
#define STEP1(id, ...) template <class D> struct id : Ctor<count_of<D>> { static constexpr const char *via = #id; static constexpr auto call(const auto &x) { __VA_ARGS__ } };
STEP(Make, return D(x...);) STEP(Brace, return D{ x... };) STEP(Copied, D a(x...); D b(a); return b;) STEP(Moved, D a(x...); D b(std::move(a)); D c{}; c = std::move(b); return c;)
STEP(Held, const D a(x...); struct { D v; } h{ a }; return h.v;)
STEP(SetAll, D a{}; a.set(X(x)...); return a;)
STEP(Swapped, D a(x...); D b{}; a.swap(b); return b;) STEP(Swapped2, D a(x...); D b{}; using std::swap; swap(b, a); return b;)
STEP(Assigned2, D a(x...); D b{}; auto &r = (b = a); if (&r != &b) return D(); return b;)
STEP1(Assigned, D a{}; a = x; return a;)
STEP1(Assigned3, D a{}; D b{}; D c{}; c = b = a = x; return c;)
STEP1(ThroughView, X m[6]{}; dsga::basic_view<true, X, count_of<D>> w(m + 1); into(w, x); D a{}; for (sz i = 0; i < count_of<D>; ++i) a[i] = m[i + 1]; if (m[0] != X(0) || m[5] != X(0)) return D(); return a;)
STEP1(ViewOfIt, D a{}; dsga::basic_view<true, X, count_of<D>> w(a.data()); into(w, x); return a;)
STEP1(BetweenViews, X m[8]{}; dsga::basic_view<true, X, count_of<D>> w(m); dsga::basic_view<true, X, count_of<D>> u(m + 4); into(w, x); dsga::basic_vector<X, count_of<D>> k(w); u = k; u.swap(w); D a{}; for (sz i = 0; i < count_of<D>; ++i) a[i] = m[i]; return a;)
STEP1(Iterated, D a{}; auto it = a.begin(); for (sz i = 0; i < count_of<D>; ++i, ++it) *it = x[i]; return a;)
STEP1(Backwards, D a{}; auto it = a.end(); for (sz i = count_of<D>; i > 0;) *--it = x[--i]; return a;)
STEP1(Reversed, D a{}; auto it = a.rbegin(); for (sz i = count_of<D>; i > 0; ++it) *it = x[--i]; return a;)
STEP1(Ranged, D a{}; sz i = 0; for (auto &c : a) c = x[i++]; return a;)
STEP1(RangedFrom, D a{}; sz i = 0; for (auto c : x) a[i++] = c; return a;)
STEP1(Copy, D a{}; std::copy(x.begin(), x.end(), a.begin()); return a;)
STEP1(Gotten, D a{}; [&]<sz... I>(std::index_sequence<I...>) { ((dsga::get<I>(a) = dsga::get<I>(x)), ...); }(std::make_index_sequence<count_of<D>>{}); return a;)
STEP1(Bound, D a{}; constexpr sz N = count_of<D>;
	if constexpr (N == 1) { auto &[p] = a; const auto &[q] = x; p = q; } else if constexpr (N == 2) { auto &[p, r] = a; const auto &[q, s] = x; p = q; r = s; }
	else if constexpr (N == 3) { auto &[p, r, t] = a; const auto &[q, s, u] = x; p = q; r = s; t = u; } else { auto &[p, r, t, v] = a; const auto &[q, s, u, w] = x; p = q; r = s; t = u; v = w; } return a;)
STEP1(ByArray, return D(dsga::to_vector(dsga::to_array(x)));)
STEP1(ByCArray, constexpr sz N = count_of<D>; X m[N]{}; for (sz i = 0; i < N; ++i) m[i] = x[i]; return D(dsga::to_vector(m));)
STEP1(ByLength, D a{}; for (int i = 0; i < x.length(); ++i) a[i] = x[i]; if (sz(x.length()) != x.size()) return D(); return a;)
STEP1(Distant, D a{}; auto b = x.begin(); auto e = x.cend(); for (auto k = e - x.cbegin(); k-- > 0;) a[k] = b[k]; return a;)
// compound assignments, increments, as the operations they are built from
#define COMP(id, nm, op, ch) struct id : Safe<ch> { static constexpr const char *name = nm; static constexpr auto call(const auto &x, const auto &y) { dsga::basic_vector<X, sz(std::remove_cvref_t<decltype(x)>::Count)> a(x); a op y; return a; } };
#define COMPV(id, nm, op, ch) struct id : Safe<ch> { static constexpr const char *name = nm; static constexpr auto call(const auto &x, const auto &y) { constexpr sz N = std::remove_cvref_t<decltype(x)>::Count; X m[N + 1]{}; dsga::basic_view<true, X, N> a(m + 1); into(a, x); a op y; return dsga::basic_vector<X, N>(a); } };
COMP(PlusEq, "+", +=, '+') COMP(MinusEq, "-", -=, '-') COMP(TimesEq, "*", *=, '*') COMP(OverEq, "/", /=, '/') COMP(RemEq, "%", %=, '%') COMP(AndEq, "&", &=, '&') COMP(OrEq, "|", |=, '|') COMP(XorEq, "^", ^=, '^') COMP(ShlEq, "<<", <<=, 'l') COMP(ShrEq, ">>", >>=, 'r')
COMPV(PlusEqV, "+", +=, '+') COMPV(MinusEqV, "-", -=, '-') COMPV(TimesEqV, "*", *=, '*') COMPV(OverEqV, "/", /=, '/')
template <char O> struct Step1 : Safe<O == 'P' || O == 'p' ? '+' : '-'> { static constexpr const char *name = O == 'P' || O == 'p' ? "+" : "-";		// the second operand is 1
	template <class In> static constexpr void fix(In &in, Rng &r) { for (auto &q : std::get<1>(in)) q = X(1); for (auto &q : std::get<0>(in)) q = Eighth::val<X>(r); if constexpr (std::is_unsigned_v<X>) for (auto &q : std::get<0>(in)) q = r.coin() ? X(0) : X(-1); }
	static constexpr auto call(const auto &x, const auto &) { dsga::basic_vector<X, sz(std::remove_cvref_t<decltype(x)>::Count)> a(x); const auto old = a;
		if constexpr (O == 'P') { auto &q = ++a; if (&q != &a) a = old; } else if constexpr (O == 'M') { auto &q = --a; if (&q != &a) a = old; } else if constexpr (O == 'p') { if (a++[0] != old[0]) a = old; } else { if (a--[0] != old[0]) a = old; } return a; } };
template <class D, class... A> void build() { go<Make<D>, A...>(); if constexpr (requires (Opnd<A> &...o) { Brace<D>::call(o.ref()...); }) go<Brace<D>, A...>(); go<Copied<D>, A...>(); go<Moved<D>, A...>(); go<Held<D>, A...>(); }
struct Conv { template <class T> static constexpr T val(Rng &r) { T v = Small::val<T>(r); if constexpr (std::is_unsigned_v<X> && isf<T>) return v < 0 ? -v : v; else return v; } };		// converts to X
template <int K, class T, sz N, class G = Conv> using A = Arg<K, T, N, G>;
template <template <class, sz> class V> void lists()
{
	using F = std::conditional_t<std::is_same_v<X, bool>, bool, float>; using I = std::conditional_t<std::is_same_v<X, bool>, bool, int>;
	build<V<X, 1>, A<-1, X, 1, Any>>(); build<V<X, 2>, A<-1, X, 1, Any>>(); build<V<X, 4>, A<-1, F, 1>>(); build<V<X, 1>, A<0, X, 1, Any>>(); build<V<X, 1>, A<3, X, 3, Any>>();
	build<V<X, 2>, A<-1, X, 1, Any>, A<-1, X, 1, Any>>(); build<V<X, 2>, A<0, X, 3, Any>>(); build<V<X, 2>, A<4, F, 4>>(); build<V<X, 2>, A<-1, I, 1>, A<6, X, 4>>(); build<V<X, 2>, A<0, X, 1>, A<1, X, 2>>();
	build<V<X, 3>, A<-1, X, 1>, A<0, F, 2>>(); build<V<X, 3>, A<3, X, 2>, A<-1, X, 1>>(); build<V<X, 3>, A<0, X, 2, Any>, A<6, X, 2, Any>>(); build<V<X, 3>, A<1, X, 4, Any>>(); build<V<X, 3>, A<-1, X, 1>, A<-1, F, 1>, A<0, X, 3>>(); build<V<X, 3>, A<0, I, 3>>();
	build<V<X, 4>, A<0, X, 4, Any>>(); build<V<X, 4>, A<0, X, 2, Any>, A<4, X, 2, Any>>(); build<V<X, 4>, A<6, F, 1>, A<0, X, 3>>(); build<V<X, 4>, A<-1, X, 1>, A<3, X, 2>, A<-1, I, 1>>(); build<V<X, 4>, A<-1, X, 1>, A<-1, X, 1>, A<-1, X, 1>, A<1, F, 2>>(); build<V<X, 4>, A<0, X, 3>, A<0, X, 3>>();
	go<SetAll<V<X, 1>>, A<-1, X, 1, Any>>(); go<SetAll<V<X, 2>>, A<-1, X, 1, Any>, A<-1, X, 1, Any>>(); go<SetAll<V<X, 3>>, A<-1, X, 1, Any>, A<-1, X, 1, Any>, A<-1, X, 1, Any>>(); go<SetAll<V<X, 4>>, A<-1, X, 1, Any>, A<-1, X, 1, Any>, A<-1, X, 1, Any>, A<-1, X, 1, Any>>();
	// views of unrelated storage are not swapped in constant expressions: whether they overlap is unspecified there
	if constexpr (std::is_same_v<V<X, 3>, dsga::basic_vector<X, 3>>) { go<Swapped<V<X, 3>>, A<0, X, 3, Any>>(); go<Swapped<V<X, 4>>, A<0, X, 4, Any>>(); }
	go<Swapped2<V<X, 2>>, A<0, X, 2, Any>>(); go<Assigned2<V<X, 4>>, A<0, X, 4, Any>>(); go<Assigned2<V<X, 1>>, A<0, X, 1, Any>>();
}
template <class T, sz N> using BV = dsga::basic_vector<T, N>;
template <class T, sz N> using VV = dsga::view_vector<T, N>;
template <template <class> class F, template <class, sz> class V, sz N, class... Ar> void may() { if constexpr (requires (Opnd<Ar> &...o) { F<V<X, N>>::call(o.ref()...); }) go<F<V<X, N>>, Ar...>(); }
template <template <class, sz> class V> void steps()
{
	upto<4>([](auto nn) {
		constexpr sz N = nn + 1;
		constexpr int k1 = vkinds[N % 5], k2 = vkinds[(N + 1) % 5], k3 = vkinds[(N + 2) % 5];
		using A1 = A<k1, X, N, Any>; using A2 = A<k2, X, N, Any>; using A3 = A<k3, X, N, Any>;
		if constexpr (!std::is_same_v<X, bool>)
		{
			go<Assigned<V<X, N>>, A1>(); if constexpr (N == 1 && std::is_same_v<V<X, N>, BV<X, N>>) go<Assigned<V<X, N>>, A<-1, X, 1, Any>>(); go<Assigned3<V<X, N>>, A2>(); go<ThroughView<V<X, N>>, A<k3 == 3 ? 4 : k3, X, N, Any>>();
			if constexpr (isf<X>) go<Assigned<V<X, N>>, A<k1, int, N, Small>>();
			if constexpr (sizeof(X) == 8) { go<Assigned<V<X, N>>, A<k2, unsigned, N, Any>>(); go<ThroughView<V<X, N>>, A<k3, unsigned, N, Any>>(); }
			go<BetweenViews<V<X, N>>, A1>();
			if constexpr (std::is_same_v<V<X, N>, BV<X, N>>) go<ViewOfIt<V<X, N>>, A<k2 == 3 ? 1 : k2, X, N, Any>>();
		}
		go<Iterated<V<X, N>>, A1>(); go<Backwards<V<X, N>>, A2>(); go<Reversed<V<X, N>>, A3>(); go<Ranged<V<X, N>>, A1>(); go<RangedFrom<V<X, N>>, A2>(); go<Copy<V<X, N>>, A3>(); go<Gotten<V<X, N>>, A1>();
		go<ByArray<V<X, N>>, A2>(); go<ByCArray<V<X, N>>, A3>(); go<ByLength<V<X, N>>, A1>(); go<Distant<V<X, N>>, A2>(); go<Bound<V<X, N>>, A1>(); go<Bound<V<X, N>>, A3>();
	});
}
template <class F> void comps() { upto<3>([](auto nn) { constexpr sz N = nn + 2; constexpr auto h = hash(F::name); go<F, A<vkinds[(N + h) % 5], X, N, Any>, A<vkinds[(N + h / 7) % 5], X, N, Any>>(); go<F, A<vkinds[(N + h / 3) % 5], X, N, Any>, A<-1, X, 1, Any>>(); }); }
void sections()
{
	lists<BV>(); lists<VV>(); steps<BV>(); steps<VV>();
	if constexpr (!std::is_same_v<X, bool>)
	{
		comps<PlusEq>(); comps<MinusEq>(); comps<TimesEq>(); comps<OverEq>(); comps<PlusEqV>(); comps<MinusEqV>(); comps<TimesEqV>(); comps<OverEqV>();
		if constexpr (!isf<X>) { comps<RemEq>(); comps<AndEq>(); comps<OrEq>(); comps<XorEq>(); comps<ShlEq>(); comps<ShrEq>(); }
		upto<3>([](auto nn) { constexpr sz N = nn + 2; using S = A<-1, X, 1>; go<Step1<'P'>, A<0, X, N>, S>(); go<Step1<'M'>, A<0, X, N>, S>(); go<Step1<'p'>, A<0, X, N>, S>(); go<Step1<'m'>, A<0, X, N>, S>(); });
	}
}
#endif

#if SEC == 8
// namespace cxcm, and its relaxed functions where they are meant to be used
namespace cx = dsga::cxcm;
#define REL(id) struct Relaxed##id { static constexpr const char *name = id::name, *via = "relaxed"; static constexpr auto call(const auto &x) { return id::relaxed(x); } };
#define CX1(id, fn) struct id { static constexpr const char *name = "cx." #fn; static constexpr auto call(const auto &x) { return cx::fn(x); } };
#define CXR(id, fn) struct id { static constexpr const char *name = "cx." #fn; static constexpr auto call(const auto &x) { return cx::fn(x); } static constexpr auto relaxed(const auto &x) { return cx::relaxed::fn(x); } }; REL(id)
#define CX2(id, fn) struct id { static constexpr const char *name = "cx." #fn; static constexpr auto call(const auto &x, const auto &y) { return cx::fn(x, y); } };
CXR(Floor, floor) CXR(Ceil, ceil) CXR(Trunc, trunc) CXR(RoundF, round) CXR(RoundEven, round_even) CXR(FractF, fract) CXR(Abs, abs) CXR(Fabs, fabs) CXR(Sqrt, sqrt) CXR(Rsqrt, rsqrt) CXR(FastRsqrt, fast_rsqrt)
CX1(IsNan, isnan) CX1(IsInf, isinf) CX1(IsNormal, isnormal) CX1(IsFinite, isfinite) CX1(SignBit, signbit) CX1(NegZero, is_negative_zero)
CX2(CopySign, copysign) CX2(Fmod, fmod)
struct FpClassify { static constexpr const char *name = "cx.fpclassify"; static constexpr int call(const auto &x) { switch (cx::fpclassify(x)) { case FP_NAN: return 0; case FP_INFINITE: return 1; case FP_ZERO: return 2; case FP_SUBNORMAL: return 3; case FP_NORMAL: return 4; default: return 9; } } };
struct Edge { template <class T> static constexpr T val(Rng &r)		// where the classes of numbers meet
	{
		using L = std::numeric_limits<T>;
		switch (r.below(4))
		{
			case 0: { const T sp[] = { T(0), -T(0), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::max(), -L::max(), towards(L::min(), false), -towards(L::min(), false), towards(L::min(), true) }; return sp[r.below(11)]; }
			case 1: { T x = bitsof<T>(r.next() & (sizeof(T) == 4 ? 0x80ffffffull : 0x801fffffffffffffull)); return x; }
			default: return Special::val<T>(r);
		}
	} };
struct Plain { template <class T> static constexpr T val(Rng &r)		// for the relaxed functions: fractions, halves and their neighbours, in the range of int
	{
		constexpr T big = T(1ull << (std::numeric_limits<T>::digits - 3));
		T x{};
		switch (r.below(6))
		{
			case 0: x = T(int(r.below(17)) - 8) + T(0.5); break;
			case 1: x = towards(T(int(r.below(17)) - 8) + T(0.5), r.coin()); break;
			case 2: x = T(int(r.below(4001)) - 2000) / T(8); break;
			case 3: x = T(int(r.below(17)) - 8); if (x != 0) x = towards(x, r.coin()); break;
			case 4: x = big + T(r.below(8)) / T(4); if (r.coin()) x = -x; break;
			default: x = Moderate::val<T>(r); break;
		}
		return x == 0 ? T(1) : x;
	} };
template <class T> struct FmodIn { template <class In> static constexpr void fix(In &in, Rng &r)
	{
		T &a = std::get<0>(in)[0], &b = std::get<1>(in)[0];
		constexpr bool f = sizeof(T) == 4;
		constexpr int mb = std::numeric_limits<T>::digits - 1;
		auto near = [&](T y, int span) { std::uint64_t e = (asbits(y) >> mb) & (f ? 255 : 2047); std::uint64_t ne = e + r.below(span); if (ne >= (f ? 255u : 2047u)) ne = f ? 254 : 2046; return bitsof<T>((r.next() & ((1ull << mb) - 1)) | ne << mb | (r.coin() ? (f ? 0x80000000ull : 0x8000000000000000ull) : 0)); };
		switch (r.below(9))
		{
			case 0: a = Tiny::val<T>(r); b = Tiny::val<T>(r); if (b == 0) b = T(0.75); break;
			case 1: a = T(r.below(1000)) / T(10); b = T(1 + r.below(50)) / T(10); break;		// not exact in binary
			case 2: b = Moderate::val<T>(r); a = b * T(int(r.below(200)) - 100); if (a != 0 && r.coin()) a = towards(a, r.coin()); break;
			case 3: b = Any::val<T>(r); if (!fin(b) || b == 0) b = T(3); a = near(b, 12); break;
			case 4: b = Any::val<T>(r); if (!fin(b) || b == 0) b = T(3); a = near(b, f ? 80 : 300); break;
			case 5: a = std::numeric_limits<T>::max(); b = Pos::val<T>(r); if (r.coin()) a = -a; break;
			case 6: b = bitsof<T>(1 + r.below(1000)); a = bitsof<T>(r.next() & (f ? 0x80ffffffull : 0x801fffffffffffffull)); break;
			case 7: a = Any::val<T>(r); b = r.coin() ? a : -a; if (r.coin() && a != 0) b = towards(b, r.coin()); if (b == 0) b = T(2); break;
			default: a = Edge::val<T>(r); b = Edge::val<T>(r); break;
		}
	} };
template <class T> struct FmodT : Fmod, FmodIn<T> {};
struct AnyWhole { template <class T> static constexpr T val(Rng &r) { T x = T(1 + r.below(r.coin() ? 12 : 1000)); return r.coin() ? x : -x; } };
struct RelaxedFmod { static constexpr const char *name = "cx.relaxed.fmod", *via = "relaxed"; static constexpr auto call(const auto &x, const auto &y) { return cx::relaxed::fmod(x, y); } };
template <class F, class T, class G> void one() { go<F, Arg<-1, T, 1, G>>(); }
struct Modest { template <class T> static constexpr T val(Rng &r) { T x = Moderate::val<T>(r); return x < 0 ? -x : x; } };
template <class G> struct NoMin { template <class T> static constexpr T val(Rng &r) { T x = G::template val<T>(r); return x == std::numeric_limits<T>::min() && x != 0 ? T(-9) : x; } };
void sections()
{
	if constexpr (isf<X>)
	{
		one<Floor, X, Round>(); one<Ceil, X, Round>(); one<Trunc, X, Round>(); one<RoundF, X, Round>(); one<RoundEven, X, Round>(); one<FractF, X, Round>();
		one<Abs, X, Edge>(); one<Fabs, X, Edge>(); one<Sqrt, X, NonNeg>(); one<Rsqrt, X, Pos>(); one<FastRsqrt, X, Pos>();
		one<RelaxedFloor, X, Plain>(); one<RelaxedCeil, X, Plain>(); one<RelaxedTrunc, X, Plain>(); one<RelaxedRoundF, X, Plain>(); one<RelaxedRoundEven, X, Plain>(); one<RelaxedFractF, X, Plain>();
		one<RelaxedAbs, X, Plain>(); one<RelaxedFabs, X, Plain>();
		one<RelaxedSqrt, X, Modest>(); one<RelaxedRsqrt, X, Modest>(); one<RelaxedFastRsqrt, X, Modest>();
		one<IsNan, X, Edge>(); one<IsInf, X, Edge>(); one<IsNormal, X, Edge>(); one<IsFinite, X, Edge>(); one<SignBit, X, Edge>(); one<NegZero, X, Edge>(); one<FpClassify, X, Edge>();
		go<CopySign, Arg<-1, X, 1, Edge>, Arg<-1, X, 1, Edge>>();
		go<FmodT<X>, Arg<-1, X, 1, Any>, Arg<-1, X, 1, Any>>();
		go<RelaxedFmod, Arg<-1, X, 1, AnyWhole>, Arg<-1, X, 1, AnyWhole>>();
	}
	else
	{
		one<Floor, X, Any>(); one<Ceil, X, Any>(); one<Trunc, X, Any>(); one<RoundF, X, Any>(); one<RoundEven, X, Any>(); one<FractF, X, Any>();
		one<Abs, X, NoMin<Any>>(); one<Fabs, X, NoMin<Any>>(); one<RelaxedAbs, X, NoMin<Any>>(); one<RelaxedFabs, X, NoMin<Any>>();
	}
}
#endif

int main(int argc, char **argv)
{
	start(argc, argv);
	sections();
	return finish();
}
