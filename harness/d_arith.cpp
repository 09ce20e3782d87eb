// C07 / C08: binary and unary operators on every mix of element types, shapes and vector kinds.
#include "trace.hpp"
using namespace tr;

#ifndef SHARD
#define SHARD 0
#endif
#ifndef SHARDS
#define SHARDS 1
#endif
#ifndef INTS
#define INTS 0
#endif
static unsigned rounds = 2;

template <char C> struct B;
#define BIN(ch, name, expr) template <> struct B<ch> { static constexpr const char *s = name; template <class X, class Y> static auto f(X &a, Y &b) { return a expr b; } };
BIN('+', "+", +) BIN('-', "-", -) BIN('*', "*", *) BIN('/', "/", /)
BIN('%', "%", %) BIN('l', "<<", <<) BIN('r', ">>", >>) BIN('&', "&", &) BIN('|', "|", |) BIN('^', "^", ^)

template <char C, class X, class Y> bool ok_inputs(X a, Y b)
{
	if constexpr (C == 'l' || C == 'r')
	{
		// the shift count must be in range for the promoted left operand
		long long k = (long long)b;
		return k >= 0 && k < (long long)(sizeof(X) * 8) && (std::is_signed_v<Y> ? b >= 0 : (unsigned long long)b < sizeof(X) * 8);
	}
	else return defined_op(C, a, b);
}
template <char C, class X, sz N1, class Y, sz N2> void fix(std::array<X, N1> &a, std::array<Y, N2> &b)
{
	for (sz i = 0; i < (N1 > N2 ? N1 : N2); ++i)
	{
		X &x = a[N1 == 1 ? 0 : i]; Y &y = b[N2 == 1 ? 0 : i];
		if constexpr (C == 'l' || C == 'r') { if (N2 > 1 || i == 0) y = Y(below(sizeof(X) * 8)); }
		else
		{
			for (int t = 0; t < 30 && !ok_inputs<C>(x, y); ++t) { if (N1 == 1) y = t < 20 ? rand_val<Y>() : Y(1 + below(5)); else x = t < 20 ? rand_val<X>() : X(below(9)); if (N1 > 1 && N2 > 1 && t > 3) y = Y(1 + below(5)); if (N2 == 1 && i == 0 && N1 > 1) y = t < 10 ? rand_val<Y>() : Y(1 + below(4)); }
		}
	}
}
template <char C, class X, sz N1, class Y, sz N2> bool all_ok(const std::array<X, N1> &a, const std::array<Y, N2> &b)
{
	for (sz i = 0; i < (N1 > N2 ? N1 : N2); ++i) if (!ok_inputs<C>(a[N1 == 1 ? 0 : i], b[N2 == 1 ? 0 : i])) return false;
	return true;
}
template <char C, class X, sz N1, int K1, class Y, sz N2, int K2> void one()
{
	for (unsigned k = 0; k < rounds; ++k)
	{
		auto a = rand_arr<X, N1>(); auto b = rand_arr<Y, N2>();
		fix<C>(a, b);
		if (!all_ok<C>(a, b)) { b.fill(Y(1)); for (auto &x : a) x = X(3); }
		Op<K1, X, N1> p(a); Op<K2, Y, N2> q(b);
		Ev ev(B<C>::s);
		ev.arr(a, char('0' + 1 + K1)).arr(b, char('0' + 1 + K2));
		auto r = B<C>::f(p.ref(), q.ref());
		ev.res(r).fld("u", p.unchanged() && q.unchanged()).done();
	}
}
template <char C> struct U;
template <> struct U<'p'> { static constexpr const char *s = "u+"; template <class X> static auto f(X &a) { return +a; } };
template <> struct U<'n'> { static constexpr const char *s = "u-"; template <class X> static auto f(X &a) { return -a; } };
template <> struct U<'t'> { static constexpr const char *s = "~"; template <class X> static auto f(X &a) { return ~a; } };
template <char C, class X, sz N, int K> void una()
{
	for (unsigned k = 0; k < rounds; ++k)
	{
		auto a = rand_arr<X, N>();
		if constexpr (C == 'n' && std::is_integral_v<X> && std::is_signed_v<X>) for (auto &x : a) if (x == std::numeric_limits<X>::min()) x = 5;
		Op<K, X, N> p(a);
		Ev ev(U<C>::s);
		ev.arr(a, char('0' + 1 + K));
		auto r = U<C>::f(p.ref());
		ev.res(r).fld("u", p.unchanged()).done();
	}
}

constexpr unsigned mix(unsigned a, unsigned b, unsigned c) { return (a * 31 + b) * 17 + c; }
// views are only used for some types of a shard, because they are costly to compile
constexpr int kind(bool any, unsigned h) { constexpr int cheap[4] = { 0, 1, 2, 7 }; return any ? int(h % 8) : cheap[h % 4]; }

template <unsigned I, char C, class X, bool VX, class Y, bool VY> void shapes()
{
	// every shape; the kinds rotate over the types and operators
	if constexpr ((C == '&' || C == '|' || C == '^') && sizeof(X) != sizeof(Y)) return;		// not offered by the library
	else
	upto<4>([](auto n) {
		constexpr sz N = n + 1;
		constexpr unsigned h = mix(I, C, N);
		one<C, X, N, kind(VX, h), Y, N, kind(VY, h / 8 + C + I)>();
		one<C, X, N, kind(VX, h + 3), Y, 1, -1>();
		one<C, X, 1, -1, Y, N, kind(VY, h + 5)>();
		if constexpr (N > 1)
		{
			one<C, X, N, kind(VX, h + 2), Y, 1, kind(VY, h / 8 + I)>();
			one<C, X, 1, kind(VX, h / 8 + I + 1), Y, N, kind(VY, h + 4)>();
		}
	});
}

#if INTS
using TL = List<int, unsigned, long long, unsigned long long, unsigned long>;
#define OPS(X) X('%') X('l') X('r') X('&') X('|') X('^')
#else
using TL = List<int, unsigned, long long, unsigned long long, float, double, unsigned long>;
#define OPS(X) X('+') X('-') X('*') X('/')
#endif
constexpr sz NT = INTS ? 5 : 7;

int main(int argc, char **argv)
{
	start(argc, argv);
	seed(env_u("VERIF_SEED", 1) * 100 + SHARD);
	rounds = env_u("ROUNDS", 2);
	using X = nth<SHARD, TL>;
	upto<NT>([](auto ix) {
		constexpr unsigned I = ix;
		using Y = nth<I, TL>;
		using CT = std::common_type_t<X, Y>;
		if constexpr (std::is_same_v<CT, X> || std::is_same_v<CT, Y>)
		{
#define X1(c) shapes<SHARD * NT + I, c, X, true, Y, I == (SHARD + 1) % NT || I == SHARD>();
			OPS(X1)
		}
	});
	// every pair of kinds
	upto<64>([](auto ix) {
		constexpr unsigned I = ix;
		constexpr sz N = 1 + SHARD % 4;
#if INTS
		one<"%lr&|"[SHARD], X, N, I / 8, X, N, I % 8>();
#else
		one<"+-*/-*+"[SHARD], X, N, I / 8, X, N, I % 8>();
#endif
	});
	// every kind for every unary operator
	upto<8>([](auto kk) {
		upto<4>([](auto nn) {
			constexpr sz k = decltype(kk)::value, n = decltype(nn)::value;
#if INTS
			una<'t', X, n + 1, int(k)>();
#else
			una<'p', X, n + 1, int(k)>();
			una<'n', X, n + 1, int(k)>();
#endif
		});
	});
	return finish();
}
