// C09: compound assignment, ++ and -- on full-range values, every permitted mix of element types, shapes and destination kinds.
#include "trace.hpp"
using namespace tr;

#ifndef SHARD
#define SHARD 0
#endif
static unsigned rounds = 2;

template <char C> struct A;
#define ASG(ch, name, expr) template <> struct A<ch> { static constexpr const char *s = name; template <class X, class Y> static decltype(auto) f(X &&a, Y &&b) { return (a expr b); } };
ASG('+', "+=", +=) ASG('-', "-=", -=) ASG('*', "*=", *=) ASG('/', "/=", /=)
ASG('%', "%=", %=) ASG('l', "<<=", <<=) ASG('r', ">>=", >>=) ASG('&', "&=", &=) ASG('|', "|=", |=) ASG('^', "^=", ^=)

// keep undefined behaviour out: on a pair that is not defined, the right-hand side is replaced
template <char C, class X, class Y> bool ok(X a, Y b)
{
	if constexpr (C == 'l' || C == 'r') return !(b < Y(0)) && b < Y(sizeof(X) * 8);
	else return defined_op(C, a, b);
}
template <char C, class X, sz N1, class Y, sz N2> void fix(std::array<X, N1> &a, std::array<Y, N2> &b)
{
	for (int t = 0; t < 40; ++t)
	{
		bool all = true;
		for (sz i = 0; i < N1; ++i)
			if (!ok<C>(a[i], b[N2 == 1 ? 0 : i]))
			{
				all = false;
				Y &y = b[N2 == 1 ? 0 : i];
				if constexpr (C == 'l' || C == 'r') y = Y(below(sizeof(X) * 8));
				else if (t < 15) y = rand_val<Y>();
				else if (t < 25) y = Y(1 + below(9));
				else a[i] = X(below(1000));
			}
		if (all) return;
	}
	for (auto &x : a) x = X(3);
	for (auto &y : b) y = Y(1);
}
template <class P> void *where(P &p) { return (void *)std::addressof(p.ref()); }

template <char C, class X, sz N1, int K1, class Y, sz N2, int K2> void one()
{
	for (unsigned k = 0; k < rounds; ++k)
	{
		auto a = rand_arr<X, N1>(); auto b = rand_arr<Y, N2>();
		fix<C>(a, b);
		Op<K1, X, N1> p(a); Op<K2, Y, N2> q(b);
		Ev ev(A<C>::s);
		ev.arr(a, char('0' + 1 + K1)).arr(b, char('0' + 1 + K2));
		auto &&r = A<C>::f(p.ref(), q.ref());
		bool same = (void *)std::addressof(r) == where(p);
		ev.res(p.ref()).fld("u", p.others_unchanged() && q.unchanged()).fld("ret", same).done();
	}
}
// the destination is its own right-hand side
template <char C, class X, sz N, int K> void self()
{
	for (unsigned k = 0; k < rounds; ++k)
	{
		auto a = rand_arr<X, N>();
		for (auto &x : a) for (int t = 0; t < 40 && !ok<C>(x, x); ++t) x = t < 25 ? rand_val<X>() : X(1 + below(20));
		for (auto &x : a) if (!ok<C>(x, x)) x = X(1);
		Op<K, X, N> p(a);
		Ev ev(A<C>::s);
		ev.arr(a, char('0' + 1 + K)).arr(a, char('0' + 1 + K));
		auto &&r = A<C>::f(p.ref(), p.ref());
		bool same = (void *)std::addressof(r) == where(p);
		ev.res(p.ref()).fld("u", p.others_unchanged()).fld("ret", same).done();
	}
}
template <int W, class X, sz N, int K> void step()
{
	static constexpr const char *names[] = { "++x", "--x", "x++", "x--" };
	for (unsigned k = 0; k < rounds; ++k)
	{
		auto a = rand_arr<X, N>();
		if constexpr (std::is_integral_v<X> && std::is_signed_v<X>)
			for (auto &x : a) if (x == std::numeric_limits<X>::min() || x == std::numeric_limits<X>::max()) x = X(-1);
		Op<K, X, N> p(a);
		Ev ev(names[W]);
		ev.arr(a, char('0' + 1 + K));
		if constexpr (W == 0 || W == 1)
		{
			auto &&r = [&]() -> decltype(auto) { if constexpr (W == 0) return ++p.ref(); else return --p.ref(); }();
			bool same = (void *)std::addressof(r) == where(p);
			ev.res(p.ref()).fld("u", p.others_unchanged()).fld("ret", same).done();
		}
		else
		{
			auto r = [&] { if constexpr (W == 2) return p.ref()++; else return p.ref()--; }();
			ev.res(p.ref()).fld("u", p.others_unchanged()).fld("ret", 1).out("old", r).done();
		}
	}
}

using TL = List<int, unsigned, long long, unsigned long long, float, double, unsigned long>;
constexpr int dest[5] = { 0, 2, 3, 5, 6 };
constexpr unsigned mixh(unsigned a, unsigned b, unsigned c) { return (a * 31 + b) * 17 + c; }

template <unsigned I, char C, class X, class Y> void shapes()
{
	if constexpr ((C == '&' || C == '|' || C == '^') && sizeof(X) != sizeof(Y)) return;
	else
	upto<4>([](auto n) {
		constexpr sz N = n + 1;
		constexpr unsigned h = mixh(I, C, N);
		constexpr int src[4] = { 0, 1, 2, 7 };
		constexpr int cheap[3] = { 0, 2, 6 };
		one<C, X, N, (I == SHARD ? dest[h % 5] : cheap[h % 3]), Y, N, src[h / 5 % 4]>();
		one<C, X, N, (I == SHARD ? dest[(h + 1) % 5] : cheap[(h + 1) % 3]), Y, 1, -1>();
		if constexpr (N > 1) one<C, X, N, (I == SHARD ? dest[(h + 3) % 5] : cheap[(h + 2) % 3]), Y, 1, src[h / 3 % 4]>();
	});
}

int main(int argc, char **argv)
{
	start(argc, argv);
	seed(env_u("VERIF_SEED", 1) * 100 + SHARD);
	rounds = env_u("ROUNDS", 2);
	using X = nth<SHARD, TL>;
	upto<7>([](auto ix) {
		constexpr unsigned I = ix;
		using Y = nth<I, TL>;
		if constexpr (std::is_same_v<std::common_type_t<X, Y>, X>)
		{
			shapes<I, '+', X, Y>(); shapes<I, '-', X, Y>(); shapes<I, '*', X, Y>(); shapes<I, '/', X, Y>();
			if constexpr (std::is_integral_v<X> && std::is_integral_v<Y>)
			{
				shapes<I, '%', X, Y>(); shapes<I, 'l', X, Y>(); shapes<I, 'r', X, Y>();
				shapes<I, '&', X, Y>(); shapes<I, '|', X, Y>(); shapes<I, '^', X, Y>();
			}
		}
	});
	// every kind of destination with every kind of right-hand side, and with itself
	upto<40>([](auto ix) {
		constexpr unsigned I = ix;
		constexpr sz N = 1 + (I + SHARD) % 4;
		one<"+-*/"[(I / 8 + I) % 4], X, N, dest[I / 8], X, N, I % 8>();
		if constexpr (I % 8 < 4) self<"+-*/"[I % 8], X, N, dest[I / 8]>();
		if constexpr (I % 8 >= 4) step<I % 8 - 4, X, N, dest[I / 8]>();
		if constexpr (std::is_integral_v<X>) one<"%lr&|^"[(I / 8 + I) % 6], X, 1 + N % 4, dest[I / 8], X, 1 + N % 4, I % 8>();
	});
	return finish();
}
