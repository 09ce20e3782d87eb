// Calls that must throw (assertions disabled), and the same calls with good arguments.
#define DSGA_DISABLE_ASSERTS
#include "trace.hpp"
using namespace tr;

#ifndef SHARD
#define SHARD 0
#endif
using AllTypes = List<float, int, double, bool, unsigned, long long, unsigned long long>;
using T = nth<SHARD, AllTypes>;

template <class F> const char *outcome(F &&f)
{
	try { f(); }
	catch (const std::out_of_range &) { return "out_of_range"; }
	catch (const std::invalid_argument &) { return "invalid_argument"; }
	catch (const std::range_error &) { return "range_error"; }
	catch (...) { return "another exception"; }
	return "nothing";
}

template <class I> I bad_index(sz n)
{
	switch (below(5))
	{
		case 0: return I(n);
		case 4: if constexpr (sizeof(I) == 8) return (I(1) << 32) + I(below(unsigned(n))); else return I(n);
		case 1: return I(n + 1 + below(6));
		case 2: return std::numeric_limits<I>::max();
		default: return std::is_signed_v<I> ? (below(2) ? I(-1) : std::numeric_limits<I>::min()) : I(n + 256);
	}
}
// every number of indexes, every place for the bad one, or none bad
template <int K, sz N, class I> void swizzles()
{
	for (int n = 1; n <= 4; ++n) for (int at = -1; at < n; ++at)
	{
		auto a = rand_arr<T, N>();
		Op<K, T, N> x(a);
		decltype(auto) o = x.ref();
		I ix[4]; for (int i = 0; i < 4; ++i) ix[i] = I(below(N));
		if (at >= 0) ix[at] = bad_index<I>(N);
		if (at >= 0 && n > 1 && below(2)) { int b = int(below(unsigned(n))); ix[b] = bad_index<I>(N); }
		const char *r = outcome([&]
		{
			switch (n)
			{
				case 1: (void)dsga::swizzle(o, ix[0]); break;
				case 2: (void)dsga::swizzle(o, ix[0], ix[1]); break;
				case 3: (void)dsga::swizzle(o, ix[0], ix[1], ix[2]); break;
				default: (void)dsga::swizzle(o, ix[0], ix[1], ix[2], ix[3]); break;
			}
		});
		bool good = true;
		for (int i = 0; i < n; ++i) good = good && ix[i] >= I(0) && static_cast<unsigned long long>(ix[i]) < N;
		Ev ev("refuse");
		ev.arr(a, char('0' + K));
		line += "],\"r\":\""; line += r; line += "\",\"good\":[";
		for (int i = 0; i < n; ++i) { if (i) line += ','; num(ix[i] >= I(0) && static_cast<unsigned long long>(ix[i]) < 100 ? (long long)ix[i] : -1); }
		line += ']';
		ev.fld("u", x.unchanged()).done();
	}
}

template <class E, sz C, sz R, class U> void nulls()
{
	using M = dsga::basic_matrix<E, C, R>;
	for (int how = 0; how < 5; ++how) for (int null = 0; null < 2; ++null)
	{
		auto src = small_arr<U, C * R>(), was = src;
		auto old = small_arr<E, C * R>();
		M m(old.data());
		const U *p = null ? nullptr : src.data();
		U *q = null ? nullptr : src.data();
		bool built = false;
		const char *r = outcome([&]
		{
			switch (how)
			{
				case 0: { M x(p); built = true; (void)x; break; }
				case 1: { M x{ q }; built = true; (void)x; break; }
				case 2: { M x = M(p); built = true; (void)x; break; }
				case 3: m = M(p); built = true; break;
				default: m = p; built = true; break;
			}
		});
		bool same = true, copied = true;
		for (sz c = 0; c < C; ++c) for (sz w = 0; w < R; ++w) { same = same && same_bits(E(m[c][w]), old[c * R + w]); copied = copied && same_bits(E(m[c][w]), E(src[c * R + w])); }
		bool u = src == was && (null || how < 3 ? same : copied);
		Ev ev("nullptr");
		line += "],\"r\":\""; line += r; line += "\"";
		ev.fld("null", null).fld("u", u && built == !null).done();
	}
}
// overlapping views are not swapped
template <sz N> void overlaps()
{
	for (int off = 0; off <= int(N) + 1; ++off)
	{
		T mem[16]; for (auto &x : mem) x = rand_val<T>();
		T was[16]; std::memcpy(was, mem, sizeof mem);
		int at = 1 + int(below(3));
		dsga::basic_view<true, T, N> a(mem + at), b(mem + at + off);
		const char *r = outcome([&] { if (below(2)) { if (below(2)) swap(a, b); else swap(b, a); } else if (below(2)) a.swap(b); else b.swap(a); });
		bool same = true, swapped = true;
		for (int i = 0; i < 16; ++i)
		{
			int j = i >= at && i < at + int(N) ? i + off : i >= at + off && i < at + off + int(N) ? i - off : i;
			same = same && same_bits(mem[i], was[i]);
			if (off >= int(N)) swapped = swapped && same_bits(mem[i], was[j]);
		}
		bool bound = a.data() == mem + at && b.data() == mem + at + off;
		Ev ev("overlap");
		line += "],\"r\":\""; line += r; line += "\"";
		ev.fld("off", off).fld("n", N).fld("same", same).fld("swapped", swapped).fld("bound", bound).done();
	}
}

int main(int argc, char **argv)
{
	start(argc, argv);
	seed(env_u("VERIF_SEED", 1) * 100 + SHARD);
	for (unsigned k = env_u("ROUNDS", 1); k-- > 0;)
	{
		upto<8>([&](auto K) { upto<4>([&](auto n)
		{
			swizzles<int(K()), n() + 1, int>();
			swizzles<int(K()), n() + 1, sz>();
			if constexpr (SHARD == 0) { swizzles<int(K()), n() + 1, unsigned>(); swizzles<int(K()), n() + 1, long long>(); }
		}); });
		upto<4>([&](auto n) { overlaps<n() + 1>(); });
		if constexpr (std::is_floating_point_v<T>)
			upto<3>([&](auto c) { upto<3>([&](auto r) { nulls<T, c() + 2, r() + 2, float>(); nulls<T, c() + 2, r() + 2, double>(); }); });
	}
	return finish();
}
