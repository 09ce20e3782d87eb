// Recording of calls made on the real library, one JSON object per line.
// Only the public interface of dsga is used; nothing here knows what the right answers are
// (those come from the TLA+ specification), except for keeping undefined behaviour out of the inputs.
#pragma once
#include "dsga.hxx"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <cmath>
#include <bit>
#include <array>
#include <string>
#include <limits>
#include <unistd.h>
#include <fcntl.h>

namespace tr
{
	using sz = std::size_t;

	// ---------------------------------------------------------------- output
	inline int out_fd = 1;
	inline char cur[256] = "start";			// what is being called, for crash reports
	inline std::string buf;
	inline unsigned long long lines = 0;

	inline void write_all(const char *p, sz n) { while (n) { ssize_t k = ::write(out_fd, p, n); if (k <= 0) ::_exit(3); p += k; n -= sz(k); } }
	inline void flush() { write_all(buf.data(), buf.size()); buf.clear(); }
	inline std::string line;

	extern "C" inline void crashed(int sig)
	{
		// the library ended the process (abort, fault, hang): that is an observation like any other
		static char msg[400];
		write_all(buf.data(), buf.size());
		int n = std::snprintf(msg, sizeof msg, "{\"o\":\"crash\",\"w\":\"%s\",\"sig\":%d}\n", cur, sig);
		write_all(msg, sz(n));
		::_exit(0);
	}
	inline void start(int argc, char **argv)
	{
		if (argc > 1) out_fd = ::open(argv[1], O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (out_fd < 0) std::exit(3);
		for (int s : { SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM }) std::signal(s, crashed);
		if (!std::freopen("/dev/null", "w", stderr)) std::exit(3);
		::alarm(240);
	}
	inline int finish()
	{
		buf += "{\"o\":\"end\"}\n";
		flush();
		return 0;
	}

	// ---------------------------------------------------------------- scalars
	template <class T> struct Tag;
	template <> struct Tag<bool> { static constexpr char c = 'b'; };
	template <> struct Tag<int> { static constexpr char c = 'i'; };
	template <> struct Tag<unsigned> { static constexpr char c = 'u'; };
	template <> struct Tag<long long> { static constexpr char c = 'l'; };
	template <> struct Tag<unsigned long long> { static constexpr char c = 'm'; };
	template <> struct Tag<unsigned long> { static constexpr char c = 'z'; };
	template <> struct Tag<float> { static constexpr char c = 'f'; };
	template <> struct Tag<double> { static constexpr char c = 'd'; };
	template <class T> concept Scal = requires { Tag<std::remove_cvref_t<T>>::c; };

	template <class T> unsigned long long bits(T v)
	{
		if constexpr (std::is_same_v<T, bool>) return v ? 1u : 0u;
		else if constexpr (sizeof(T) == 4) return std::bit_cast<std::uint32_t>(v);
		else return std::bit_cast<std::uint64_t>(v);
	}
	template <class T> T from_bits(unsigned long long b)
	{
		if constexpr (std::is_same_v<T, bool>) return b & 1;
		else if constexpr (sizeof(T) == 4) return std::bit_cast<T>(std::uint32_t(b));
		else return std::bit_cast<T>(std::uint64_t(b));
	}
	inline void num(long long v) { char t[24]; int n = std::snprintf(t, sizeof t, "%lld", v); line.append(t, sz(n)); }
	inline void digit(unsigned v)
	{
		char t[5]; int n = 0;
		do { t[n++] = char('0' + v % 10); v /= 10; } while (v);
		while (n) line += t[--n];
	}
	template <class T> void put(T v)
	{
		constexpr int nd = std::is_same_v<T, bool> ? 1 : sizeof(T) == 4 ? 3 : 6;
		unsigned long long b = bits(v);
		line += '[';
		for (int i = 0; i < nd; ++i) { if (i) line += ','; digit(unsigned(b & 4095)); b >>= 12; }
		line += ']';
	}
	template <class T> bool same_bits(T a, T b) { return bits(a) == bits(b); }

	// ---------------------------------------------------------------- values: {"t":type,"k":S scalar | V owning vector | other,"v":[...]}
	template <class T> void put_value(const T *p, sz n, char kind)
	{
		line += "{\"t\":\""; line += Tag<T>::c; line += "\",\"k\":\""; line += kind; line += "\",\"v\":[";
		for (sz i = 0; i < n; ++i) { if (i) line += ','; put(p[i]); }
		line += "]}";
	}
	template <Scal T> void put_any(const T &v) { put_value(&v, 1, 'S'); }
	template <bool W, class T, sz C, class D> void put_any(const dsga::vector_base<W, T, C, D> &v)
	{
		std::array<T, C> a{};
		for (sz i = 0; i < C; ++i) a[i] = v[i];
		put_value(a.data(), C, std::is_same_v<D, dsga::basic_vector<T, C>> ? 'V' : 'O');
	}
	template <class T, sz C, sz R> void put_any(const dsga::basic_matrix<T, C, R> &m)
	{
		std::array<T, C * R> a{};
		for (sz c = 0; c < C; ++c) for (sz r = 0; r < R; ++r) a[c * R + r] = m[c][r];
		line += "{\"t\":\""; line += Tag<T>::c; line += "\",\"k\":\"M\",\"c\":"; num(C); line += ",\"r\":"; num(R); line += ",\"v\":[";
		for (sz i = 0; i < C * R; ++i) { if (i) line += ','; put(a[i]); }
		line += "]}";
	}

	// one event
	struct Ev
	{
		bool first = true;
		explicit Ev(const char *op, const char *where = nullptr)
		{
			std::snprintf(cur, sizeof cur, "%s %s", op, where ? where : "");
			line = "{\"o\":\""; line += op; line += '"';
			if (where) { line += ",\"w\":\""; line += where; line += '"'; }
			line += ",\"a\":[";
		}
		template <class T> Ev &arg(const T &v) { sep(); put_any(v); return *this; }
		template <class T, sz N> Ev &arr(const std::array<T, N> &v) { sep(); put_value(v.data(), N, 'A'); return *this; }
		template <class T, sz N> Ev &arr(const std::array<T, N> &v, char k) { sep(); put_value(v.data(), N, k); return *this; }
		void sep() { if (!first) line += ','; first = false; }
		template <class T> Ev &res(const T &v) { line += "],\"r\":"; put_any(v); first = true; return *this; }
		Ev &results() { line += "],\"r\":["; first = true; return *this; }		// several results follow, as args
		Ev &endresults() { line += ']'; return *this; }
		Ev &fld(const char *k, long long v) { line += ",\""; line += k; line += "\":"; num(v); return *this; }
		Ev &str(const char *k, const char *v) { line += ",\""; line += k; line += "\":\""; line += v; line += '"'; return *this; }
		// a list of scalars of one type (possibly not the type of the operands)
		template <class T> Ev &list(const char *k, const T *p, sz n) { line += ",\""; line += k; line += "\":["; for (sz i = 0; i < n; ++i) { if (i) line += ','; put(p[i]); } line += ']'; return *this; }
		template <class T> Ev &out(const char *k, const T &v) { line += ",\""; line += k; line += "\":"; put_any(v); return *this; }
		void done() { line += "}\n"; buf += line; ++lines; if (buf.size() > (1u << 20)) flush(); }
	};

	// ---------------------------------------------------------------- randomness (deterministic from the seed)
	inline std::uint64_t rs = 1;
	inline void seed(std::uint64_t s) { rs = s * 0x9E3779B97F4A7C15ull + 0x1234567; }
	inline std::uint64_t rnd() { rs += 0x9E3779B97F4A7C15ull; std::uint64_t z = rs; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	inline unsigned below(unsigned n) { return unsigned((rnd() >> 33) % n); }

	template <class T> T rand_val()
	{
		if constexpr (std::is_same_v<T, bool>) return rnd() >> 63;
		else if constexpr (std::is_integral_v<T>)
		{
			switch (below(6))
			{
				case 0: { static const T sp[] = { T(0), T(1), T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(2), T(-2), T(std::numeric_limits<T>::max() / 2 + 1) }; return sp[below(8)]; }
				case 1: case 2: return T(static_cast<long long>(below(41)) - 20);
				default: { T v = T(rnd() >> below(sizeof(T) * 8 - 1)); return v; }		// any bit length
			}
		}
		else
		{
			using L = std::numeric_limits<T>;
			constexpr bool f = sizeof(T) == 4;
			switch (below(8))
			{
				case 0: { static const T sp[] = { T(0), -T(0), T(1), -T(1), L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), -L::max(), L::min(), L::denorm_min(), -L::denorm_min(), L::epsilon(), T(1) + L::epsilon(), T(0.5), T(0.1) }; return sp[below(16)]; }
				case 1: return T(static_cast<int>(below(41)) - 20);
				case 2: return T(static_cast<int>(below(4001)) - 2000) / T(8);
				case 3: return from_bits<T>(rnd());
				case 4: { // subnormals and neighbours
					unsigned long long b = rnd() & (f ? 0x80ffffffull : 0x801fffffffffffffull); return from_bits<T>(b); }
				default: { // moderate exponents, full mantissa
					unsigned long long r = rnd();
					if constexpr (f) return from_bits<T>((r & 0x807fffffull) | (std::uint64_t(127 - 12 + below(25)) << 23));
					else return from_bits<T>((r & 0x800fffffffffffffull) | (std::uint64_t(1023 - 20 + below(41)) << 52)); }
			}
		}
	}
	template <class T> T small_val() { if constexpr (std::is_same_v<T, bool>) return rnd() >> 63; else if constexpr (std::is_unsigned_v<T>) return T(below(20)); else return T(static_cast<int>(below(41)) - 20); }
	template <class T, sz N> std::array<T, N> rand_arr() { std::array<T, N> a{}; for (auto &x : a) x = rand_val<T>(); return a; }
	template <class T, sz N> std::array<T, N> small_arr() { std::array<T, N> a{}; for (auto &x : a) x = small_val<T>(); return a; }

	// ---------------------------------------------------------------- keeping undefined behaviour out of the inputs
	template <class To, class From> bool castable(From v)
	{
		if constexpr (std::is_integral_v<To> && !std::is_same_v<To, bool> && std::is_floating_point_v<From>)
		{
			if (!(v == v)) return false;
			long double x = v;
			return std::trunc(x) >= (long double)(std::numeric_limits<To>::min()) && std::trunc(x) <= (long double)(std::numeric_limits<To>::max());
		}
		else return true;
	}
	template <class X, class Y> bool defined_op(char op, X a, Y b)
	{
		using T = std::common_type_t<X, Y>;
		if constexpr (std::is_integral_v<T>)
		{
			T x = T(a), y = T(b), r;
			switch (op)
			{
				case '+': return !std::is_signed_v<T> || !__builtin_add_overflow(x, y, &r);
				case '-': return !std::is_signed_v<T> || !__builtin_sub_overflow(x, y, &r);
				case '*': return !std::is_signed_v<T> || !__builtin_mul_overflow(x, y, &r);
				case '/': case '%': return y != 0 && !(std::is_signed_v<T> && x == std::numeric_limits<T>::min() && y == T(-1));
				default: return true;
			}
		}
		else return true;
	}

	template <class... Ts> struct List {};
	template <class T> struct Type { using type = T; };

	// ---------------------------------------------------------------- the kinds of vector
	// 0 owning, 1 const owning, 2 swizzle of an owning vector, 3 view at an offset, 4 const view,
	// 5 swizzle of a view, 6 view_vector, 7 swizzle of a const owning vector
	constexpr int KINDS = 8;
	template <class T> T filler(sz i) { if constexpr (std::is_same_v<T, bool>) return i & 1; else return T(77 + i); }

	template <int K, class T, sz N> struct Op
	{
		static constexpr sz pos(sz i)			// where component i lives in the backing store
		{
			if constexpr (K == 2 || K == 5 || K == 7)
			{
				constexpr sz p[4][4] = { { 3, 0, 0, 0 }, { 3, 1, 0, 0 }, { 2, 0, 3, 0 }, { 1, 0, 3, 2 } };
				return (K == 5 ? 1 : 0) + p[N - 1][i];
			}
			else if constexpr (K == 3 || K == 4) return 2 + i;
			else return i;
		}
		// only the kinds asked for are instantiated: views and swizzles are costly to compile
		static auto object_type()
		{
			if constexpr (K == 0 || K == 1) return Type<dsga::basic_vector<T, N>>{};
			else if constexpr (K == 2 || K == 7) return Type<dsga::basic_vector<T, 4>>{};
			else if constexpr (K == 3) return Type<dsga::basic_view<true, T, N>>{};
			else if constexpr (K == 4) return Type<dsga::basic_view<false, T, N>>{};
			else if constexpr (K == 5) return Type<dsga::basic_view<true, T, 4>>{};
			else return Type<dsga::view_vector<T, N>>{};
		}
		using Obj = typename decltype(object_type())::type;
		static Obj make(T *m) { if constexpr (K == 3 || K == 4) return Obj(m + 2); else if constexpr (K == 5) return Obj(m + 1); else { (void)m; return Obj(); } }
		T mem[8];
		T before[8];
		Obj obj;
		explicit Op(const std::array<T, N> &in) : obj(make(mem))
		{
			for (sz i = 0; i < 8; ++i) mem[i] = filler<T>(i);
			for (sz i = 0; i < N; ++i) mem[pos(i)] = in[i];
			if constexpr (K == 0 || K == 1 || K == 6) for (sz i = 0; i < N; ++i) obj[i] = in[i];
			if constexpr (K == 2 || K == 7) for (sz i = 0; i < 4; ++i) obj[i] = mem[i];
			std::memcpy(before, mem, sizeof mem);
		}
		Op(const Op &) = delete;
		template <class V> static decltype(auto) pick(V &v)
		{
			if constexpr (N == 1) return (v.w);
			else if constexpr (N == 2) return (v.wy);
			else if constexpr (N == 3) return (v.zxw);
			else return (v.yxwz);
		}
		decltype(auto) ref()
		{
			if constexpr (K == 0 || K == 3 || K == 6) return (obj);
			else if constexpr (K == 1 || K == 4) return std::as_const(obj);
			else if constexpr (K == 2 || K == 5) return pick(obj);
			else return pick(std::as_const(obj));
		}
		bool others_unchanged() const		// nothing but the components of this operand moved
		{
			bool mine[8] = {};
			for (sz i = 0; i < N; ++i) mine[pos(i)] = true;
			for (sz i = 0; i < 8; ++i) if (!mine[i] && !same_bits(mem[i], before[i])) return false;
			if constexpr (K == 2 || K == 7) for (sz i = 0; i < 4; ++i) if (!mine[i] && !same_bits(T(obj[i]), before[i])) return false;
			return true;
		}
		bool unchanged() const		// nothing in the backing store moved
		{
			for (sz i = 0; i < 8; ++i) if (!same_bits(mem[i], before[i])) return false;
			if constexpr (K == 0 || K == 1 || K == 6) for (sz i = 0; i < N; ++i) if (!same_bits(T(obj[i]), before[i])) return false;
			if constexpr (K == 2 || K == 7) for (sz i = 0; i < 4; ++i) if (!same_bits(T(obj[i]), before[i])) return false;
			return true;
		}
	};
	// a plain scalar operand, kind -1
	template <class T> struct Op<-1, T, 1>
	{
		T v; T b;
		explicit Op(const std::array<T, 1> &in) : v(in[0]), b(in[0]) {}
		T &ref() { return v; }
		bool unchanged() const { return same_bits(v, b); }
	};

	template <sz I, class... Ts> auto nth_f(List<Ts...>) { return std::get<I>(std::tuple<Type<Ts>...>{}); }
	template <sz I, class L> using nth = typename decltype(nth_f<I>(L{}))::type;
	template <class F, class... Ts> void each(List<Ts...>, F &&f) { (f(Type<Ts>{}), ...); }
	template <sz... Is, class F> void each_index(std::index_sequence<Is...>, F &&f) { (f(std::integral_constant<sz, Is>{}), ...); }
	template <sz N, class F> void upto(F &&f) { each_index(std::make_index_sequence<N>{}, f); }

	inline unsigned env_u(const char *n, unsigned d) { const char *s = std::getenv(n); return s ? unsigned(std::strtoul(s, nullptr, 10)) : d; }
}
