// C29: calls inside and outside their contract, with assertions on.  Every call is made in a child process:
// either it finishes and writes its event, or the parent records that it was stopped.
#undef NDEBUG
#include "trace.hpp"
#include <climits>
#include <csignal>
#include <unistd.h>
#include <vector>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
using namespace tr;

#ifndef SHARD
#define SHARD 0
#endif
using T = nth<SHARD, List<float, int, double, unsigned long long, bool>>;
constexpr bool isfl = std::is_floating_point_v<T>;
static unsigned rounds = 1;

template <class F> void guarded(Ev &ev, F &&f)
{
	ev.first = true; line += ']';
	flush();
	std::fflush(stdout);
	const pid_t pid = ::fork();
	if (pid == 0)
	{
		for (int s : { SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGTRAP }) std::signal(s, SIG_DFL);
		::alarm(20);
		const rlimit none{ 0, 0 }; ::setrlimit(RLIMIT_CORE, &none);
		const int quiet = ::open("/dev/null", O_WRONLY); if (quiet >= 0) ::dup2(quiet, 2);
		try { line += ",\"st\":\"done\""; f(ev); } catch (...) { ::_exit(7); }
		line += "}\n"; write_all(line.data(), line.size());
		::_exit(0);
	}
	int status = 0;
	if (pid < 0 || ::waitpid(pid, &status, 0) != pid) std::_Exit(3);
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return;
	const bool stopped = WIFSIGNALED(status) && (WTERMSIG(status) == SIGABRT || WTERMSIG(status) == SIGILL || WTERMSIG(status) == SIGTRAP);
	line += stopped ? ",\"st\":\"stop\"}\n" : WIFEXITED(status) && WEXITSTATUS(status) == 7 ? ",\"st\":\"throw\"}\n" : ",\"st\":\"crash\"}\n";
	write_all(line.data(), line.size());
}
#define GO guarded(ev, [&](Ev &ev)
// {"o":..,"w":..,"a":[operands],"st":how it ended,...}

template <sz N> std::array<T, N> some()
{
	std::array<T, N> a{};
	for (auto &x : a) x = std::is_same_v<T, bool> ? T(below(2)) : T(1 + below(100));
	return a;
}
template <class V> void scalar(Ev &ev, const V &v) { T x = v; ev.out("r", x); }

// ---------------------------------------------------------------- indexes
template <class I> std::vector<I> indexes()
{
	using L = std::numeric_limits<I>;
	std::vector<I> r;
	if constexpr (std::is_same_v<I, bool>) r = { false, true };
	else if constexpr (std::is_floating_point_v<I>) r = { I(-1), I(-0.5), -L::denorm_min(), I(-0.0), I(0), L::denorm_min(), I(0.99), I(1), I(1.5), I(2), I(2.75), I(3), I(3.99), I(4), I(5), I(1e9) };
	else
	{
		r = { I(0), I(1), I(2), I(3), I(4), I(5), I(-1), I(-2), I(-4), L::max(), L::min(), I(L::max() - 1), I(L::max() / 2 + 1) };
		if constexpr (sizeof(I) == 8) { r.push_back(I(1) << 32); r.push_back((I(1) << 32) + 1); r.push_back((I(1) << 31) + 2); r.push_back((I(1) << 33) + 3); }
		if constexpr (sizeof(I) == 8 && std::is_signed_v<I>) { r.push_back(-(I(1) << 32)); r.push_back(1 - (I(1) << 32)); }
	}
	return r;
}
template <sz N, int K, class I> void index()
{
	for (I i : indexes<I>())
	{
		auto a = some<N>();
		Op<K, T, N> p(a);
		auto &&x = p.ref();
		{ Ev ev("index", "read"); ev.arr(a, char('0' + 1 + K)).arg(i); GO { scalar(ev, x[i]); ev.fld("u", p.unchanged()); }); }
		{ Ev ev("index", "const"); ev.arr(a, char('0' + 1 + K)).arg(i); GO { scalar(ev, std::as_const(x)[i]); ev.fld("u", p.unchanged()); }); }
		if constexpr (K == 0 || K == 2 || K == 3 || K == 5 || K == 6)
		{
			Ev ev("index", "write"); const T b = std::is_same_v<T, bool> ? T(!a[0]) : T(101 + below(20));
			ev.arr(a, char('0' + 1 + K)).arg(i).arg(b);
			GO { x[i] = b; std::array<T, N> now{}; for (sz k = 0; k < N; ++k) now[k] = x[k]; line += ",\"r\":"; put_value(now.data(), N, 'A'); ev.fld("u", p.others_unchanged()); });
		}
	}
}
template <class W, sz N, class I> void wrapper_index()
{
	for (I i : indexes<I>())
	{
		auto a = some<N>();
		T mem[8]; for (sz k = 0; k < 8; ++k) mem[k] = T(k < N ? a[k] : 1);
		auto make = [&] { if constexpr (std::is_constructible_v<W, const T *>) return W(static_cast<const T *>(mem)); else { W s{}; for (sz k = 0; k < N; ++k) s[k] = a[k]; return s; } };
		W x = make();
		{ Ev ev("index", "wrapper"); ev.arr(a).arg(i); GO { scalar(ev, x[i]); ev.fld("u", 1); }); }
		{ Ev ev("index", "const wrapper"); ev.arr(a).arg(i); GO { scalar(ev, std::as_const(x)[i]); ev.fld("u", 1); }); }
	}
}
template <sz C, sz R, class I> void matrix_index()
{
	if constexpr (isfl)
		for (I i : indexes<I>())
		{
			auto a = some<C * R>();
			dsga::basic_matrix<T, C, R> m; for (sz k = 0; k < C * R; ++k) m[k / R][k % R] = a[k];
			{ Ev ev("column"); ev.arg(m).arg(i); GO { line += ",\"r\":"; put_any(m[i]); }); }
			{ Ev ev("column", "const"); ev.arg(m).arg(i); GO { line += ",\"r\":"; put_any(std::as_const(m)[i]); }); }
			{ Ev ev("row"); ev.arg(m).arg(i); GO { line += ",\"r\":"; put_any(m.row(i)); }); }
			{ Ev ev("element", "column"); ev.arg(m).arg(i); const sz r = below(R); GO { ev.fld("row", (long long)r); T x = m[i][r]; ev.out("r", x); }); }
			{ Ev ev("element", "row"); ev.arg(m).arg(i); const sz c = below(C); GO { ev.fld("col", (long long)c); T x = m[c][i]; ev.out("r", x); }); }
		}
}

// ---------------------------------------------------------------- swizzle iterators: a position in 0..N, and one step
template <sz N, int K> void iterators()
{
	std::array<T, N> a{};
	for (sz k = 0; k < N; ++k) a[k] = std::is_same_v<T, bool> ? T(k & 1) : T(k + 1);
	Op<K, T, N> p(a), other(a);
	auto &&x = p.ref(); auto &&y = other.ref();
	auto walk = [&](auto b, auto e, auto foreign, const char *kind)
	{
		for (int pos = 0; pos <= int(N); ++pos)
		{
			auto at = [&] { return b + pos; };
			auto step = [&](const char *op, int k, auto act) { Ev ev("step", op); ev.arr(a); line += "]"; ev.fld("p", pos).fld("k", k).str("kind", kind); line += ",\"x\":["; GO { auto i = at(); act(ev, i, k); }); };
			auto moved = [&](auto act) { return [&, act](Ev &ev, auto &i, int k) { act(i, k); ev.fld("r", i - b).fld("left", e - i); }; };
			step("++", 1, moved([](auto &i, int) { ++i; })); step("_++", 1, [&](Ev &ev, auto &i, int) { auto was = i++; ev.fld("r", i - b).fld("left", e - i).fld("was", was - b); });
			step("--", 1, moved([](auto &i, int) { --i; })); step("_--", 1, [&](Ev &ev, auto &i, int) { auto was = i--; ev.fld("r", i - b).fld("left", e - i).fld("was", was - b); });
			step("*", 0, [](Ev &ev, auto &i, int) { scalar(ev, *i); });
			step("->", 0, [](Ev &ev, auto &i, int) { scalar(ev, *i.operator->()); });
			static const int far[] = { INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 20 };
			for (int j = -7; j <= 11; ++j)
			{
				const int k = j <= 6 ? j : far[j - 7];
				step("+=", k, moved([](auto &i, int k) { i += k; })); step("-=", k, moved([](auto &i, int k) { i -= k; }));
				step("+", k, [&](Ev &ev, auto &i, int k) { auto n = i + k; ev.fld("r", n - b).fld("left", e - n).fld("was", i - b); });
				step("k+", k, [&](Ev &ev, auto &i, int k) { auto n = k + i; ev.fld("r", n - b).fld("left", e - n).fld("was", i - b); });
				step("-", k, [&](Ev &ev, auto &i, int k) { auto n = i - k; ev.fld("r", n - b).fld("left", e - n).fld("was", i - b); });
				step("[]", k, [](Ev &ev, auto &i, int k) { scalar(ev, i[k]); });
			}
			auto against = [&](const char *op, auto act) { for (int own = 0; own < 2; ++own) for (int q = 0; q <= int(N); q += 1) { Ev ev("against", op); ev.arr(a); line += "]"; ev.fld("p", pos).fld("q", q).fld("own", own).str("kind", kind); line += ",\"x\":["; GO { auto i = at(); auto j = (own ? b : foreign) + q; ev.fld("r", act(i, j)); }); } };
			against("-", [](auto &i, auto &j) { return i - j; });
			against("==", [](auto &i, auto &j) { return i == j; }); against("!=", [](auto &i, auto &j) { return i != j; });
			against("<", [](auto &i, auto &j) { return i < j; }); against("<=", [](auto &i, auto &j) { return i <= j; });
			against(">", [](auto &i, auto &j) { return i > j; }); against(">=", [](auto &i, auto &j) { return i >= j; });
		}
	};
	walk(x.begin(), x.end(), y.begin(), "plain");
	walk(x.cbegin(), x.cend(), y.cbegin(), "const");
	{
		using It = decltype(x.begin()); using Ci = decltype(x.cbegin());
		{ Ev ev("nothing", "*"); GO { It i{}; scalar(ev, *i); }); }
		{ Ev ev("nothing", "const *"); GO { Ci i{}; scalar(ev, *i); }); }
		{ Ev ev("nothing", "[]"); GO { Ci i{}; scalar(ev, i[0]); }); }
		{ Ev ev("nothing", "->"); GO { Ci i{}; scalar(ev, *i.operator->()); }); }
	}
}

// ---------------------------------------------------------------- views of nothing
template <sz N> void nothing()
{
	T mem[8]; for (auto &q : mem) q = T(1);
	using V = dsga::basic_view<true, T, N>; using C = dsga::basic_view<false, T, N>; using W = dsga::view_wrapper<true, T, N>; using X = dsga::view_wrapper<false, T, N>;
	const dsga::basic_vector<T, N> full(T(1)); const std::array<T, N> arr = [] { std::array<T, N> a{}; a.fill(T(1)); return a; }();
	auto on = [&](const char *kind, auto make)
	{
		for (int null = 0; null < 2; ++null)
		{
			auto call = [&](const char *op, int needs, auto act) { Ev ev("null", op); line += "]"; ev.fld("null", null).fld("needs", needs).str("kind", kind); line += ",\"x\":["; GO { auto v = make(null ? nullptr : mem); act(v); (void)ev; }); };
			using Obj = decltype(make(mem));
			constexpr bool swz = requires(Obj &v) { v.base.base; };
			call("size", 0, [](auto &v) { if (v.size() != sz(v.length())) ::_exit(8); });
			call("copy", 0, [](auto &v) { auto w = v; (void)w; });
			call("sequence", 0, [](auto &v) { (void)v.sequence(); });
			for (sz k = 0; k < N; ++k) { call("[]", 1, [&](auto &v) { volatile T t = v[k]; (void)t; }); call("const []", 1, [&](auto &v) { volatile T t = std::as_const(v)[k]; (void)t; }); }
			call("data", 1, [](auto &v) { volatile bool b = v.data() != nullptr; (void)b; });
			call("const data", 1, [](auto &v) { volatile bool b = std::as_const(v).data() != nullptr; (void)b; });
			call("begin", 1, [](auto &v) { volatile T t = *v.begin(); (void)t; });
			call("cbegin", 1, [](auto &v) { volatile T t = *v.cbegin(); (void)t; });
			call("rbegin", 1, [](auto &v) { volatile T t = *v.rbegin(); (void)t; });
			call("crbegin", 1, [](auto &v) { volatile T t = *v.crbegin(); (void)t; });
			call("range for", 1, [](auto &v) { for (T t : v) { volatile T u = t; (void)u; } });
			if constexpr (requires(Obj &v) { v.begin() == static_cast<T *>(nullptr); })
			{
				call("begin()", 1, [](auto &v) { volatile bool b = v.begin() == nullptr; (void)b; }); call("end()", 1, [](auto &v) { volatile bool b = v.end() == nullptr; (void)b; });
				call("cbegin()", 1, [](auto &v) { volatile bool b = v.cbegin() == nullptr; (void)b; }); call("cend()", 1, [](auto &v) { volatile bool b = v.cend() == nullptr; (void)b; });
			}
			if constexpr (requires(Obj &v) { v.set(T(1)); }) call("set", 1, [](auto &v) { v.set(T(1)); });
			if constexpr (requires(Obj &v) { v.set(T(1), T(1)); }) call("set", 1, [](auto &v) { v.set(T(1), T(1)); });
			if constexpr (requires(Obj &v) { v.set(T(1), T(1), T(1)); }) call("set", 1, [](auto &v) { v.set(T(1), T(1), T(1)); });
			if constexpr (requires(Obj &v) { v.set(T(1), T(1), T(1), T(1)); }) call("set", 1, [](auto &v) { v.set(T(1), T(1), T(1), T(1)); });
			if constexpr (requires(Obj &v) { v[0] = T(1); }) call("[] =", 1, [](auto &v) { v[0] = T(1); });
			if constexpr (requires(Obj &v) { v = full; } && !std::is_same_v<Obj, W>) { call("= vector", 1, [&](auto &v) { v = full; }); call("= vector, temporary", 1, [&](auto &v) { std::move(v) = full; }); }
			if constexpr (requires(Obj &v) { v += full; } && !std::is_same_v<T, bool>) { call("+=", 1, [&](auto &v) { v += full; }); call("++", 1, [&](auto &v) { ++v; }); call("+", 1, [&](auto &v) { auto s = v + full; (void)s; }); call("-", 1, [&](auto &v) { auto s = -v; (void)s; }); }
			if constexpr (requires(Obj &v) { v == full; }) { call("==", 1, [&](auto &v) { volatile bool b = static_cast<bool>(v == full); (void)b; }); call("to vector", 1, [&](auto &v) { dsga::basic_vector<T, N> w(v); volatile T t = w[0]; (void)t; }); }
			if constexpr (requires(Obj &v) { dsga::to_array(v); }) call("to_array", 1, [](auto &v) { auto w = dsga::to_array(v); volatile T t = w[0]; (void)t; });
			if constexpr (requires(Obj &v) { v.apply([](T t) { return t; }); }) call("apply", 1, [](auto &v) { auto w = v.apply([](T t) { return t; }); volatile T t = w[0]; (void)t; });
			if constexpr (N == 1 && requires(Obj &v) { static_cast<T>(v); }) { call("to scalar", 1, [](auto &v) { volatile T t = v; (void)t; }); call("to other scalar", 1, [](auto &v) { volatile double t = static_cast<double>(v); (void)t; }); if constexpr (requires(Obj &v) { v = T(1); }) { call("= scalar", 1, [](auto &v) { v = T(1); }); call("= scalar, temporary", 1, [](auto &v) { std::move(v) = T(1); }); } }
			if constexpr (requires(Obj &v) { v.reset(mem); })
			{
				call("reset", 0, [&](auto &v) { v.reset(mem); volatile T t = v[0]; (void)t; });
				{ Ev ev("null", "reset away"); line += "]"; ev.fld("null", 1).fld("needs", 1).str("kind", kind); line += ",\"x\":["; GO { auto v = make(null ? nullptr : mem); v.reset(static_cast<T *>(nullptr)); volatile T t = v[0]; (void)t; (void)ev; }); }
			}
			if constexpr (requires(Obj &v) { v.swap(v); } && std::is_assignable_v<decltype(std::declval<Obj &>()[0]), T>) { call("swap this", 1, [&](auto &v) { auto w = make(mem + 4); v.swap(w); }); call("swap other", 1, [&](auto &v) { auto w = make(mem + 4); w.swap(v); }); call("free swap", 1, [&](auto &v) { auto w = make(mem + 4); using std::swap; swap(w, v); }); }
			(void)swz;
		}
	};
	on("view", [](T *m) { return V(m); });
	on("const view", [](T *m) { return C(m); });
	on("wrapper", [](T *m) { return W(m); });
	on("const wrapper", [](T *m) { return X(m); });
	{
		// swizzles of views stay members of the view, so the view is made and the calls are made on references
		auto swizzled = [&](auto which, const char *kind, auto pick)
		{
			using View = typename decltype(which)::type;
			for (int null = 0; null < 2; ++null)
			{
				auto call = [&](const char *op, int needs, auto act) { Ev ev("null", op); line += "]"; ev.fld("null", null).fld("needs", needs).str("kind", kind); line += ",\"x\":["; GO { View v(null ? nullptr : mem); auto &&s = pick(v); act(s); (void)ev; }); };
				using Sw = std::remove_reference_t<decltype(pick(std::declval<View &>()))>;
				call("size", 0, [](auto &s) { if (s.size() != sz(s.length())) ::_exit(8); });
				call("[]", 1, [](auto &s) { volatile T t = s[0]; (void)t; }); call("const []", 1, [](auto &s) { volatile T t = std::as_const(s)[0]; (void)t; });
				call("data", 1, [](auto &s) { volatile bool b = s.data() != nullptr; (void)b; }); call("const data", 1, [](auto &s) { volatile bool b = std::as_const(s).data() != nullptr; (void)b; });
				call("begin", 1, [](auto &s) { volatile T t = *s.begin(); (void)t; }); call("cbegin", 1, [](auto &s) { volatile T t = *s.cbegin(); (void)t; }); call("rbegin", 1, [](auto &s) { volatile T t = *s.rbegin(); (void)t; });
				call("copy", 1, [](auto &s) { dsga::basic_vector<T, Sw::size()> w(s); volatile T t = w[0]; (void)t; });
				if constexpr (requires(Sw &s) { s.set(T(1)); }) call("set", 1, [](auto &s) { s.set(T(1)); });
				if constexpr (requires(Sw &s) { s.set(T(1), T(1)); }) call("set", 1, [](auto &s) { s.set(T(1), T(1)); });
				if constexpr (requires(Sw &s) { s[0] = T(1); }) call("[] =", 1, [](auto &s) { s[0] = T(1); });
				if constexpr (Sw::size() == 1)
				{
					call("to scalar", 1, [](auto &s) { volatile T t = s; (void)t; }); call("to other scalar", 1, [](auto &s) { volatile double t = static_cast<double>(s); (void)t; });
					if constexpr (!std::is_same_v<T, bool> && requires(Sw &s) { s = T(1); }) { call("= scalar", 1, [](auto &s) { s = T(1); }); call("= scalar, temporary", 1, [](auto &s) { std::move(s) = T(1); }); }
				}
				if constexpr (!std::is_same_v<T, bool> && requires(Sw &s, dsga::basic_vector<T, Sw::size()> w) { s = w; }) { call("= vector", 1, [](auto &s) { s = dsga::basic_vector<T, Sw::size()>(T(1)); }); call("= vector, temporary", 1, [](auto &s) { std::move(s) = dsga::basic_vector<T, Sw::size()>(T(1)); }); }
			}
		};
		auto both_views = [&](const char *a, const char *b, auto pick) { swizzled(std::type_identity<V>{}, a, pick); swizzled(std::type_identity<C>{}, b, pick); };
		both_views("x", "const x", [](auto &v) -> decltype(auto) { return (v.x); });
		both_views("xx", "const xx", [](auto &v) -> decltype(auto) { return (v.xx); });
		if constexpr (N >= 2) both_views("yx", "const yx", [](auto &v) -> decltype(auto) { return (v.yx); });
		if constexpr (N >= 3) both_views("zxy", "const zxy", [](auto &v) -> decltype(auto) { return (v.zxy); });
	}
}

// ---------------------------------------------------------------- functions with undefined arguments
template <sz N, int K, int L, int M> void functions_()
{
	auto small = [](int lo, int hi) { return T(lo + int(below(unsigned(hi - lo + 1)))); };
	for (unsigned k = 0; k < rounds * 6; ++k)
	{
		std::array<T, N> a{}, b{}, c{};
		for (auto &x : a) x = small(0, 9);
		for (sz i = 0; i < N; ++i) { b[i] = below(3 * N) ? small(0, 5) : small(3, 9); c[i] = T(b[i] + small(0, 3)); if (!below(3 * N)) std::swap(b[i], c[i]); }
		if (k % 5 == 4) c = b;
		Op<K, T, N> p(a); Op<L, T, N> q(b); Op<M, T, N> r(c);
		auto &&x = p.ref(); auto &&y = q.ref(); auto &&z = r.ref();
		if constexpr (!std::is_same_v<T, bool>)
		{
			{ Ev ev("clamp", "vvv"); ev.arr(a).arr(b).arr(c); GO { (void)dsga::clamp(x, y, z); (void)ev; }); }
			{ Ev ev("clamp", "vss"); ev.arr(a).arg(b[0]).arg(c[0]); GO { (void)dsga::clamp(x, b[0], c[0]); (void)ev; }); }
			{ Ev ev("clamp", "sss"); ev.arg(a[0]).arg(b[0]).arg(c[0]); GO { (void)dsga::clamp(a[0], b[0], c[0]); (void)ev; }); }
		}
		if constexpr (isfl)
		{
			{ Ev ev("smoothstep", "vvv"); ev.arr(b).arr(c).arr(a); GO { (void)dsga::smoothstep(y, z, x); (void)ev; }); }
			{ Ev ev("smoothstep", "ssv"); ev.arg(b[0]).arg(c[0]).arr(a); GO { (void)dsga::smoothstep(b[0], c[0], x); (void)ev; }); }
			{ Ev ev("smoothstep", "sss"); ev.arg(b[0]).arg(c[0]).arg(a[0]); GO { (void)dsga::smoothstep(b[0], c[0], a[0]); (void)ev; }); }
			for (sz i = 0; i < N; ++i) { b[i] = below(2 * N) ? T(1 + below(4)) : below(2) ? T(0) : -T(below(3)); c[i] = below(2 * N) ? T(1 + below(3)) : T(1) - T(below(3)); }
			if (k % 4 == 0) { b.fill(T(0)); c.fill(T(2)); if (k % 8) c[below(N)] = T(0); else b[below(N)] = -std::numeric_limits<T>::denorm_min(); }
			Op<K, T, N> d(b); Op<L, T, N> e(c); auto &&u = d.ref(); auto &&v = e.ref();
			{ Ev ev("pow", "vv"); ev.arr(b).arr(c); GO { (void)dsga::pow(u, v); (void)ev; }); }
			{ Ev ev("pow", "ss"); ev.arg(b[0]).arg(c[0]); GO { (void)dsga::pow(b[0], c[0]); (void)ev; }); }
		}
		else if constexpr (!std::is_same_v<T, bool>)
		{
			for (sz i = 0; i < N; ++i) c[i] = below(2 * N) ? T(1 + below(9)) : T(0);
			Op<L, T, N> e(c); auto &&v = e.ref();
			{ Ev ev("%", "vv"); ev.arr(a).arr(c); GO { (void)(x % v); (void)ev; }); }
			{ Ev ev("%", "vs"); ev.arr(a).arg(c[0]); GO { (void)(x % c[0]); (void)ev; }); }
			{ Ev ev("%", "sv"); ev.arg(a[0]).arr(c); GO { (void)(a[0] % v); (void)ev; }); }
			{ Ev ev("%=", "vv"); ev.arr(a).arr(c); GO { dsga::basic_vector<T, N> w(x); w %= v; (void)ev; }); }
			{ Ev ev("%=", "vs"); ev.arr(a).arg(c[0]); GO { dsga::basic_vector<T, N> w(x); w %= c[0]; (void)ev; }); }

		}
		{
			int i[4]; for (auto &n : i) n = below(9) ? int(below(N)) : below(2) ? int(N) : below(2) ? -1 : int(N + 1);
			{ Ev ev("swizzle"); ev.arr(a); line += "]"; ev.list("i", i, 1); line += ",\"x\":["; GO { (void)dsga::swizzle(x, i[0]); (void)ev; }); }
			{ Ev ev("swizzle"); ev.arr(a); line += "]"; ev.list("i", i, 2); line += ",\"x\":["; GO { (void)dsga::swizzle(x, i[0], i[1]); (void)ev; }); }
			{ Ev ev("swizzle"); ev.arr(a); line += "]"; ev.list("i", i, 3); line += ",\"x\":["; GO { (void)dsga::swizzle(x, i[0], i[1], i[2]); (void)ev; }); }
			{ Ev ev("swizzle"); ev.arr(a); line += "]"; ev.list("i", i, 4); line += ",\"x\":["; GO { (void)dsga::swizzle(x, i[0], i[1], i[2], i[3]); (void)ev; }); }
		}
	}
}

// ---------------------------------------------------------------- constant expressions: outside the contract there is none
template <class F> concept Constant = requires { typename std::bool_constant<(F{}(), true)>; };
template <class F> void constant(const char *op, std::initializer_list<long long> args)
{
	Ev ev("constant", op); line += "]"; (void)0;
	line += ",\"args\":["; bool first = true; for (long long x : args) { if (!first) line += ','; first = false; num(x); } line += ']';
	ev.fld("is", Constant<F>).done();
}
template <sz N, int I> struct IxV { constexpr int operator()() const { dsga::basic_vector<T, N> v{}; (void)v[I]; return 0; } };
template <sz N, int I> struct IxC { constexpr int operator()() const { const dsga::basic_vector<T, N> v{}; (void)v[I]; return 0; } };
template <sz N, int I> struct IxW { constexpr int operator()() const { T m[4]{}; dsga::basic_view<true, T, N> v(m); (void)v[I]; return 0; } };
template <sz N, int I> struct IxN { constexpr int operator()() const { dsga::basic_view<true, T, N> v(nullptr); (void)v[I]; return 0; } };
template <sz N, int P, int Q> struct ItA { constexpr int operator()() const { dsga::indexed_vector<true, T, 4, 3, 2, 0, 1> v{}; auto i = v.begin(); i += P; i += Q; return 0; } };
template <sz N, int P> struct ItD { constexpr int operator()() const { dsga::indexed_vector<true, T, 4, 4, 3, 0, 1, 2> v{}; auto i = v.begin() + P; (void)*i; return 0; } };
template <sz C, sz R, int I> struct IxM { constexpr int operator()() const { dsga::basic_matrix<T, C, R> m{}; (void)m[I]; return 0; } };
template <sz C, sz R, int I> struct IxR { constexpr int operator()() const { dsga::basic_matrix<T, C, R> m{}; (void)m.row(I); return 0; } };
template <sz N, int A, int B> struct ClA { constexpr int operator()() const { (void)dsga::clamp(dsga::basic_vector<T, N>(T(1)), T(A), T(B)); return 0; } };
template <sz N, int A, int B> struct SmA { constexpr int operator()() const { (void)dsga::smoothstep(dsga::basic_vector<T, N>(T(A)), dsga::basic_vector<T, N>(T(B)), dsga::basic_vector<T, N>(T(1))); return 0; } };
template <sz N, int A, int B> struct MoA { constexpr int operator()() const { (void)(dsga::basic_vector<T, N>(T(A)) % dsga::basic_vector<T, N>(T(B))); return 0; } };
void constants()
{
	upto<4>([](auto nn) {
		constexpr sz N = decltype(nn)::value + 1;
		upto<8>([&](auto ii) {
			constexpr int I = int(decltype(ii)::value) - 2;
			constant<IxV<N, I>>("index", { int(N), I }); constant<IxC<N, I>>("index", { int(N), I }); constant<IxW<N, I>>("index", { int(N), I }); constant<IxN<N, I>>("null", {});
			if constexpr (isfl && N > 1) { upto<3>([&](auto rr) { constexpr sz R = decltype(rr)::value + 2; constant<IxM<N, R, I>>("index", { int(N), I }); constant<IxR<R, N, I>>("index", { int(N), I }); }); }
			if constexpr (N == 4) { constant<ItD<N, I>>("index", { 4, I }); upto<8>([&](auto qq) { constexpr int Q = int(decltype(qq)::value) - 4; constant<ItA<N, I, Q>>("walk", { 3, I, Q }); }); }
		});
		if constexpr (!std::is_same_v<T, bool>) upto<3>([&](auto aa) { upto<3>([&](auto bb) {
			constexpr int A = int(decltype(aa)::value), B = int(decltype(bb)::value);
			constant<ClA<N, A, B>>("clamp", { A, B });
			if constexpr (isfl) constant<SmA<N, A, B>>("smoothstep", { A, B }); else constant<MoA<N, A, B>>("%", { A, B });
		}); });
	});
}

int main(int argc, char **argv)
{
	start(argc, argv);
	seed(env_u("VERIF_SEED", 1) * 100 + SHARD);
	rounds = env_u("ROUNDS", 2);
	using Indexes = List<int, unsigned, long long, unsigned long long, float, double, bool>;
	upto<4>([](auto nn) {
		constexpr sz N = decltype(nn)::value + 1;
		upto<8>([](auto kk) {
			constexpr int K = int(decltype(kk)::value);
			using A = nth<(K + N + SHARD) % 7, Indexes>; using B = nth<(K * 3 + N * 2 + SHARD + 3) % 7, Indexes>;
			index<N, K, int>(); if constexpr (!std::is_same_v<A, int>) index<N, K, A>(); if constexpr (!std::is_same_v<B, int> && !std::is_same_v<A, B>) index<N, K, B>();
		});
		each(Indexes{}, [&](auto tt) { using I = typename decltype(tt)::type;
			wrapper_index<dsga::storage_wrapper<true, T, N>, N, I>(); wrapper_index<dsga::view_wrapper<true, T, N>, N, I>(); wrapper_index<dsga::view_wrapper<false, T, N>, N, I>(); });
		iterators<N, 2>(); iterators<N, 5>(); if (rounds > 4) iterators<N, 7>();
		nothing<N>();
		functions_<N, 0, 2, 3>(); functions_<N, 6, 5, 1>(); functions_<N, 7, 4, 0>();
	});
	if constexpr (isfl) upto<3>([](auto cc) { upto<3>([](auto rr) {
		constexpr sz C = decltype(cc)::value + 2, R = decltype(rr)::value + 2;
		matrix_index<C, R, int>(); matrix_index<C, R, nth<(C * 3 + R + SHARD) % 7, Indexes>>();
	}); });
	constants();
	return finish();
}
