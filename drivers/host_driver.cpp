// Calls the types that compute in host floats (anyfloat_emu, float16n32, PositF) and records every call.
//   -DCFG_HEADER: #define CFGS A(index, anyfloat type) / H(index) / P(index, T, n, es, FFT, spec)
#include "emit.hpp"
#include "anyfloat.hpp"
#include "float16native32.hpp"
#ifndef WITH_B8            // the two do not go together in one source
#include "positf.h"
#endif
#include "gen.hpp"
#include <sstream>
#ifdef WITH_B8
#include "binary8.hpp"
#endif
#ifdef WITH_SOFT
#include "softfloat.hpp"
#include "exp2t.hpp"
#include "decimal.hpp"
#endif
#include CFG_HEADER

static Out out;
static size_t N = 1000;
static std::string ops = "all";
static Rng *G;

static bool want(const char *o)
{
	return ops == "all" || ("," + ops + ",").find("," + std::string(o) + ",") != std::string::npos;
}
static void head(const char *op, int c) { out.raw("{\"o\":\""); out.raw(op); out.raw("\",\"c\":"); out.i(c); }
static void key(const char *k) { out.raw(",\""); out.raw(k); out.raw("\":"); }
static void doing(const char *op, int c, long long a, long long b) { snprintf(g_doing, sizeof g_doing, "op=%s type=%d a=%lld b=%lld", op, c, a, b); }

static uint64_t shapebits(Rng &g, int k)
{
	if (k <= 0) return 0;
	uint64_t m = k >= 64 ? ~0ull : ((1ull << k) - 1);
	switch (g.below(9))
	{
	case 0: return 0;
	case 1: return m;
	case 2: return 1;
	case 3: return (1ull << g.below(k)) & m;
	case 4: return (m << g.below(k)) & m;
	case 5: return (m >> g.below(k)) & m;
	case 6: return m ^ (1ull << g.below(k));
	default: return g.next() & m;
	}
}
static uint64_t floatword(Rng &g, int eb, int fb)
{
	uint64_t em = (1ull << eb) - 1;
	uint64_t e;
	switch (g.below(8))
	{
	case 0: e = 0; break;
	case 1: e = g.below(4) ? em - g.below(3) : em; break;
	case 2: e = g.below((unsigned)em + 1); break;
	case 3: e = g.below(3); break;
	default: e = (em >> 1) + g.range(-4, 4); break;
	}
	return (uint64_t)(g.below(2)) << (eb + fb) | (e & em) << fb | shapebits(g, fb);
}
// ---- operands ----
struct FloatGen
{
	int eb, fb;
	std::vector<uint64_t> sp;
	FloatGen(int e, int f) : eb(e), fb(f)
	{
		uint64_t em = (1ull << eb) - 1, s = 1ull << (eb + fb);
		for (uint64_t x : std::vector<uint64_t>{0, 1, (1ull << fb) - 1, 1ull << fb, (em >> 1) << fb, ((em >> 1) << fb) + 1, ((em >> 1) + 1) << fb,
		                                        (em << fb) - 1, em << fb, (em << fb) | 1ull << (fb - 1), (em << fb) | 1})
		{
			sp.push_back(x);
			sp.push_back(x | s);
		}
	}
	uint64_t any(Rng &g) { return g.below(10) ? floatword(g, eb, fb) : sp[g.below(sp.size())]; }
	uint64_t partner(Rng &g, uint64_t a)
	{
		uint64_t m = eb + fb + 1 >= 64 ? ~0ull : (1ull << (eb + fb + 1)) - 1, s = 1ull << (eb + fb);
		switch (g.below(8))
		{
		case 0: return (a ^ s) & m;
		case 1: return ((a ^ s) + g.range(-2, 2)) & m;
		case 2: return (a + g.range(-2, 2)) & m;
		case 3: return (a ^ shapebits(g, fb)) & m;
		case 4: return ((a ^ s) + ((uint64_t)g.range(-2, 2) << fb)) & m;
		default: return any(g);
		}
	}
	std::vector<uint64_t> all(size_t n, Rng &g)
	{
		std::vector<uint64_t> r;
		int b = eb + fb + 1;
		if (b <= 16 && ((size_t)1 << b) <= n) { for (uint64_t x = 0; x < (1ull << b); x++) r.push_back(x); return r; }
		r = sp;
		for (const size_t want = std::max<size_t>(n, r.size() + n / 2); r.size() < want;) r.push_back(any(g));
		return r;
	}
	void pairs(size_t n, Rng &g, std::vector<uint64_t> &A, std::vector<uint64_t> &B)
	{
		int b = eb + fb + 1;
		if (b <= 8 && ((size_t)1 << (2 * b)) <= n)
		{
			for (uint64_t x = 0; x < (1ull << b); x++) for (uint64_t y = 0; y < (1ull << b); y++) { A.push_back(x); B.push_back(y); }
			return;
		}
		for (uint64_t x : sp) for (uint64_t y : sp) { A.push_back(x); B.push_back(y); }
		for (const size_t want = std::max<size_t>(n, A.size() + n / 2); A.size() < want;) { uint64_t a = any(g); A.push_back(a); B.push_back(partner(g, a)); }
	}
};
template <class T>
struct PatGen
{
	Gen<T> g;
	PatGen(int n, int es) : g(n, es, *G) {}
	std::vector<uint64_t> all(size_t n, Rng &)
	{
		std::vector<uint64_t> r;
		for (T x : g.unary(n)) r.push_back((uint64_t)(int64_t)x);
		return r;
	}
	uint64_t any(Rng &) { return (uint64_t)(int64_t)g.any(); }
	void pairs(size_t n, Rng &, std::vector<uint64_t> &A, std::vector<uint64_t> &B)
	{
		if (g.n <= 8 && ((size_t)1 << (2 * g.n)) <= n)
		{
			for (T x : g.all()) for (T y : g.all()) { A.push_back((uint64_t)(int64_t)x); B.push_back((uint64_t)(int64_t)y); }
			return;
		}
		for (unsigned i = 0; i < g.nspecial(); i++) for (unsigned j = 0; j < g.nspecial(); j++)
		{
			A.push_back((uint64_t)(int64_t)g.special(i)); B.push_back((uint64_t)(int64_t)g.special(j));
		}
		for (const size_t want = std::max<size_t>(n, A.size() + n / 2); A.size() < want;) { T a = g.any(); A.push_back((uint64_t)(int64_t)a); B.push_back((uint64_t)(int64_t)g.partner(a)); }
	}
};
// ---- the types ----
template <class E>
struct Any
{
	typedef E X;
	typedef FloatGen Gn;
	static Gn gen() { return FloatGen(E::vexpbits, E::vfractionbits); }
	static X of(uint64_t b) { return X(typename E::DeepInit(), (typename E::T)b); }
	static void put(const X &x) { out.word(x.v); }
	static void putw(uint64_t b) { out.word(b); }
	static uint64_t fit(uint64_t b) { return b & ~0ull >> (63 - E::vexpbits - E::vfractionbits); }
};
struct F16
{
	typedef float16n32 X;
	typedef FloatGen Gn;
	static Gn gen() { return FloatGen(5, 10); }
	static X of(uint64_t b) { return X(false, (uint16_t)b); }
	static void put(const X &x) { out.word(x.raw()); }
	static void putw(uint64_t b) { out.word(b); }
	static uint64_t fit(uint64_t b) { return b & 0xffff; }
};
template <class E>
struct Pf
{
	typedef E X;
	typedef PatGen<typename E::value_t> Gn;
	static Gn gen() { return Gn(E::vtotalbits, E::vesbits); }
	static X of(uint64_t b) { return X(typename E::DeepInit(), (typename E::value_t)b); }
	static void put(const X &x) { out.sint(x.v); }
	static void putw(uint64_t b) { out.sint((int64_t)b); }
	static uint64_t fit(uint64_t b) { return (uint64_t)((int64_t)(b << (64 - E::vtotalbits)) >> (64 - E::vtotalbits)); }
};
typedef std::vector<uint64_t> V;

template <class A, class F>
static void table(const char *op, int c, const V *a, const V *b, const V *d, F f, const char *pre = "", int mask = -1)
{
	if (!want(op)) return;
#ifdef SEARCH
	// the operands searched for take the place of those made; each at an even and an odd position, where another form is called
	const V kept[3] = {*a, b ? *b : V(), d ? *d : V()};
	V *vs_[3] = {const_cast<V *>(a), const_cast<V *>(b), const_cast<V *>(d)};
	const int K = d ? 3 : b ? 2 : 1;
	const bool roam = strcmp(op, "ur1m") != 0 && a->size() > 1;      // that one has operands from 0 to 1 only
	std::vector<cover::Words> start;
	for (size_t i = 0; i < a->size() && start.size() < 600; i += 1 + a->size() / 600)
	{
		cover::Words w = {{0, 0, 0, 0, 0, 0}};
		for (int j = 0; j < K; j++) w[j] = kept[j][i];
		start.push_back(w);
	}
	auto found = cover::search(*G, K, start, roam ? SEARCH : 0, 150, [](cover::Words &w) { for (uint64_t &x : w) x = A::fit(x); }, [&](const cover::Words &w) {
		size_t z = out.s.size(), slot = w[4] & 1;
		for (int j = 0; j < K; j++) (*vs_[j])[slot] = w[j];
		doing(op, c, (long long)w[0], (long long)w[1]);
		cover::on = true;
		f(slot);
		cover::on = false;
		out.s.resize(z); });
	for (int j = 0; j < K && roam; j++)
	{
		vs_[j]->clear();
		for (const cover::Words &w : found) { vs_[j]->push_back(w[j]); vs_[j]->push_back(w[j]); }
	}
#endif
	for (size_t k = 0; k < a->size(); k += 64)
	{
		size_t m = std::min(a->size(), k + 64);
		head(op, c);
		if (mask >= 0) { key("m"); out.i(mask); }
		const V *vs[3] = {a, b, d};
		const char *ns[3] = {"a", "b", "d"};
		for (int j = 0; j < 3; j++)
			if (vs[j])
			{
				key(ns[j]); out.raw("[");
				for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); A::putw((*vs[j])[i]); }
				out.raw("]");
			}
		key("r"); out.raw("[");
		for (size_t i = k; i < m; i++)
		{
			if (i > k) out.raw(",");
			doing(op, c, (long long)(*a)[i], b ? (long long)(*b)[i] : 0);
			f(i);
		}
		out.raw("]");
		out.end();
	}
#ifdef SEARCH
	for (int j = 0; j < K; j++) *vs_[j] = kept[j];
#endif
}
// operands that are not of the type
template <class In, class F>
static void feed(const char *op, int c, size_t n, In in, F f, int w = 0)
{
	if (!want(op)) return;
	for (size_t k = 0; k < n; k += 64)
	{
		size_t m = std::min(n, k + 64);
		head(op, c);
		if (w) { key("w"); out.i(w); }
		key("a"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); in(i); }
		out.raw("]"); key("r"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); doing(op, c, (long long)i, 0); f(i); }
		out.raw("]");
		out.end();
	}
}
// the same, with the words at hand
template <class W, class In, class F>
static void feedv(const char *op, int c, std::vector<W> &v, In in, F f)
{
	if (!want(op)) return;
#ifdef SEARCH
	std::vector<cover::Words> start;
	for (size_t i = 0; i < v.size() && start.size() < 600; i += 1 + v.size() / 600) start.push_back(cover::Words{{(uint64_t)v[i], 0, 0, 0, 0, 0}});
	auto found = cover::search(*G, 1, start, SEARCH, 300, [](cover::Words &w) { w[0] = (uint64_t)(W)w[0]; }, [&](const cover::Words &w) {
		size_t z = out.s.size(), slot = w[0] >> 3 & 1;
		v[slot] = (W)w[0];
		doing(op, c, (long long)w[0], 0);
		cover::on = true;
		f(slot);
		cover::on = false;
		out.s.resize(z); });
	v.clear();
	for (const cover::Words &w : found) { v.push_back((W)w[0]); v.push_back((W)w[0]); }
#endif
	feed(op, c, v.size(), in, f);
}
static void f32w(float f) { uint32_t w; memcpy(&w, &f, 4); out.word(w); }
static void f64w(double f) { uint64_t w; memcpy(&w, &f, 8); out.word(w); }

// std::abs where it is offered for the type
template <class X>
static typename std::enable_if<std::is_same<decltype(std::abs(std::declval<X>())), X>::value, X>::type std_abs(X x) { return std::abs(x); }
template <class X>
static typename std::enable_if<!std::is_same<decltype(std::abs(std::declval<X>())), X>::value, X>::type std_abs(X x) { return x.abs(); }

template <class A>
static void common(int c, V &a, V &b, V &u)
{
	typedef typename A::X X;
#define BIN(NAME, EXPR) table<A>(NAME, c, &a, &b, nullptr, [&](size_t i) { X x = A::of(a[i]), y = A::of(b[i]); (void)y; EXPR; });
	BIN("add", if (i & 1) { x += y; A::put(x); } else A::put(x + y))
	BIN("sub", A::put(x - y))
	BIN("mul", if (i & 1) { x *= y; A::put(x); } else A::put(x * y))
	BIN("div", A::put(x / y))
	BIN("min", A::put(std::min(x, y)))
	BIN("max", A::put(std::max(x, y)))
#define UNA(NAME, EXPR) table<A>(NAME, c, &u, nullptr, nullptr, [&](size_t i) { X x = A::of(u[i]); EXPR; });
	UNA("neg", A::put(i & 1 ? -x : x.neg()))
	UNA("abs", A::put(i & 1 ? std_abs(x) : x.abs()))
	UNA("f32o", f32w(static_cast<const X &>(x).operator float()))
	UNA("f64o", f64w(static_cast<const X &>(x).operator double()))
	UNA("same", A::put(x))
}
template <class A>
static void consts(int c, const char **n, const typename A::X *v, int k)
{
	if (!want("const")) return;
	head("const", c); key("n"); out.raw("[");
	for (int i = 0; i < k; i++) { if (i) out.raw(","); out.raw("\""); out.raw(n[i]); out.raw("\""); }
	out.raw("]"); key("r"); out.raw("[");
	for (int i = 0; i < k; i++) { if (i) out.raw(","); A::put(v[i]); }
	out.raw("]");
	out.end();
}
static std::vector<uint32_t> fin32(size_t n, int eb, int fb)
{
	std::vector<uint32_t> r;
	FloatGen g(8, 23);
	for (uint64_t x : g.sp) r.push_back((uint32_t)x);
	for (const size_t want = std::max<size_t>(n, r.size() + n / 2); r.size() < want;)
	{
		// the words around those of the narrow format
		uint64_t w = floatword(*G, 8, 23);
		if (G->below(3) == 0)
		{
			int bias = (1 << (eb - 1)) - 1;
			int e = G->below(2) ? G->range(-bias - fb - 2, 2 - bias) : G->range(bias - 2, bias + 2);
			e = std::max(-126, std::min(127, e));
			w = (w & 0x807fffffu) | (uint32_t)(e + 127) << 23;
		}
		if (fb < 23 && G->below(3) == 0) w = (w & ~((1ull << (23 - fb)) - 1)) + G->range(-2, 2);
		r.push_back((uint32_t)w);
	}
	return r;
}
static std::vector<uint64_t> fin64(size_t n, int eb, int fb)
{
	std::vector<uint64_t> r;
	FloatGen g(11, 52);
	r = g.sp;
	for (const size_t want = std::max<size_t>(n, r.size() + n / 2); r.size() < want;)
	{
		uint64_t w = floatword(*G, 11, 52);
		if (G->below(2) == 0)
		{
			int bias = (1 << (eb - 1)) - 1;
			int e = G->below(2) ? G->range(-bias - fb - 2, 2 - bias) : G->range(bias - 2, bias + 2);
			e = std::max(-1022, std::min(1023, e));
			w = (w & 0x800fffffffffffffull) | (uint64_t)(e + 1023) << 52;
		}
		if (fb < 52 && G->below(3) == 0) w = (w & ~((1ull << (52 - fb)) - 1)) + G->range(-2, 2);
		r.push_back(w);
	}
	return r;
}
static std::vector<int> fint(size_t n)
{
	std::vector<int> r = {0, 1, -1, INT32_MAX, INT32_MIN, INT32_MIN + 1};
	for (int k = 0; k < 31; k++) for (int d = -1; d <= 1; d++) { r.push_back((1 << k) + d); r.push_back(-(1 << k) + d); }
	for (const size_t want = std::max<size_t>(n, r.size() + n / 2); r.size() < want;) { int k = 1 + G->below(31); int v = (int)(G->next() & ((1u << k) - 1)); r.push_back(G->below(2) ? v : -v); }
	return r;
}
template <class A, class U>
static void unpacked_io(int c, V &u)
{
	typedef typename A::X X;
	if (want("unpk"))
	for (size_t k = 0; k < u.size(); k += 64)
	{
		size_t m = std::min(u.size(), k + 64);
		head("unpk", c); key("w"); out.i(sizeof(((U *)0)->fraction) * 8);
		key("a"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); A::putw(u[i]); }
		out.raw("]"); key("r"); out.raw("[");
		for (size_t i = k; i < m; i++)
		{
			if (i > k) out.raw(",");
			doing("unpk", c, (long long)u[i], 0);
			const X x = A::of(u[i]);
			U p = i & 1 ? x.operator U() : x.unpack();
			out.raw("["); out.i((int)p.type); out.raw(","); out.i(p.negativeSign ? 1 : 0); out.raw(","); out.ci(p.exponent);
			out.limbs((unsigned __int128)p.fraction, false); out.raw("]");
		}
		out.raw("]");
		out.end();
	}
}
template <class FT, class U, class A>
static void packs(int c, size_t n, int lo, int hi)
{
	typedef typename A::X X;
	std::vector<U> us = {U(U::Zero), U(U::NaN), U(U::Infinity, false), U(U::Infinity, true)};
	for (const size_t want = std::max<size_t>(n, us.size() + n / 2); us.size() < want;) us.push_back(U(G->below(4) ? G->range(lo, hi) : G->range(-3, 3), (FT)shapebits(*G, sizeof(FT) * 8), G->below(2) != 0));
	feed("pack", c, us.size(), [&](size_t i) {
		const U &p = us[i];
		out.raw("["); out.i((int)p.type); out.raw(","); out.i(p.negativeSign ? 1 : 0); out.raw(","); out.ci(p.exponent);
		out.limbs((unsigned __int128)p.fraction, false); out.raw("]"); },
	     [&](size_t i) { A::put(X(us[i])); }, sizeof(FT) * 8);
}

template <class E, bool std_minmax>
struct RunAny
{
	static void go(int c)
	{
		typedef Any<E> A;
		typedef E X;
		auto g = A::gen();
		V a, b, u = g.all(E::vtotalbits <= 8 ? std::max<size_t>(N, 256) : N, *G);
		g.pairs(E::vtotalbits <= 8 ? 65536 : N, *G, a, b);
		V d; for (size_t i = 0; i < a.size(); i++) d.push_back(g.any(*G));
		common<A>(c, a, b, u);
		table<A>("cmp", c, &a, &b, nullptr, [&](size_t i) { const X x = A::of(a[i]), y = A::of(b[i]);
			out.i((x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5); }, "", 63);
		V a2(a.begin(), a.begin() + std::min(a.size(), N)), b2(b.begin(), b.begin() + a2.size()), d2(d.begin(), d.begin() + a2.size());
		table<A>("fma", c, &a2, &b2, &d2, [&](size_t i) { A::put(fma(A::of(a2[i]), A::of(b2[i]), A::of(d2[i]))); });
		UNA("inv", A::put(i & 1 ? ~x : x.inv()))
		UNA("half", A::put(x.half()))
		UNA("twice", A::put(x.twice()))
		UNA("into", out.sint(static_cast<const X &>(x).operator int()))
		UNA("cls", out.i(x.iszero() | x.isnegative() << 1))
		auto f = fin32(N, E::vexpbits, E::vfractionbits);
		feedv("f32i", c, f, [&](size_t i) { out.word(f[i]); }, [&](size_t i) { float v; memcpy(&v, &f[i], 4); A::put(X(v)); });
		auto h = fin64(N, E::vexpbits, E::vfractionbits);
		feedv("f64i", c, h, [&](size_t i) { out.word(h[i]); }, [&](size_t i) { double v; memcpy(&v, &h[i], 8); A::put(X(v)); });
		auto n = fint(N / 2);
		feedv("inti", c, n, [&](size_t i) { out.sint(n[i]); }, [&](size_t i) { A::put(X(n[i])); });
		unpacked_io<A, typename E::UnpackedT>(c, u);
		const int bias = (1 << (E::vexpbits - 1)) - 1;
		packs<typename E::T, typename E::UnpackedT, A>(c, N / 2, -bias - E::vfractionbits - 3, bias + 3);
		const char *cn[] = {"zero", "pinf", "pinf", "pinf", "ninf", "max", "min", "lowest", "nan", "one", "two", "default"};
		X cv[] = {X::zero(), X::inf(), X::pinf(), X::infinity(), X::ninf(), X::max(), X::min(), X::lowest(), X::nan(), X::one(), X::two(), X()};
		consts<A>(c, cn, cv, 12);
	}
};
#ifdef WITH_B8
struct B8
{
	typedef binary8tab X;
	static X of(uint64_t b) { return X(X::DeepInit(), (int8_t)b); }
	static void put(const X &x) { out.word((uint8_t)x.v); }
	static void putw(uint64_t b) { out.word(b); }
	static uint64_t fit(uint64_t b) { return b & 0xff; }
};
struct RunB8
{
	static void go(int c)
	{
		typedef B8 A;
		typedef binary8tab X;
		typedef std::numeric_limits<X> L;
		FloatGen g(BINARY8_EXP, BINARY8_MAN);
		V a, b, u = g.all(256, *G);
		g.pairs(65536, *G, a, b);
		BIN("add", if (i & 1) { x += y; A::put(x); } else A::put(x + y))
		BIN("sub", A::put(x - y))
		BIN("mul", if (i & 1) { x *= y; A::put(x); } else A::put(x * y))
		BIN("div", A::put(x / y))
		BIN("min", A::put(std::min(x, y)))
		BIN("max", A::put(std::max(x, y)))
		table<A>("cmp", c, &a, &b, nullptr, [&](size_t i) { const X x = A::of(a[i]), y = A::of(b[i]);
			out.i((x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5); }, "", 63);
		UNA("neg", A::put(i & 1 ? -x : neg(x)))
		UNA("abs", A::put(std::abs(x)))
		UNA("inv", A::put(i & 1 ? inv(x) : x.inv()))
		UNA("half", A::put(i & 1 ? half(x) : x.half()))
		UNA("twice", A::put(i & 1 ? twice(x) : x.twice()))
		UNA("square", A::put(i & 1 ? square(x) : x.square()))
		UNA("exp2", A::put(i & 1 ? exp2(x) : x.exp2()))
		UNA("f32o", f32w(static_cast<const X &>(x).operator float()))
		UNA("f64o", f64w(static_cast<const X &>(x).operator double()))
		UNA("same", A::put(x))
		UNA("tnum", { std::ostringstream s; s << x; std::string t = s.str(); size_t p = t.find_first_of("-0123456789", t.find('(') + 1); out.i(p == std::string::npos ? 9999 : atoi(t.c_str() + p)); })
		UNA("into", { float f = x; if (f > -2e9f && f < 2e9f) out.sint(x.operator int()); else out.sint(0); })      // int of NaN and infinity is not defined
		UNA("isneg", out.i((is_negative(x) ? 1 : 0) + (x.is_negative() ? 2 : 0) + 4 * (int)x.uu()))
		auto f = fin32(N, BINARY8_EXP, BINARY8_MAN);
		feedv("f32i", c, f, [&](size_t i) { out.word(f[i]); }, [&](size_t i) { float v; memcpy(&v, &f[i], 4); A::put(X(v)); });
		auto h = fin64(N, BINARY8_EXP, BINARY8_MAN);
		feedv("f64i", c, h, [&](size_t i) { out.word(h[i]); }, [&](size_t i) { double v; memcpy(&v, &h[i], 8); A::put(X(v)); });
		auto n = fint(N / 2);
		feedv("inti", c, n, [&](size_t i) { out.sint(n[i]); }, [&](size_t i) { A::put(X(n[i])); });
		const char *cn[] = {"zero", "max", "min", "one", "default", "afterone", "max", "min", "epsilon"};
		X cv[] = {X::zero(), X::max(), X::min(), X::one(), X(), X::afterone(), L::max(), L::min(), L::epsilon()};
		consts<A>(c, cn, cv, 9);
	}
};
#define TAB8(I) RunB8::go(I);
#endif
struct RunF16
{
	static void go(int c)
	{
		typedef F16 A;
		typedef float16n32 X;
		auto g = A::gen();
		V a, b, u = g.all(N >= 4000 ? 65536 : N, *G);
		g.pairs(N, *G, a, b);
		V d; for (size_t i = 0; i < a.size(); i++) d.push_back(g.any(*G));
		common<A>(c, a, b, u);
		table<A>("cmp", c, &a, &b, nullptr, [&](size_t i) { const X x = A::of(a[i]), y = A::of(b[i]);
			out.i((x == y) | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5); }, "", 61);
		table<A>("fma", c, &a, &b, &d, [&](size_t i) { A::put(mulAdd(A::of(a[i]), A::of(b[i]), A::of(d[i]))); });
		BIN("rem", A::put(rem(x, y)))
		UNA("sqrt", A::put(sqrt(x)))
		UNA("square", A::put(square(x)))
		UNA("inv", A::put(inv(x)))
		UNA("half", A::put(half(x)))
		UNA("rtrip", A::put(i & 1 ? X(x.operator float16n_t()) : X(float16nto32(x.operator float16n_t()))))
		auto f = fin32(N * 2, 5, 10);
		feedv("f32i", c, f, [&](size_t i) { out.word(f[i]); }, [&](size_t i) { float v; memcpy(&v, &f[i], 4); A::put(i & 1 ? X(v) : X(float32to16n(v))); });
		const char *cn[] = {"zero", "one", "two", "default"};
		X cv[] = {X::zero(), X::one(), X::two(), X()};
		consts<A>(c, cn, cv, 4);
	}
};
#ifdef WITH_SOFT
struct S16
{
	typedef softfloat16 X;
	typedef FloatGen Gn;
	static X of(uint64_t b) { if (b & 1) return X(false, (uint16_t)b); float16_t w; w.v = (uint16_t)b; return X(w); }
	static void put(const X &x) { out.word(((float16_t)x).v); }
	static void putw(uint64_t b) { out.word(b); }
	static uint64_t fit(uint64_t b) { return b & 0xffff; }
};
struct S32
{
	typedef softfloat32 X;
	typedef FloatGen Gn;
	static X of(uint64_t b) { if (b & 1) return X(true, (uint32_t)b); float32_t w; w.v = (uint32_t)b; return X(w); }
	static void put(const X &x) { out.word(((float32_t)x).v); }
	static void putw(uint64_t b) { out.word(b); }
	static uint64_t fit(uint64_t b) { return b & 0xffffffffu; }
};
static void times(softfloat16 &x, softfloat16 y) { x *= y; }
static void times(softfloat32 &x, softfloat32 y) { x = x * y; }
template <class A, int EB, int FB>
struct RunSoft
{
	typedef typename A::X X;
	static void common(int c, size_t un)
	{
		FloatGen g(EB, FB);
		V a, b, d, u = g.all(un, *G);
		g.pairs(N, *G, a, b);
		for (size_t i = 0; i < a.size(); i++) d.push_back(i & 1 ? g.any(*G) : g.partner(*G, a[i]));
		BIN("add", if (i & 1) { X z = x; z += y; A::put(z); } else A::put(x + y))
		BIN("sub", A::put(x - y))
		BIN("mul", if (i & 1) { times(x, y); A::put(x); } else A::put(x * y))
		BIN("div", A::put(x / y))
		BIN("rem", A::put(rem(x, y)))
		// in place with the operand itself
		UNA("twice", x += x; A::put(x))
		UNA("square", if (i & 1) A::put(square(x)); else { times(x, x); A::put(x); })
		table<A>("fmax", c, &a, &b, &d, [&](size_t i) { A::put(mulAdd(A::of(a[i]), A::of(b[i]), A::of(d[i]))); });
		table<A>("cmp", c, &a, &b, nullptr, [&](size_t i) { const X x = A::of(a[i]), y = A::of(b[i]);
			out.i((x == y) | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5); }, "", 61);
		BIN("min", A::put(std::min(x, y)))
		BIN("max", A::put(std::max(x, y)))
		UNA("neg", A::put(-x))
		UNA("sqrt", A::put(sqrt(x)))
		UNA("inv", A::put(inv(x)))
		UNA("half", A::put(half(x)))
		UNA("same", A::put(x))
		UNA("f32o", f32w(static_cast<const X &>(x).operator float()))
		UNA("f64o", f64w(static_cast<const X &>(x).operator double()))
		UNA("exp2n", A::put(exp2t(x)))
		auto f = fin32(N * 2, EB, FB);
		feedv("f32i", c, f, [&](size_t i) { out.word(f[i]); }, [&](size_t i) { float v; memcpy(&v, &f[i], 4); A::put(X(v)); });
		feedv("f32i", c, f, [&](size_t i) { out.word(f[i]); }, [&](size_t i) { float32_t v; v.v = f[i]; A::put(X(v)); });
		auto h = fin64(N, EB, FB);
		feedv("f64i", c, h, [&](size_t i) { out.word(h[i]); }, [&](size_t i) { double v; memcpy(&v, &h[i], 8); A::put(X(v)); });
		feed("f16i", c, 65536 / 64, [&](size_t i) { out.word(i * 64 + i % 64); }, [&](size_t i) { float16_t v; v.v = (uint16_t)(i * 64 + i % 64); A::put(X(v)); });
		auto n = fint(N / 2);
		feedv("inti", c, n, [&](size_t i) { out.sint(n[i]); }, [&](size_t i) { A::put(X((int32_t)n[i])); });
		feedv("inti", c, n, [&](size_t i) { out.sint((int64_t)(uint32_t)n[i]); }, [&](size_t i) { A::put(X((uint32_t)n[i])); });
		const char *cn[] = {"zero", "one", "two"};
		X cv[] = {X::zero(), X::one(), X::two()};
		consts<A>(c, cn, cv, 3);
		// the number in the text
		if (want("tdec"))
		for (size_t k = 0; k < u.size(); k += 64)
		{
			size_t m = std::min(u.size(), k + 64);
			head("tdec", c); key("p"); out.i(6); key("a"); out.raw("[");
			for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); A::putw(u[i]); }
			out.raw("]"); key("k"); out.raw("[");
			std::vector<std::string> t;
			for (size_t i = k; i < m; i++)
			{
				doing("text", c, (long long)u[i], 0);
				std::ostringstream s; s << A::of(u[i]);
				std::string q = s.str(), pre = FB == 10 ? "f16(" : "f32(";
				bool ok = q.size() > 5 && q.compare(0, 4, pre) == 0 && q.back() == ')';
				t.push_back(ok ? q.substr(4, q.size() - 5) : "?");
				if (i > k) out.raw(",");
				out.i(ok);
			}
			out.raw("]"); key("r"); out.raw("[");
			for (size_t i = 0; i < t.size(); i++) { if (i) out.raw(","); put_text(t[i]); }
			out.raw("]");
			out.end();
		}
	}
	static void put_text(const std::string &t) { decimal(out, t); }
};
struct RunS16 { static void go(int c) { RunSoft<S16, 5, 10>::common(c, N >= 20000 ? 65536 : 2 * N); } };
struct RunS32
{
	static void go(int c)
	{
		RunSoft<S32, 8, 23>::common(c, N);
		typedef std::numeric_limits<softfloat32> L;
		const char *cn[] = {"max", "min", "lowest", "epsilon", "pinf", "nan", "nan", "dmin"};
		softfloat32 cv[] = {L::max(), L::min(), L::lowest(), L::epsilon(), L::infinity(), L::quiet_NaN(), L::signaling_NaN(), L::denorm_min()};
		consts<S32>(c, cn, cv, 8);
		if (want("const"))
		{
			head("slimits", c); key("r"); out.raw("[[");
			long long v[] = {L::is_specialized, L::is_signed, L::is_integer, L::is_exact, L::radix, L::digits, L::digits10, L::min_exponent, L::min_exponent10, L::max_exponent, L::max_exponent10,
			                 L::has_infinity, L::has_quiet_NaN, (long long)L::has_denorm == (long long)std::denorm_present, L::is_iec559, L::is_bounded, L::is_modulo};
			for (size_t i = 0; i < sizeof v / sizeof *v; i++) { if (i) out.raw(","); out.i(v[i]); }
			out.raw("]]");
			out.end();
		}
	}
};
#define SOFT16(I) RunS16::go(I);
#define SOFT32(I) RunS32::go(I);
// the table the generator makes, as it is written
#ifdef SOFT_TABLE
#include SOFT_TABLE
static void exp2_table(int c)
{
	V u;
	for (int i = 0; i < 65536; i += N >= 20000 ? 1 : 1 + G->below(5)) u.push_back(i);
	table<S16>("exp2n", c, &u, nullptr, nullptr, [&](size_t i) { out.word(float16_opexp2[u[i]]); });
	if (want("exp2n")) { static_assert(sizeof float16_opexp2 == 131072, "one entry for every half"); }
}
#define SOFTTAB(I) exp2_table(I);
#endif
#endif
#ifndef WITH_B8
template <class E>
struct RunPf
{
	static void go(int c)
	{
		typedef Pf<E> A;
		typedef E X;
		auto g = A::gen();
		V a, b, u = g.all(E::vtotalbits <= 10 ? std::max<size_t>(N, 1024) : N, *G);
		g.pairs(E::vtotalbits <= 6 ? 4096 : E::vtotalbits <= 8 && N >= 4000 ? 65536 : N, *G, a, b);
		V d; for (size_t i = 0; i < a.size(); i++) d.push_back(g.any(*G));
		common<A>(c, a, b, u);
		table<A>("cmp", c, &a, &b, nullptr, [&](size_t i) { const X x = A::of(a[i]), y = A::of(b[i]);
			out.i((x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5); }, "", 63);
		V a2(a.begin(), a.begin() + std::min(a.size(), N)), b2(b.begin(), b.begin() + a2.size()), d2(d.begin(), d.begin() + a2.size());
		table<A>("fma", c, &a2, &b2, &d2, [&](size_t i) { A::put(fma(A::of(a2[i]), A::of(b2[i]), A::of(d2[i]))); });
		UNA("inv", A::put(i % 3 == 0 ? ~x : i % 3 == 1 ? x.inv() : inv(x)))
		UNA("neg", A::put(neg(x)))
		UNA("half", A::put(x.half()))
		UNA("twice", A::put(x.twice()))
		UNA("next", A::put(x.next()))
		UNA("prev", A::put(x.prev()))
		UNA("psig", A::put(x.pseudosigmoid()))
		UNA("psof", A::put(x.pseudosoftplus()))
		UNA("into", out.sint(static_cast<const X &>(x).operator int()))
		UNA("cls", out.i(x.iszero() | x.isnegative() << 1 | x.isNaN() << 2 | x.isinfinity() << 3 | x.isone() << 4 | x.isUnitRange() << 5))
		V ur;
		for (uint64_t w : u) if ((int64_t)w >= 0 && (int64_t)w <= (int64_t)1 << (E::vtotalbits - 2)) ur.push_back(w);
		if (!ur.empty()) table<A>("ur1m", c, &ur, nullptr, nullptr, [&](size_t i) { A::put(A::of(ur[i]).urOneMinus()); });
		auto f = fin32(N, 8, E::vtotalbits);
		feedv("f32i", c, f, [&](size_t i) { out.word(f[i]); }, [&](size_t i) { float v; memcpy(&v, &f[i], 4); A::put(X(v)); });
		auto h = fin64(N, 8, E::vtotalbits);
		feedv("f64i", c, h, [&](size_t i) { out.word(h[i]); }, [&](size_t i) { double v; memcpy(&v, &h[i], 8); A::put(X(v)); });
		auto n = fint(N / 2);
		feedv("inti", c, n, [&](size_t i) { out.sint(n[i]); }, [&](size_t i) { A::put(X(n[i])); });
		unpacked_io<A, typename E::UnpackedT>(c, u);
		packs<typename E::FT, typename E::UnpackedT, A>(c, N / 2, -100, 100);
		// repacking through both interfaces
		table<A>("same", c, &u, nullptr, nullptr, [&](size_t i) { X x = A::of(u[i]); A::put(i & 1 ? X::pack_low(x.unpack_low()) : X::pack_posit(X::unpack_posit(x))); });
		const char *cn[] = {"zero", "max", "min", "lowest", "one", "mone", "two", "onehalf", "max", "min", "lowest", "epsilon", "min", "nan", "pinf", "ninf"};
		typedef std::numeric_limits<X> L;
		std::vector<X> cv = {X::zero(), X::max(), X::min(), X::lowest(), X::one(), X::mone(), X::two(), X::onehalf(), L::max(), L::min(), L::lowest(), L::epsilon(), L::denorm_min()};
		std::vector<const char *> names(cn, cn + 13);
		if (A::of(0).hasNaN()) { cv.push_back(X::nan()); names.push_back("nan"); cv.push_back(L::quiet_NaN()); names.push_back("nan"); }
		if (L::has_infinity) { cv.push_back(X::inf()); names.push_back("pinf"); cv.push_back(X::pinf()); names.push_back("pinf"); cv.push_back(X::infinity()); names.push_back("pinf");
			cv.push_back(L::infinity()); names.push_back("pinf"); cv.push_back(X::ninf()); names.push_back("ninf"); }
		consts<A>(c, names.data(), cv.data(), (int)cv.size());
		if (want("const"))
		{
			head("limits", c); key("r"); out.raw("[[");
			long long v[] = {L::is_specialized, L::is_signed, L::is_integer, L::is_exact, L::radix, L::has_infinity, L::has_quiet_NaN, L::min_exponent, L::max_exponent,
			                 L::min_exponent, L::max_exponent, E::vtotalbits, E::vesbits, A::of(0).hasNaN()};
			for (int i = 0; i < 14; i++) { if (i) out.raw(","); out.i(v[i]); }
			out.raw("]]");
			out.end();
		}
	}
};
#endif
int main(int argc, char **argv)
{
	install_handlers();
	out.f = stdout;
	uint64_t seed = 1;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--n") N = strtoull(v.c_str(), 0, 10);
		else if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--ops") ops = v;
	}
	Rng g(seed * 131 + 7);
	G = &g;
#define ANY(I, E) RunAny<E, true>::go(I);
#define COMMA ,
#define HALF(I) RunF16::go(I);
#define PF(I, T, n, es, FFT, S) RunPf<PositF<T, n, es, FFT, PositSpec::S>>::go(I);
	CFGS
	out.flush();
	fflush(stdout);
	return 0;
}
