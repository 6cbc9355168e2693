// Calls the unpacked number type and the float/fixed conversions and records every call.
//   -DFTYPE=uint32_t : the fraction word
#include "unpacked.h"
#include "emit.hpp"
#ifndef FTYPE
#define FTYPE uint32_t
#endif

static Out out;
typedef FTYPE FT;
typedef Unpacked<FT, int32_t> U;
static const int W = sizeof(FT) * 8;

static void head(const char *op)
{
	out.raw("{\"o\":\""); out.raw(op); out.raw("\",\"w\":"); out.i(W);
}
static void key(const char *k) { out.raw(",\""); out.raw(k); out.raw("\":"); }
static void unp(const U &u)
{
	out.raw("["); out.i((int)u.type); out.raw(","); out.i(u.negativeSign ? 1 : 0); out.raw(","); out.ci(u.exponent);
	out.limbs((unsigned __int128)u.fraction, false);
	out.raw("]");
}
static void doing(const char *op, long long a, long long b) { snprintf(g_doing, sizeof g_doing, "op=%s ft=%d a=%lld b=%lld", op, W, a, b); }

static uint64_t shapebits(Rng &g, int k)
{
	if (k <= 0) return 0;
	uint64_t m = k >= 64 ? ~0ull : ((1ull << k) - 1);
	switch (g.below(9))
	{
	case 0: return 0;
	case 1: return m;
	case 2: return 1;
	case 3: return (1ull << g.below(k)) & m;
	case 4: return (m << g.below(k)) & m;
	case 5: return (m >> g.below(k)) & m;
	case 6: return m ^ (1ull << g.below(k));
	case 7: return g.next() & (m << (k / 2)) & m;
	default: return g.next() & m;
	}
}
static U special(Rng &g)
{
	switch (g.below(5))
	{
	case 0: return U(U::Zero);
	case 1: return U(U::NaN);
	case 2: return U(U::Infinity, false);
	case 3: return U(U::Infinity, true);
	default: return U::one();
	}
}
static U any(Rng &g)
{
	if (g.below(12) == 0) return special(g);
	int e = g.below(3) ? g.range(-12, 12) : g.range(-1200, 1200);
	return U(e, (FT)shapebits(g, W), g.below(2) != 0);
}
static U partner(Rng &g, const U &a)
{
	if (!a.isRegular()) return g.below(3) ? any(g) : special(g);
	FT f;
	switch (g.below(8))
	{
	case 0: return U(a.exponent, (FT)(a.fraction + (FT)g.range(-2, 2)), !a.negativeSign);
	case 1: return U(a.exponent + g.range(-1, 1), (FT)(a.fraction ^ (FT)shapebits(g, W / 2)), !a.negativeSign);
	case 2: f = (FT)shapebits(g, W); return U(a.exponent + g.range(-W - 3, W + 3), f, a.negativeSign);
	case 3: f = (FT)shapebits(g, W); return U(a.exponent + g.range(-W - 3, W + 3), f, !a.negativeSign);
	case 4: return U(a.exponent + g.range(-3, 3), a.fraction, g.below(2) != 0);
	case 5: return U(g.range(-5, 5), (FT)(a.fraction + (FT)g.range(-2, 2)), g.below(2) != 0);
	default: return any(g);
	}
}
#ifdef SEARCH
static void words_of(const U &u, uint64_t *w) { w[0] = (uint64_t)(int64_t)u.exponent; w[1] = (uint64_t)u.fraction; w[2] = u.negativeSign | (u.isNaN() ? 2 : u.isInfinity() ? 4 : u.isZero() ? 6 : 0); }
static U of_words(const uint64_t *w)
{
	switch (w[2] >> 1)
	{
	case 1: return U(U::NaN, false);
	case 2: return U(U::Infinity, (w[2] & 1) != 0);
	case 3: return U(U::Zero);
	default: return U((int)(int64_t)w[0], (FT)w[1], (w[2] & 1) != 0);
	}
}
// the operands searched for take the place of those made, each at an even and an odd position
template <class F>
static void sought(Rng &g, std::vector<U> &A, std::vector<U> *B, int elim, F f)
{
	const int K = B ? 6 : 3;
	std::vector<cover::Words> start;
	for (size_t i = 0; i < A.size() && start.size() < 800; i += 1 + A.size() / 800)
	{
		cover::Words w = {{0, 0, 0, 0, 0, 0}};
		words_of(A[i], &w[0]);
		if (B) words_of((*B)[i], &w[3]);
		start.push_back(w);
	}
	auto found = cover::search(g, K, start, SEARCH, 300, [&](cover::Words &w) {
		for (int j = 0; j < K; j += 3)
		{
			w[j] = (uint64_t)((int64_t)w[j] % elim);
			w[j + 1] = (uint64_t)(FT)w[j + 1];
			w[j + 2] &= w[j + 2] % 64 < 8 ? 7 : 1;
			U u = of_words(&w[j]);          // what the type makes of it
			words_of(u, &w[j]);
		} }, [&](const cover::Words &w) {
		size_t z = out.s.size(), slot = w[1] >> 4 & 1;
		A[slot] = of_words(&w[0]);
		if (B) (*B)[slot] = of_words(&w[3]);
		cover::on = true;
		f(slot);
		cover::on = false;
		out.s.resize(z); });
	A.clear();
	if (B) B->clear();
	for (const cover::Words &w : found)
		for (int k = 0; k < 2; k++) { A.push_back(of_words(&w[0])); if (B) B->push_back(of_words(&w[3])); }
}
// and words
template <class W_, class F>
static void soughtw(Rng &g, std::vector<W_> &ws, F f)
{
	std::vector<cover::Words> start;
	for (size_t i = 0; i < ws.size() && start.size() < 800; i += 1 + ws.size() / 800) start.push_back(cover::Words{{(uint64_t)ws[i], 0, 0, 0, 0, 0}});
	auto found = cover::search(g, 1, start, SEARCH, 300, [](cover::Words &w) { w[0] = (uint64_t)(W_)w[0]; }, [&](const cover::Words &w) {
		size_t z = out.s.size(), slot = w[0] >> 3 & 1;
		ws[slot] = (W_)w[0];
		cover::on = true;
		f(slot);
		cover::on = false;
		out.s.resize(z); });
	ws.clear();
	for (const cover::Words &w : found) { ws.push_back((W_)w[0]); ws.push_back((W_)w[0]); }
}
#endif
// the specials against each other, then random pairs
static void pairs(const char *op, size_t n, Rng &g)
{
	std::vector<U> A, B;
	std::vector<U> sp = {U(U::Zero), U(U::NaN), U(U::Infinity, false), U(U::Infinity, true), U::one(), U(0, 0, true), U(3, (FT)1, false),
	                     U(-7, (FT)~(FT)0, true), U(0, (FT)~(FT)0, false), U(1, 0, false), U(0, (FT)1, false), U(0, (FT)2, false), U(0, (FT)3, true)};
	for (auto &x : sp) for (auto &y : sp) { A.push_back(x); B.push_back(y); }
	if (W == 8 && n >= 4096)
		for (int x = 0; x < 256; x += n >= 65536 ? 1 : 3)
			for (int y = 0; y < 256; y++) { A.push_back(U(0, (FT)x, false)); B.push_back(U(y % 5 == 0 ? g.range(-9, 9) : 0, (FT)y, y % 3 == 0)); }
	for (const size_t want = std::max<size_t>(n, A.size() + n / 2); A.size() < want;) { U a = any(g); A.push_back(a); B.push_back(partner(g, a)); }
	auto call = [&](size_t i) {
		doing(op, A[i].exponent, B[i].exponent);
		const U a = A[i], b = B[i];
		bool inplace = i % 2;
		if (!strcmp(op, "uadd")) { if (inplace) { U c = a; c += b; unp(c); } else unp(a + b); }
		else if (!strcmp(op, "usub")) { if (inplace) { U c = a; c -= b; unp(c); } else unp(a - b); }
		else if (!strcmp(op, "umul")) unp(a * b);
		else if (!strcmp(op, "udiv")) unp(a / b);
		else out.i((a == b) | (a != b) << 1);
	};
#ifdef SEARCH
	sought(g, A, &B, 2000, call);
#endif
	for (size_t k = 0; k < A.size(); k += 64)
	{
		size_t m = std::min(A.size(), k + 64);
		head(op);
		key("a"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); unp(A[i]); }
		out.raw("]");
		key("b"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); unp(B[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = k; i < m; i++)
		{
			if (i > k) out.raw(",");
			call(i);
		}
		out.raw("]");
		out.end();
	}
}
static void singles(const char *op, size_t n, Rng &g)
{
	std::vector<U> A = {U(U::Zero), U(U::NaN), U(U::Infinity, false), U(U::Infinity, true), U::one()};
	for (int k = 0; k < W; k++) for (int d = -1; d <= 1; d++) A.push_back(U(g.range(-3, 3), (FT)(((FT)1 << k) + (FT)d), g.below(2) != 0));
	if (W == 8) for (int x = 0; x < 256; x++) A.push_back(U(0, (FT)x, x % 2 != 0));
	if (W == 16 && n > 70000) for (int x = 0; x < 65536; x++) A.push_back(U(0, (FT)x, false));
	for (const size_t want = std::max<size_t>(n, A.size() + n / 2); A.size() < want;) A.push_back(any(g));
	auto call = [&](size_t i) {
		doing(op, A[i].exponent, (long long)A[i].fraction);
		const U a = A[i];
		if (!strcmp(op, "uinv")) unp(a.inv());
		else if (!strcmp(op, "uneg")) unp(-a);
		else out.i(a.isRegular() | a.isInfinity() << 1 | a.isNaN() << 2 | a.isZero() << 3 | a.isPositive() << 4);
	};
#ifdef SEARCH
	sought(g, A, nullptr, 2000, call);
#endif
	for (size_t k = 0; k < A.size(); k += 64)
	{
		size_t m = std::min(A.size(), k + 64);
		head(op);
		key("a"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); unp(A[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = k; i < m; i++)
		{
			if (i > k) out.raw(",");
			call(i);
		}
		out.raw("]");
		out.end();
	}
}
// ---- floats ----
template <class T> struct Val { template <class X> static U in(X w) { return U().template unpack_xfloati<T>(w); } };

template <class Trait> U native_in(typename Trait::holder_t w, int form);
template <class Trait> typename Trait::holder_t native_out(const U &u, int form);

template <class Trait, class V>
static U in_value(typename Trait::holder_t w)
{
	V v;
	memcpy(&v, &w, sizeof v);
	return U(v);
}
template <class Trait, class V>
static typename Trait::holder_t out_value(const U &u)
{
	V v = u.operator V();
	typename Trait::holder_t w;
	memcpy(&w, &v, sizeof w);
	return w;
}
template <class Trait>
static U in_any(typename Trait::holder_t w) { return U::template make_floati<Trait>(w); }
template <class Trait>
static typename Trait::holder_t out_any(const U &u) { return u.template pack_xfloati<Trait>(); }
template <class Trait>
static U in_any2(typename Trait::holder_t w)
{
	typename Trait::value_t v;
	memcpy(&v, &w, sizeof v);
	return U::template make_float<Trait>(v);
}
template <class Trait>
static typename Trait::holder_t out_any2(const U &u)
{
	typename Trait::value_t v = u.template pack_xfloat<Trait>();
	typename Trait::holder_t w;
	memcpy(&w, &v, sizeof w);
	return w;
}

// the object is reused: what it held before must not show
static U used()
{
	static unsigned k = 0;
	switch (k++ % 5)
	{
	case 0: return U(U::NaN, true);
	case 1: return U(U::Infinity, true);
	case 2: return U(-77, (FT)~(FT)0, true);
	case 3: return U(U::Zero);
	default: return U(1000, (FT)1, false);
	}
}
static U into_used(float v) { U u = used(); u.unpack_float(v); return u; }
static U into_used(double v) { U u = used(); return u.unpack_double(v); }
static U into_used(halffloat v) { U u = used(); return u.unpack_half(v); }
template <class Trait>
static U in_used(typename Trait::holder_t w)
{
	typename Trait::value_t v;
	memcpy(&v, &w, sizeof v);
	return into_used(v);
}
template <class Trait>
static U in_usedi(typename Trait::holder_t w) { U u = used(); u.template unpack_xfloati<Trait>(w); return u; }
template <class Trait>
static typename Trait::holder_t out_pack(const U &u)
{
	typename Trait::value_t v = u.template pack_float<typename Trait::value_t>();
	typename Trait::holder_t w;
	memcpy(&w, &v, sizeof w);
	return w;
}
static U int_used(int x) { U u = used(); return u.unpack_int(x); }

template <class Trait>
static std::vector<typename Trait::holder_t> words(size_t n, Rng &g)
{
	typedef typename Trait::holder_t H;
	const int fb = Trait::fraction_bits, eb = Trait::exponent_bits;
	std::vector<H> ws;
	if (fb + eb + 1 <= 16 && ((size_t)1 << (fb + eb + 1)) <= n)
	{
		for (uint32_t w = 0; w < (1u << (fb + eb + 1)); w++) ws.push_back((H)w);
		return ws;
	}
	const uint64_t em = (1ull << eb) - 1, sg = 1ull << (eb + fb);
	for (uint64_t e : {(uint64_t)0, (uint64_t)1, (uint64_t)2, (uint64_t)(em >> 1), (uint64_t)((em >> 1) + 1), (uint64_t)(em - 1), (uint64_t)em})
		for (uint64_t f : {(uint64_t)0, (uint64_t)1, (uint64_t)((1ull << fb) - 1), (uint64_t)(1ull << (fb - 1)), (uint64_t)3})
			for (uint64_t s : {(uint64_t)0, (uint64_t)sg}) ws.push_back((H)(s | e << fb | (f & ((1ull << fb) - 1))));
	for (int k = 0; k < fb; k++)
		for (uint64_t s : {(uint64_t)0, (uint64_t)sg}) { ws.push_back((H)(s | 1ull << k)); ws.push_back((H)(s | ((2ull << k) - 1))); }
	for (const size_t want = std::max<size_t>(n, ws.size() + n / 2); ws.size() < want;)
	{
		uint64_t e = g.below(3) ? g.below((unsigned)em + 1) : (em >> 1) + g.range(-3, 3);
		ws.push_back((H)((g.below(2) ? sg : 0) | (e & em) << fb | shapebits(g, fb)));
	}
	return ws;
}
template <class Trait>
static void fin(int t, size_t n, Rng &g, U (*f)(typename Trait::holder_t), int form)
{
	auto ws = words<Trait>(n, g);
#ifdef SEARCH
	soughtw(g, ws, [&](size_t i) { doing("fin", t, (long long)ws[i]); unp(f(ws[i])); });
#endif
	for (size_t k = 0; k < ws.size(); k += 64)
	{
		size_t m = std::min(ws.size(), k + 64);
		head("fin"); key("t"); out.i(t); key("f"); out.i(form);
		key("a"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); out.word(ws[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); doing("fin", t, (long long)ws[i]); unp(f(ws[i])); }
		out.raw("]");
		out.end();
	}
}
template <class Trait>
static void fout(int t, size_t n, Rng &g, typename Trait::holder_t (*f)(const U &), int form)
{
	std::vector<U> us = {U(U::Zero), U(U::NaN), U(U::Infinity, false), U(U::Infinity, true)};
	const int bias = Trait::exponent_bias, fb = Trait::fraction_bits;
	for (int e : {bias, bias + 1, bias + 2, bias - 1, -bias, 1 - bias, 2 - bias, -bias - 1, -bias - fb, 1 - bias - fb, -bias - fb - 1, -bias - fb + 2, 0, -1})
		for (FT x : {(FT)0, (FT)1, (FT)~(FT)0, (FT)((FT)1 << (W - 1)), (FT)((FT)~(FT)0 << (W / 2))})
			us.push_back(U(e, x, g.below(2) != 0));
	for (const size_t want = std::max<size_t>(n, us.size() + n / 2); us.size() < want;)
	{
		int e = g.below(3) == 0 ? g.range(-bias - fb - 3, 3 - bias) : g.below(3) ? g.range(-bias - fb - 4, bias + 4) : g.range(-2000000, 2000000);
		us.push_back(U(e, (FT)shapebits(g, W), g.below(2) != 0));
	}
#ifdef SEARCH
	sought(g, us, nullptr, 2000000, [&](size_t i) { doing("fout", us[i].exponent, (long long)us[i].fraction); out.word(f(us[i])); });
#endif
	for (size_t k = 0; k < us.size(); k += 64)
	{
		size_t m = std::min(us.size(), k + 64);
		head("fout"); key("t"); out.i(t); key("f"); out.i(form);
		key("a"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); unp(us[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); doing("fout", us[i].exponent, (long long)us[i].fraction); out.word(f(us[i])); }
		out.raw("]");
		out.end();
	}
}
template <class Trait>
static void consts(int t)
{
	const char *n[] = {"pinf", "ninf", "nan", "one", "two", "max", "lowest", "min", "signbit"};
	typename Trait::holder_t v[] = {(typename Trait::holder_t)Trait::pinfinity_h, (typename Trait::holder_t)Trait::ninfinity_h, (typename Trait::holder_t)Trait::nan_h,
	                                (typename Trait::holder_t)Trait::one_h, (typename Trait::holder_t)Trait::two_h, (typename Trait::holder_t)Trait::max_h,
	                                (typename Trait::holder_t)Trait::lowest_h, (typename Trait::holder_t)Trait::min_h, (typename Trait::holder_t)Trait::signbit};
	head("fcst"); key("t"); out.i(t);
	key("n"); out.raw("[");
	for (int i = 0; i < 9; i++) { if (i) out.raw(","); out.raw("\""); out.raw(n[i]); out.raw("\""); }
	out.raw("]"); key("r"); out.raw("[");
	for (int i = 0; i < 9; i++) { if (i) out.raw(","); out.word(v[i]); }
	out.raw("]");
	out.end();
}
template <class S, class D>
static void cvt(int t, int u, size_t n, Rng &g)
{
	auto ws = words<S>(n, g);
#ifdef SEARCH
	soughtw(g, ws, [&](size_t i) { doing("cvt", t * 10 + u, (long long)ws[i]); out.word(convertfloats<S, D, FT>(ws[i])); });
#endif
	for (size_t k = 0; k < ws.size(); k += 64)
	{
		size_t m = std::min(ws.size(), k + 64);
		head("cvt"); key("t"); out.i(t); key("u"); out.i(u);
		key("a"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); out.word(ws[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = k; i < m; i++)
		{
			if (i > k) out.raw(",");
			doing("cvt", t * 10 + u, (long long)ws[i]);
			out.word(convertfloats<S, D, FT>(ws[i]));
		}
		out.raw("]");
		out.end();
	}
}
// ---- fixed point ----
template <class T, int F>
static U xin1(T x) { return U::template make_fixed<fixedtrait<T, (int)sizeof(T) * 8, F>>(x); }
template <class T, int F>
static void fixed(size_t n, Rng &g)
{
	typedef fixedtrait<T, (int)sizeof(T) * 8, F> X;
	const int N = sizeof(T) * 8;
	std::vector<T> xs = {0, 1, -1, std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), (T)(std::numeric_limits<T>::lowest() + 1)};
	for (int k = 0; k < N - 1; k++) for (int d = -1; d <= 1; d++) { xs.push_back((T)(((uint64_t)1 << k) + d)); xs.push_back((T)(-((int64_t)1 << k) + d)); }
	if (N == 8) { xs.clear(); for (int i = -128; i < 128; i++) xs.push_back((T)i); }
	for (const size_t want = std::max<size_t>(n, xs.size() + n / 2); xs.size() < want && N > 8;) { int k = 1 + g.below(N - 1); T v = (T)((1ull << (k - 1)) | (shapebits(g, k) & ((1ull << k) - 1))); xs.push_back(g.below(2) ? v : (T)-v); }
#ifdef SEARCH
	soughtw(g, xs, [&](size_t i) { doing("xin", F, (long long)xs[i]); unp(xin1<T, F>(xs[i])); });
#endif
	for (size_t k = 0; k < xs.size(); k += 64)
	{
		size_t m = std::min(xs.size(), k + 64);
		head("xin"); key("n"); out.i(N); key("f"); out.i(F);
		key("a"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); out.sint((__int128)xs[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = k; i < m; i++)
		{
			if (i > k) out.raw(",");
			doing("xin", F, (long long)xs[i]);
			if (F == 0 && N == 32 && i % 2) unp(i % 4 == 1 ? U((int)xs[i]) : int_used((int)xs[i])); else unp(xin1<T, F>(xs[i]));
		}
		out.raw("]");
		out.end();
	}
	std::vector<U> us = {U(U::Zero), U(U::NaN), U(U::Infinity, false), U(U::Infinity, true)};
	for (int e = -F - 2; e <= N - F + 2; e++)
		for (FT x : {(FT)0, (FT)1, (FT)~(FT)0, (FT)((FT)1 << (W - 1)), (FT)shapebits(g, W)})
			for (int s = 0; s < 2; s++) us.push_back(U(e, x, s != 0));
	for (const size_t want = std::max<size_t>(n, us.size() + n / 2); us.size() < want;) us.push_back(U(g.range(-F - 3, N - F + 3), (FT)shapebits(g, W), g.below(2) != 0));
	for (int j = 0; j < 20; j++) us.push_back(U(g.range(-1000000, 1000000), (FT)shapebits(g, W), g.below(2) != 0));
#ifdef SEARCH
	sought(g, us, nullptr, 1000000, [&](size_t i) { doing("xout", us[i].exponent, (long long)us[i].fraction); out.sint((__int128)us[i].template pack_xfixed<X>()); });
#endif
	for (size_t k = 0; k < us.size(); k += 64)
	{
		size_t m = std::min(us.size(), k + 64);
		head("xout"); key("n"); out.i(N); key("f"); out.i(F);
		key("a"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); unp(us[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = k; i < m; i++)
		{
			if (i > k) out.raw(",");
			doing("xout", us[i].exponent, (long long)us[i].fraction);
			if (F == 0 && N == 32 && i % 2) out.sint((int)us[i]); else out.sint((__int128)us[i].template pack_xfixed<X>());
		}
		out.raw("]");
		out.end();
	}
}

int main(int argc, char **argv)
{
	install_handlers();
	out.f = stdout;
	std::string what = "all";
	size_t n = 2000;
	uint64_t seed = 1;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--n") n = strtoull(v.c_str(), 0, 10);
		else if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--what") what = v;
	}
	Rng g(seed * 77 + W);
	if (what == "all" || what == "arith")
	{
		for (const char *op : {"uadd", "usub", "umul", "udiv", "ueq"}) pairs(op, op[1] == 'e' ? n / 4 : n, g);
		for (const char *op : {"uinv", "uneg", "ucls"}) singles(op, op[1] == 'i' ? n : n / 4, g);
		head("uconst"); key("n"); out.raw("[\"zero\",\"one\",\"nan\",\"pinf\",\"pinf\",\"ninf\"]"); key("r"); out.raw("[");
		unp(U::zero()); out.raw(","); unp(U::one()); out.raw(","); unp(U::nan()); out.raw(","); unp(U::infinity()); out.raw(",");
		unp(U::pinfinity()); out.raw(","); unp(U::ninfinity());
		out.raw("]");
		out.end();
	}
	if (what == "all" || what == "conv")
	{
#define FMT(T, TR) fin<TR>(T, n, g, in_any<TR>, 0); fin<TR>(T, n / 4, g, in_any2<TR>, 1); fout<TR>(T, n, g, out_any<TR>, 0); fout<TR>(T, n / 4, g, out_any2<TR>, 1); consts<TR>(T);
		FMT(1, single_trait) FMT(2, double_trait) FMT(3, half_trait) FMT(4, microfloat_trait) FMT(5, half_traitalt) FMT(6, bfloat16_trait)
		fin<single_trait>(1, n / 4, g, in_value<single_trait, float>, 2);
		fin<double_trait>(2, n / 4, g, in_value<double_trait, double>, 2);
		fin<half_trait>(3, n / 4, g, in_value<half_trait, halffloat>, 2);
		fin<single_trait>(1, n / 4, g, in_used<single_trait>, 3);
		fin<double_trait>(2, n / 4, g, in_used<double_trait>, 3);
		fin<half_trait>(3, n / 4, g, in_used<half_trait>, 3);
#define FMT3(T, TR) fin<TR>(T, n / 4, g, in_usedi<TR>, 4);
		FMT3(1, single_trait) FMT3(2, double_trait) FMT3(3, half_trait) FMT3(4, microfloat_trait) FMT3(5, half_traitalt) FMT3(6, bfloat16_trait)
		fout<single_trait>(1, n / 4, g, out_pack<single_trait>, 3);
		fout<double_trait>(2, n / 4, g, out_pack<double_trait>, 3);
		fout<single_trait>(1, n / 4, g, out_value<single_trait, float>, 2);
		fout<double_trait>(2, n / 4, g, out_value<double_trait, double>, 2);
		fout<half_trait>(3, n / 4, g, out_value<half_trait, halffloat>, 2);
		fixed<int8_t, 0>(n / 4, g); fixed<int8_t, 3>(n / 4, g); fixed<int8_t, 7>(n / 4, g);
		fixed<int16_t, 0>(n / 4, g); fixed<int16_t, 8>(n / 4, g); fixed<int16_t, 15>(n / 4, g);
		fixed<int32_t, 0>(n, g); fixed<int32_t, 1>(n / 4, g); fixed<int32_t, 16>(n / 4, g); fixed<int32_t, 31>(n / 4, g);
		fixed<int64_t, 0>(n / 4, g); fixed<int64_t, 32>(n / 4, g); fixed<int64_t, 63>(n / 4, g);
	}
	if (what == "all" || what == "cvt")
	{
		typedef single_trait S; typedef double_trait D; typedef half_trait H; typedef microfloat_trait M; typedef half_traitalt A; typedef bfloat16_trait B;
#define CV(T, TR) cvt<TR, S>(T, 1, n, g); cvt<TR, D>(T, 2, n, g); cvt<TR, H>(T, 3, n, g); cvt<TR, M>(T, 4, n, g); cvt<TR, A>(T, 5, n, g); cvt<TR, B>(T, 6, n, g);
		CV(1, S) CV(2, D) CV(3, H) CV(4, M) CV(5, A) CV(6, B)
	}
	out.flush();
	fflush(stdout);
	return 0;
}
