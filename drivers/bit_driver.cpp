// Calls the bit helpers everything else is built on, and records every call.
#include <cmath>
#include "bithippop.hpp"
#include "typehelpers.hpp"
#if __cplusplus >= 201703L
#include "floatconst2bits.hpp"
#endif
#include "emit.hpp"

static Out out;
static Rng *G;
static size_t NV = 200;

static uint64_t shaped(int k)
{
	uint64_t m = k >= 64 ? ~0ull : ((1ull << k) - 1);
	switch (G->below(8))
	{
	case 0: return 0;
	case 1: return m;
	case 2: return 1;
	case 3: return (1ull << G->below(k)) & m;
	case 4: return (m << G->below(k)) & m;
	case 5: return (m >> G->below(k)) & m;
	default: return (G->next() & m) >> G->below(k);
	}
}
static std::vector<uint64_t> vals(int k)
{
	std::vector<uint64_t> r;
	if (k == 8) for (int i = 0; i < 256; i++) r.push_back(i);
	else
	{
		r = {0, 1, 2, k >= 64 ? ~0ull : (1ull << k) - 1};
		for (int i = 0; i < k; i++) { r.push_back(1ull << i); r.push_back((1ull << i) - 1); r.push_back((k >= 64 ? ~0ull : (1ull << k) - 1) ^ (1ull << i)); }
		while (r.size() < NV) r.push_back(shaped(k));
	}
	return r;
}
// one row: operation, parameters p, operands a (and b), results
template <class F> static void row(const char *op, std::vector<int> p, const std::vector<uint64_t> &a, const std::vector<uint64_t> &b, F f)
{
	snprintf(g_doing, sizeof g_doing, "op=%s p=%d,%d,%d,%d", op, p.size() > 0 ? p[0] : 0, p.size() > 1 ? p[1] : 0, p.size() > 2 ? p[2] : 0, p.size() > 3 ? p[3] : 0);
	out.raw("{\"o\":\""); out.raw(op); out.raw("\",\"p\":[");
	for (size_t i = 0; i < p.size(); i++) { if (i) out.raw(","); out.i(p[i]); }
	out.raw("],\"a\":[");
	for (size_t i = 0; i < a.size(); i++) { if (i) out.raw(","); out.word(a[i]); }
	if (!b.empty())
	{
		out.raw("],\"b\":[");
		for (size_t i = 0; i < a.size(); i++) { if (i) out.raw(","); out.word(b[i]); }
	}
	out.raw("],\"r\":[");
	for (size_t i = 0; i < a.size(); i++) { if (i) out.raw(","); out.word(f(a[i], b.empty() ? 0 : b[i])); }
	out.raw("]");
	out.end();
}
static const std::vector<uint64_t> NONE;

template <class T, int O, int S> static void getT()
{
	const int w = sizeof(T) * 8;
	std::vector<uint64_t> v = vals(w), u;
	for (size_t i = 0; i < v.size(); i++) u.push_back(shaped(w));
	row("get", {w, O, S}, v, NONE, [](uint64_t x, uint64_t) { return (uint64_t)bitset_get<T, O, S>((T)x); });
	row("get", {w, O, S}, v, NONE, [](uint64_t x, uint64_t) { T y = (T)x; return (uint64_t)(T)bitset_getT(y, O, S); });
	row("part", {w, O, S}, v, u, [](uint64_t x, uint64_t y) { return (uint64_t)bitset_part<T, T, O, S>((T)x, (T)y); });
	row("get", {w, w - S, S}, v, NONE, [](uint64_t x, uint64_t) { return (uint64_t)bitset_leftmost_get_const<T, S>()((T)x); });
	row("get", {w, w - S, S}, v, NONE, [](uint64_t x, uint64_t) { return (uint64_t)bitset_msb<T, S>((T)x).to_ullong(); });
	row("get", {w, 0, S}, v, NONE, [](uint64_t x, uint64_t) { return (uint64_t)bitset_lsb<T, S>((T)x).to_ullong(); });
}
// evaluated by the compiler
template <class T> struct const_masks { static constexpr T none = bitmask<T>(0), one = bitmask<T>(1), all = bitmask<T>(sizeof(T) * 8); };
template <class T> static void dynamic()
{
	const int w = sizeof(T) * 8;
	std::vector<uint64_t> v = vals(w), u, z;
	for (size_t i = 0; i < v.size(); i++) u.push_back(shaped(w));
	for (uint64_t x : v) if (x) z.push_back(x);
	row("clz", {w}, z, NONE, [](uint64_t x, uint64_t) { return (uint64_t)findbitleftmostC((T)x); });
	for (int o = 0; o < w; o += w > 16 ? 1 + G->below(5) : 1)
		for (int s = 0; s + o <= w; s += w > 16 ? 1 + G->below(7) : 1)
		{
			row("get", {w, o, s}, v, NONE, [&](uint64_t x, uint64_t) { return (uint64_t)(bitset_get)((T)x, o, s); });
			row("part", {w, o, s}, v, u, [&](uint64_t x, uint64_t y) { return (uint64_t)bitset_part((T)x, (T)y, o, s); });
		}
	std::vector<uint64_t> ks;
	for (int k = 0; k <= w; k++) ks.push_back(k);
	row("mask", {w}, ks, NONE, [](uint64_t k, uint64_t) { return (uint64_t)bitmask<T>((unsigned)k); });
	{
		uint64_t q[3] = {const_masks<T>::none, const_masks<T>::one, const_masks<T>::all};
		row("mask", {w}, {0, 1, (uint64_t)w}, NONE, [&](uint64_t k, uint64_t) { return q[k < 2 ? k : 2]; });
	}
	typedef typename std::make_signed<T>::type S;
	std::vector<uint64_t> n;
	for (uint64_t x : v) if (x != 1ull << (w - 1)) n.push_back(x);
	row("abs", {w}, n, NONE, [](uint64_t x, uint64_t) { return (uint64_t)(T)pcabs((S)(T)x); });
	row("abs", {w}, n, NONE, [](uint64_t x, uint64_t) { return (uint64_t)(T)pabs((S)(T)x); });
}
template <class A, int AB, class B, int BB> static void cast()
{
	// left aligned bits move between words of AB and BB bits; the operand has AB bits
	std::vector<uint64_t> v = vals(AB == 64 ? 64 : AB), big = vals((int)sizeof(A) * 8);
	for (uint64_t &x : v) if (AB < 64) x &= (1ull << AB) - 1;
	if (sizeof(A) * 8 == AB) row("cast", {AB, BB}, v, NONE, [](uint64_t x, uint64_t) { return (uint64_t)cast_msb<A, AB, B, BB>()((A)x); });
	row("cast", {AB, BB}, big, NONE, [](uint64_t x, uint64_t) { return (uint64_t)cast_right_to_left<A, AB, B, BB>()((A)x); });
}

int main(int argc, char **argv)
{
	install_handlers();
	out.f = stdout;
	uint64_t seed = 1;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--n") NV = strtoull(v.c_str(), 0, 10);
	}
	Rng rng(seed * 31337 + 11);
	G = &rng;
	dynamic<uint8_t>(); dynamic<uint16_t>(); dynamic<uint32_t>(); dynamic<uint64_t>();
#define GETS(T) getT<T, 0, 1>(); getT<T, 0, 5>(); getT<T, 1, 3>(); getT<T, 2, 5>(); getT<T, 3, 4>(); getT<T, 7, 1>(); getT<T, 0, 7>(); getT<T, 0, 8>();
#define GETS16(T) GETS(T) getT<T, 8, 8>(); getT<T, 2, 10>(); getT<T, 15, 1>(); getT<T, 10, 5>(); getT<T, 0, 16>();
#define GETS32(T) GETS16(T) getT<T, 23, 8>(); getT<T, 0, 23>(); getT<T, 16, 16>(); getT<T, 31, 1>(); getT<T, 0, 31>(); getT<T, 0, 32>();
#define GETS64(T) GETS32(T) getT<T, 52, 11>(); getT<T, 0, 52>(); getT<T, 32, 32>(); getT<T, 63, 1>(); getT<T, 0, 63>(); getT<T, 0, 64>(); getT<T, 20, 33>();
	GETS(uint8_t) GETS16(uint16_t) GETS32(uint32_t) GETS64(uint64_t)
#define CASTS(A, AB) cast<A, AB, uint8_t, 8>(); cast<A, AB, uint16_t, 16>(); cast<A, AB, uint32_t, 32>(); cast<A, AB, uint64_t, 64>();
	CASTS(uint8_t, 8) CASTS(uint16_t, 16) CASTS(uint32_t, 32) CASTS(uint64_t, 64)
	CASTS(uint32_t, 23) CASTS(uint64_t, 52) CASTS(uint16_t, 10) CASTS(uint16_t, 7) CASTS(uint8_t, 2)
#if __cplusplus >= 201703L
	std::vector<uint64_t> f;
	for (uint64_t e = 0; e < 256; e++)
		for (int k = 0; k < 12; k++) f.push_back((uint64_t)G->below(2) << 31 | e << 23 | shaped(23));
	for (int k = 0; k < 23; k++) { f.push_back(1ull << k); f.push_back(0x80000000ull | ((1ull << k) - 1)); }
	for (uint64_t x : {0x7f800000ull, 0xff800000ull, 0x7fc00000ull, 0x7f800001ull, 0ull, 0x80000000ull, 0x3f800000ull}) f.push_back(x);
	for (size_t k = 0; k < f.size(); k += 256)
		row("fbits", {32}, std::vector<uint64_t>(f.begin() + k, f.begin() + std::min(f.size(), k + 256)), NONE, [](uint64_t x, uint64_t) {
			uint32_t w = (uint32_t)x;
			float y;
			memcpy(&y, &w, 4);
			return (uint64_t)float2bits(y);
		});
	row("lz64", {64}, [] { std::vector<uint64_t> r; for (uint64_t x : vals(64)) if (x) r.push_back(x); return r; }(), NONE,
	    [](uint64_t x, uint64_t) { return (uint64_t)count_leading_zeroes(x); });
#endif
	out.flush();
	fflush(stdout);
	return 0;
}
