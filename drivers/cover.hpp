// What the code under test reached: edges taken, and distances between the values it compared. The callbacks of clang's
// -fsanitize-coverage=trace-pc-guard,trace-cmp; they must call nothing that is instrumented.
#pragma once
#include <cstdint>
#include <cstring>
#define NOCOV __attribute__((no_sanitize("coverage")))

namespace cover
{
static bool on = false;
static unsigned fresh = 0, strong = 0, guards = 0;
static const unsigned FEATURES = 1u << 22;
static uint8_t seen[FEATURES];
static uint64_t pool[1024];
static unsigned filled = 0;
static void anchor() {}

NOCOV static inline void feature(uint64_t h, bool hard)
{
	uint8_t &s = seen[h % FEATURES];
	if (!s) { s = 1; fresh++; strong += hard; }
}
NOCOV static inline void compared(uint64_t pc, uint64_t a, uint64_t b)
{
	if (!on) return;
	pool[filled++ % 1024] = a;
	pool[filled++ % 1024] = b;
	uint64_t d = a > b ? a - b : b - a, k = pc * 0x9E3779B97F4A7C15ull >> 20;
	feature(k + __builtin_popcountll(a ^ b), a == b);
	feature(k + 100 + (d ? 64 - __builtin_clzll(d) : 0), false);
	if (d < 16) feature(k + 200 + d + (a < b ? 16 : 0), d == 1);
}
}
#define PC ((uint64_t)__builtin_return_address(0) - (uint64_t)(uintptr_t)&cover::anchor)
extern "C"
{
NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; a++) if (!*a) *a = ++cover::guards; }
NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (cover::on) cover::feature(*g * 0x61C8864680B583EBull >> 30, true); }
NOCOV void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cover::compared(PC, a, b); }
NOCOV void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cover::compared(PC, a, b); }
NOCOV void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cover::compared(PC, a, b); }
NOCOV void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cover::compared(PC, a, b); }
NOCOV void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cover::compared(PC, a, b); }
NOCOV void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cover::compared(PC, a, b); }
NOCOV void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cover::compared(PC, a, b); }
NOCOV void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cover::compared(PC, a, b); }
NOCOV void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) { for (uint64_t i = 0; i < c[0] && i < 64; i++) cover::compared(PC + i, v, c[2 + i]); }
}


#ifdef SEARCH
// Looks for operands (up to six words) with which `eval` reaches something new, starting from those given; `fit` brings the words into the domain.
#include <array>
#include <set>
#include <vector>
namespace cover
{
typedef std::array<uint64_t, 6> Words;
template <class R, class Fit, class Eval>
static std::vector<Words> search(R &r, int k, const std::vector<Words> &start, size_t tries, size_t keep, Fit fit, Eval eval)
{
	memset(seen, 0, sizeof seen);
	std::vector<Words> corpus, hard;
	auto vary = [&](Words &x) {
		for (int n = 1 + (int)r.below(3); n > 0; n--)
		{
			uint64_t &w = x[r.below(k)], v = x[r.below(k)], p = pool[r.below(1024)];
			switch (r.below(12))
			{
			case 0: case 1: case 2: w ^= 1ull << r.below(r.below(2) ? 16 : 64); break;
			case 3: w += r.range(-4, 4); break;
			case 4: w = p; break;
			case 5: w = r.below(2) ? p << r.below(64) : p >> r.below(64); break;
			case 6: w = v; break;
			case 7: w = 0 - v; break;
			case 8: w = r.next() >> r.below(64); break;
			case 9: w = (w & ~0ull << r.below(64)) | (start.empty() ? 0 : start[r.below((unsigned)start.size())][r.below(k)]); break;
			case 10: if (!start.empty()) x = start[r.below((unsigned)start.size())]; break;
			default: w = r.below(2) ? v << 1 : v >> 1; break;
			}
		}
	};
	for (size_t n = 0; n < tries; n++)
	{
		Words x = {{0, 0, 0, 0, 0, 0}};
		if (n < start.size()) x = start[n];
		else if (corpus.empty()) vary(x);
		else
		{
			size_t m = corpus.size();
			x = corpus[r.below(2) ? r.below((unsigned)m) : m - 1 - r.below((unsigned)(m < 20 ? m : 20))];
			vary(x);
		}
		fit(x);
		fresh = strong = 0;
		eval(x);
		on = false;
		if (fresh) corpus.push_back(x);
		if (strong) hard.push_back(x);
	}
	std::set<Words> got;
	// found late first: these took most steps
	for (size_t n = hard.size(); n-- > 0 && got.size() < keep * 2 / 3;)
	{
		got.insert(hard[n]);
		for (int v = 0; v < 2; v++) { Words y = hard[n]; vary(y); fit(y); got.insert(y); }
	}
	for (size_t n = 0; n < keep && corpus.size(); n++) got.insert(corpus[r.below((unsigned)corpus.size())]);
	return std::vector<Words>(got.begin(), got.end());
}
}
#endif
