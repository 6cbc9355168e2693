// Runs random programs over a few posit registers and records the registers after every step.
#include "posit.h"
#include "gen.hpp"
#include <map>

static Out out;
static size_t g_programs = 20, g_len = 40;
static uint64_t g_seed = 1;

template <int IDX, class P>
struct Drv
{
	typedef typename P::value_t T;
	typedef typename P::UnpackedT UT;
	static const int N = P::vtotalbits, ES = P::vesbits, H = sizeof(T) * 8;
	static const bool wide = H >= 32;
	enum { NR = 4 };

	static P mk(T x) { return P(typename P::DeepInit(), x); }
	static void pat(T x)
	{
		if (wide) out.sint((__int128)x);
		else out.i((long long)x);
	}
	static void regs(const P *r)
	{
		out.raw("[");
		for (int i = 0; i < NR; i++) { if (i) out.raw(","); pat(r[i].v); }
		out.raw("]");
	}
	static bool ordered(const P *r)
	{
		for (int i = 0; i < NR; i++)
			if (r[i].isNaN() || (!P::withnan && r[i].isinfinity())) return false;
		return true;
	}
	static void program(Rng &g)
	{
		Gen<T> gen(N, ES, g);
		P r[NR];
		for (int i = 0; i < NR; i++) r[i] = mk(gen.any());
		out.raw("{\"o\":\"prog\",\"c\":"); out.i(IDX);
		out.raw(",\"i\":"); regs(r);
		out.raw(",\"s\":[");
		static const char *ops[] = {"add", "add", "add", "sub", "sub", "sub", "mul", "mul", "mul", "div", "div", "fma", "fma", "min", "max",
		                            "neg", "abs", "inv", "half", "twice", "next", "prev", "copy", "pack", "swap", "sort", "f32", "f64",
		                            "zero", "one", "mone", "maxpos", "minpos", "lowest", "nan", "inf"};
		const int NOPS = sizeof(ops) / sizeof(ops[0]);
		for (size_t k = 0; k < g_len; k++)
		{
			// loading a constant is rare
			std::string o = ops[g.below(8) ? g.below(NOPS - 8) : g.below(NOPS)];
			int d = g.below(NR), a = g.below(NR), b = g.below(NR), e = g.below(NR), form = g.below(2);
			if (g.below(3) == 0) d = a;           // x = x op y, x op= y
			snprintf(g_doing, sizeof g_doing, "op=%s cfg=%d n=%d es=%d a=%lld b=%lld c=%lld", o.c_str(), IDX, N, ES, (long long)r[a].v, (long long)r[b].v, (long long)r[e].v);
			uint64_t f = 0;
			if (o == "sort" && !ordered(r)) o = "copy";
			// an unlucky NaN must not swallow the rest of the program
			if (r[d].isNaN() && g.below(3) == 0) { o = "one"; }
			if (o == "add") { if (d == a && form) r[d] += r[b]; else r[d] = r[a] + r[b]; }
			else if (o == "sub") r[d] = r[a] - r[b];
			else if (o == "mul") { if (d == a && form) r[d] *= r[b]; else r[d] = r[a] * r[b]; }
			else if (o == "div") { if (d == a && form) r[d] /= r[b]; else r[d] = r[a] / r[b]; }
			else if (o == "fma") r[d] = fma(r[a], r[b], r[e]);
			else if (o == "min") r[d] = std::min(r[a], r[b]);
			else if (o == "max") r[d] = std::max(r[a], r[b]);
			else if (o == "neg") r[d] = -r[a];
			else if (o == "abs") r[d] = r[a].abs();
			else if (o == "inv") r[d] = r[a].inv();
			else if (o == "half") r[d] = r[a].half();
			else if (o == "twice") r[d] = r[a].twice();
			else if (o == "next") r[d] = r[a].next();
			else if (o == "prev") r[d] = r[a].prev();
			else if (o == "copy") { if (form) { P t(r[a]); r[d] = t; } else r[d] = r[a]; }
			else if (o == "pack") { UT u = r[a].unpack(); r[d] = P(u); }
			else if (o == "swap") std::swap(r[d], r[a]);
			else if (o == "sort") std::sort(r, r + NR);
			else if (o == "f32") { float x = (float)r[a]; uint32_t w; memcpy(&w, &x, 4); f = w; r[d] = P(x); }
			else if (o == "f64") { double x = (double)r[a]; memcpy(&f, &x, 8); r[d] = P(x); }
			else if (o == "zero") r[d] = P::zero();
			else if (o == "one") r[d] = P::one();
			else if (o == "mone") r[d] = P::mone();
			else if (o == "maxpos") r[d] = P::max();
			else if (o == "minpos") r[d] = P::min();
			else if (o == "lowest") r[d] = P::lowest();
			else if (o == "nan") r[d] = P::nan();
			else if (o == "inf") r[d] = P::inf();
			if (k) out.raw(",");
			out.raw("{\"o\":\"");
			out.raw(o.c_str());
			out.raw("\",\"d\":"); out.i(d + 1);
			out.raw(",\"a\":"); out.i(a + 1);
			out.raw(",\"b\":"); out.i(b + 1);
			out.raw(",\"e\":"); out.i(e + 1);
			if (o == "f32" || o == "f64") { out.raw(",\"f\":"); out.word(f); }
			out.raw(",\"q\":"); regs(r);
			out.raw("}");
		}
		out.raw("]");
		out.end();
	}
	static void run()
	{
		Rng g(g_seed * 7919 + IDX);
		for (size_t i = 0; i < g_programs; i++) program(g);
	}
};

#include CFG_HEADER

int main(int argc, char **argv)
{
	install_handlers();
	out.f = stdout;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i];
		if (k == "--seed") g_seed = strtoull(argv[i + 1], 0, 10);
		else if (k == "--programs") g_programs = strtoull(argv[i + 1], 0, 10);
		else if (k == "--len") g_len = strtoull(argv[i + 1], 0, 10);
	}
#define X(IDX, T, N, ES, FT, SPEC) Drv<IDX, Posit<T, N, ES, FT, PositSpec::SPEC>>::run();
	CFGS
	out.flush();
	fflush(stdout);
	return 0;
}
