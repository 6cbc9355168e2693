// Prints numbers of the library to a stream and records what was written.
//   -DCFG_HEADER: #define CFGS X(index, T, n, es, FT, spec) / PF(index, T, n, es, FFT, spec) / HALF(index)
#include "posit.h"
#include "positf.h"
#include "float16native32.hpp"
#include "gen.hpp"
#include "decimal.hpp"
#include <iomanip>
#include <map>
#include <sstream>

static Out out;
static Rng *G;
static size_t NV = 200;

static void key(const char *k) { out.raw(",\""); out.raw(k); out.raw("\":"); }
static void head(const char *op, int c) { out.raw("{\"o\":\""); out.raw(op); out.raw("\",\"c\":"); out.i(c); }

struct Shown { std::string text; bool kept; };
// what is written, and whether the stream still formats as before
template <class V> static Shown show(const V &v, std::ios::fmtflags base, int prec, bool checkflags)
{
	std::ostringstream o;
	o << std::setprecision(prec);
	o.setf(base, std::ios::basefield);
	auto f = o.flags();
	o << v;
	bool others = true; // any other format the user may have chosen
	static const std::ios::fmtflags F[4] = {std::ios::showbase | std::ios::left | std::ios::unitbuf, std::ios::showpos | std::ios::scientific | std::ios::internal,
	                                        std::ios::uppercase | std::ios::fixed | std::ios::boolalpha, std::ios::showpoint | std::ios::right};
	static int which = 0;
	if (checkflags)
	{
		std::ostringstream q;
		q << std::setprecision(prec + 5) << std::setfill('*');
		q.flags(base | F[which++ & 3]);
		auto g = q.flags();
		q << v;
		others = q.flags() == g && q.precision() == prec + 5 && q.fill() == '*' && q.good();
	}
	Shown r = {o.str(), !checkflags || (others && o.flags() == f && o.precision() == prec && o.good())};
	return r;
}

template <class V, class MK, class W> static void all(int c, const char *op, const std::vector<W> &vs, bool sgn, MK mk, std::ios::fmtflags base, int prec, int ft, int mode, bool checkflags,
                                                       const char *pre, const char *post)
{
	for (size_t k = 0; k < vs.size(); k += 64)
	{
		size_t m = std::min(vs.size(), k + 64);
		head(op, c);
		key("p"); out.i(prec);
		key("w"); out.i(ft);
		key("a"); out.raw("[");
		for (size_t i = k; i < m; i++)
		{
			if (i > k) out.raw(",");
			if (sgn) out.sint((__int128)vs[i]);
			else out.word((unsigned __int128)vs[i]);
		}
		out.raw("]");
		std::string kept;
		key("r"); out.raw("[");
		for (size_t i = k; i < m; i++)
		{
			if (i > k) out.raw(",");
			snprintf(g_doing, sizeof g_doing, "op=%s cfg=%d a=%lld", op, c, (long long)vs[i]);
			Shown s = show<V>(mk(vs[i]), base, prec, checkflags);
			std::string t = s.text, a = pre, b = post;
			if (t.size() >= a.size() + b.size() && t.compare(0, a.size(), a) == 0 && t.compare(t.size() - b.size(), b.size(), b) == 0)
				t = t.substr(a.size(), t.size() - a.size() - b.size());
			else t = "?";
			if (mode == 0) decimal(out, t);
			else if (mode == 1) integer(out, t);
			else unpacked(out, t);
			kept += i > k ? "," : "";
			kept += s.kept ? "1" : "0";
		}
		out.raw("]");
		key("k"); out.raw("["); out.raw(kept.c_str()); out.raw("]");
		out.end();
	}
}

template <class P> static void posit(int c)
{
	typedef typename P::value_t T;
	Gen<T> g(P::vtotalbits, P::vesbits, *G);
	std::vector<T> v = g.unary(NV);
	auto mk = [](T x) { return P(typename P::DeepInit(), x); };
	int ft = sizeof(typename P::fraction_t) * 8;
	all<P>(c, "tdec", v, true, mk, std::ios::dec, 6, ft, 0, true, "", "");
	all<P>(c, "tdec", v, true, mk, std::ios::dec, 9, ft, 0, true, "", "");
	all<P>(c, "traw", v, true, mk, std::ios::hex, 6, ft, 1, true, "", "");
	all<P>(c, "tunp", v, true, mk, std::ios::oct, 6, ft, 2, true, "", "");
	// several in a row on one stream, then an integer: base changes do not leak
	typedef typename P::UnpackedT UT;
	auto mu = [](T x) { return P(typename P::DeepInit(), x).unpack(); };
	all<UT>(c, "tunp", v, true, mu, std::ios::dec, 6, ft, 2, false, "", "");
}
template <class P> static void positf(int c)
{
	typedef typename P::value_t T;
	Gen<T> g(P::vtotalbits, P::vesbits, *G);
	std::vector<T> v = g.unary(NV);
	auto mk = [](T x) { return P(typename P::DeepInit(), x); };
	all<P>(c, "tunp", v, true, mk, std::ios::dec, 6, sizeof(P(mk(0)).unpack().fraction) * 8, 2, false, "", "");
}
static void half(int c)
{
	std::vector<uint16_t> v;
	for (unsigned k = 0; k < 65536; k += NV > 60000 ? 1 : 1 + G->below((unsigned)(130000 / NV))) v.push_back((uint16_t)k);
	for (uint16_t s : {0, 1, 0x3ff, 0x400, 0x3c00, 0x7bff, 0x7c00, 0x7e00, 0x8000, 0x8001, 0xbc00, 0xfbff, 0xfc00}) v.push_back(s);
	auto mk = [](uint16_t x) { return float16n32(false, x); };
	all<float16n32>(c, "tdec", v, false, mk, std::ios::dec, 6, 0, 0, true, "f16(", ")");
	all<float16n32>(c, "tdec", v, false, mk, std::ios::dec, 9, 0, 0, true, "f16(", ")");
}

#include CFG_HEADER

int main(int argc, char **argv)
{
	install_handlers();
	out.f = stdout;
	uint64_t seed = 1;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--n") NV = strtoull(v.c_str(), 0, 10);
	}
	Rng rng(seed * 7919 + 5);
	G = &rng;
#define X(IDX, T, N, ES, FT, SPEC) posit<Posit<T, N, ES, FT, PositSpec::SPEC>>(IDX);
#define PF(IDX, T, N, ES, FFT, SPEC) positf<PositF<T, N, ES, FFT, PositSpec::SPEC>>(IDX);
#define HALF(IDX) half(IDX);
	CFGS
	out.flush();
	fflush(stdout);
	return 0;
}
