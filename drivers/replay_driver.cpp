// Replays behaviours generated from the specification (spec/ProgGen.tla) into the library.
//   P <config> <r1> <r2> <r3> <r4>
//   S <op> <d> <a> <b> <i> <pattern to go on with>
// The registers found after every step are printed; lib/engine.py compares them with the allowed ones.
#include "posit.h"
#include "gen.hpp"
#include <fstream>
#include <sstream>

static Out out;

struct Step
{
	std::string o;
	int d, a, b;
	long long i, next;
};
struct Prog
{
	int c, id;
	long long r[4];
	std::vector<Step> s;
};
static std::vector<Prog> progs;

template <int IDX, class P>
struct Drv
{
	typedef typename P::value_t T;
	typedef typename P::UnpackedT UT;
	enum { NR = 4 };
	static P mk(T x) { return P(typename P::DeepInit(), x); }
	static void one(const Prog &p)
	{
		P r[NR];
		for (int i = 0; i < NR; i++) r[i] = mk((T)p.r[i]);
		out.raw("{\"o\":\"replay\",\"p\":"); out.i(p.id);
		out.raw(",\"g\":[");
		for (size_t k = 0; k < p.s.size(); k++)
		{
			const Step &s = p.s[k];
			const std::string &o = s.o;
			const int d = s.d - 1, a = s.a - 1, b = s.b - 1;
			snprintf(g_doing, sizeof g_doing, "op=%s cfg=%d a=%lld b=%lld", o.c_str(), IDX, (long long)r[a].v, (long long)r[b].v);
			if (o == "add") { if (d == a) r[d] += r[b]; else r[d] = r[a] + r[b]; }
			else if (o == "sub") r[d] = r[a] - r[b];
			else if (o == "mul") { if (d == a) r[d] *= r[b]; else r[d] = r[a] * r[b]; }
			else if (o == "div") { if (d == a) r[d] /= r[b]; else r[d] = r[a] / r[b]; }
			else if (o == "min") r[d] = std::min(r[a], r[b]);
			else if (o == "max") r[d] = std::max(r[a], r[b]);
			else if (o == "neg") r[d] = -r[a];
			else if (o == "abs") r[d] = r[a].abs();
			else if (o == "inv") r[d] = r[a].inv();
			else if (o == "half") r[d] = r[a].half();
			else if (o == "twice") r[d] = r[a].twice();
			else if (o == "next") r[d] = r[a].next();
			else if (o == "prev") r[d] = r[a].prev();
			else if (o == "copy") r[d] = r[a];
			else if (o == "pack") { UT u = r[a].unpack(); r[d] = P(u); }
			else if (o == "swap") std::swap(r[d], r[a]);
			else if (o == "int") r[d] = P((int)s.i);
			else if (o == "zero") r[d] = P::zero();
			else if (o == "one") r[d] = P::one();
			else if (o == "mone") r[d] = P::mone();
			else if (o == "maxpos") r[d] = P::max();
			else if (o == "minpos") r[d] = P::min();
			else if (o == "lowest") r[d] = P::lowest();
			else if (o == "nan") r[d] = P::nan();
			else if (o == "inf") r[d] = P::inf();
			else { fprintf(stderr, "unknown step %s\n", o.c_str()); exit(3); }
			if (k) out.raw(",");
			out.raw("[");
			for (int i = 0; i < NR; i++) { if (i) out.raw(","); out.i((long long)r[i].v); }
			out.raw("]");
			r[d] = mk((T)s.next);            // the behaviour's own choice among the allowed ones
		}
		out.raw("]");
		out.end();
	}
	static void run()
	{
		for (size_t i = 0; i < progs.size(); i++)
			if (progs[i].c == IDX) one(progs[i]);
	}
};

#include CFG_HEADER

int main(int argc, char **argv)
{
	install_handlers();
	out.f = stdout;
	if (argc < 2) return 3;
	std::ifstream f(argv[1]);
	std::string line;
	int id = 0;
	while (std::getline(f, line))
	{
		std::istringstream in(line);
		char t;
		in >> t;
		if (t == 'P')
		{
			Prog p;
			p.id = id++;
			in >> p.c >> p.r[0] >> p.r[1] >> p.r[2] >> p.r[3];
			progs.push_back(p);
		}
		else
		{
			Step s;
			in >> s.o >> s.d >> s.a >> s.b >> s.i >> s.next;
			progs.back().s.push_back(s);
		}
		if (!in) return 3;
	}
#define X(IDX, T, N, ES, FT, SPEC) Drv<IDX, Posit<T, N, ES, FT, PositSpec::SPEC>>::run();
	CFGS
	out.flush();
	fflush(stdout);
	return 0;
}
