// Results computed by the compiler (C++14 constant evaluation) of the operations that allow it.
#include "posit.h"
#include "emit.hpp"
#include <utility>

static Out out;
template <class P> struct Tab
{
	static const int M = 1 << P::vtotalbits;
	int r[M];
	constexpr Tab() : r() {}
};
enum Op { HALF, TWICE, ABS, NEXT, PREV, SAME, SAMELOW, INTO, PSIG, INTI };
template <class P> constexpr int one(int op, int i)
{
	typedef typename P::value_t T;
	P x(typename P::DeepInit(), (T)i);
	switch (op)
	{
	case HALF: return x.half().v;
	case TWICE: return x.twice().v;
	case ABS: return x.abs().v;
	case NEXT: return x.next().v;
	case PREV: return x.prev().v;
	case SAME: return P(x.unpack()).v;
	case SAMELOW: return P(x.unpack_low()).v;
	case INTO: return (int)x;
	case PSIG: return x.pseudosigmoid().v;
	default: return P(i * 37).v;
	}
}
template <class P, int OP> constexpr Tab<P> make()
{
	Tab<P> t;
	for (int i = 0; i < Tab<P>::M; i++) t.r[i] = one<P>(OP, i - Tab<P>::M / 2);
	return t;
}
template <class P, int OP> static void row(int c, const char *name)
{
	constexpr Tab<P> t = make<P, OP>();
	const int M = Tab<P>::M, L = M < 128 ? M : 128;
	for (int k = 0; k < M; k += L)
	{
		out.raw("{\"o\":\""); out.raw(name); out.raw("\",\"c\":"); out.i(c);
		out.raw(",\"a\":[");
		for (int i = k; i < k + L; i++)
		{
			if (i > k) out.raw(",");
			if (OP == INTI) out.sint((i - M / 2) * 37);
			else out.i(i - M / 2);
		}
		out.raw("],\"r\":[");
		for (int i = k; i < k + L; i++)
		{
			if (i > k) out.raw(",");
			if (OP == INTO) out.sint(t.r[i]);
			else out.i(t.r[i]);
		}
		out.raw("]");
		out.end();
	}
}
template <class P> static void go(int c)
{
	row<P, HALF>(c, "half"); row<P, TWICE>(c, "twice"); row<P, ABS>(c, "abs"); row<P, NEXT>(c, "next"); row<P, PREV>(c, "prev");
	row<P, SAME>(c, "same"); row<P, SAMELOW>(c, "same"); row<P, INTO>(c, "into"); row<P, PSIG>(c, "psig"); row<P, INTI>(c, "inti");
}
#include CFG_HEADER
int main()
{
	out.f = stdout;
#define X(IDX, T, N, ES, FT, SPEC) go<Posit<T, N, ES, FT, PositSpec::SPEC>>(IDX);
	CFGS
	out.flush();
	fflush(stdout);
	return 0;
}
