// Calls the public operations of Posit<T,N,ES,FT,spec> and records every call.
// The configurations come from the generated header CFG_HEADER: lines
//    X(index, T, N, ES, FT, spec)
#include "posit.h"
#include "gen.hpp"
#include <map>
#ifndef GROUPS
#define GROUPS 63
#endif

struct Opts
{
	std::vector<std::string> ops;
	size_t pairs = 4096, unary = 512;
	uint64_t seed = 1;
};

static Out out;

template <class T> using U = typename std::make_unsigned<T>::type;

template <int IDX, class P>
struct Drv
{
	typedef typename P::value_t T;
	typedef typename P::fraction_t FT;
	typedef typename P::UnpackedT UT;
	typedef typename P::UnpackedLow UL;
	typedef typename P::PT PT;
	static const int N = P::vtotalbits, ES = P::vesbits, H = sizeof(T) * 8;
	static const bool wide = H >= 32;

	static P mk(T x) { return P(typename P::DeepInit(), x); }
	static void pat(T x)
	{
		if (wide) out.sint((__int128)x);
		else out.i((long long)x);
	}
	static void key(const char *k)
	{
		out.raw(",\"");
		out.raw(k);
		out.raw("\":");
	}
	static void head(const std::string &op)
	{
		out.raw("{\"o\":\"");
		out.raw(op.c_str());
		out.raw("\",\"c\":");
		out.i(IDX);
	}
	static void doing(const std::string &op, __int128 a, __int128 b = 0, __int128 c = 0)
	{
		snprintf(g_doing, sizeof g_doing, "op=%s cfg=%d n=%d es=%d a=%lld b=%lld c=%lld", op.c_str(), IDX, N, ES,
		         (long long)a, (long long)b, (long long)c);
	}

	// forms: the ways the public interface offers the same operation
	static T bin(const std::string &op, int form, T a, T b)
	{
		P x = mk(a), y = mk(b);
		if (op == "add")
		{
			if (form % 2) { x += y; return x.v; }
			return (x + y).v;
		}
		if (op == "sub")
			return form % 2 ? (x + (-y)).v : (x - y).v;
		if (op == "mul")
		{
			if (form % 2) { x *= y; return x.v; }
			P r = x * y;
			return r.v;
		}
		if (op == "div")
		{
			if (form % 2) { x /= y; return x.v; }
			return (x / y).v;
		}
		if (op == "min") return std::min(x, y).v;
		if (op == "max") return std::max(x, y).v;
		abort();
	}
	static int cmp(T a, T b)
	{
		P x = mk(a), y = mk(b);
		return (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5;
	}
	static void binrow(const std::string &op, int form, T a, const std::vector<T> &bs)
	{
		head(op);
		key("f"); out.i(form);
		key("a"); pat(a);
		key("b"); out.raw("[");
		for (size_t i = 0; i < bs.size(); i++) { if (i) out.raw(","); pat(bs[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = 0; i < bs.size(); i++)
		{
			if (i) out.raw(",");
			doing(op, a, bs[i]);
			if (op == "cmp") out.i(cmp(a, bs[i]));
			else pat(bin(op, form, a, bs[i]));
		}
		out.raw("]");
		out.end();
	}
	static void binary(const std::string &op, const Opts &o, Gen<T> &g)
	{
		int form = 0;
		if (N <= 12 && ((size_t)1 << (2 * N)) <= o.pairs)
		{
			std::vector<T> all = g.all();
			for (T a : all)
				for (size_t k = 0; k < all.size(); k += 256)
					binrow(op, form++, a, std::vector<T>(all.begin() + k, all.begin() + std::min(all.size(), k + 256)));
			return;
		}
		size_t done = 0;
		unsigned ns = Gen<T>::nspecial();
		std::vector<T> sp;
		for (unsigned k = 0; k < ns; k++) sp.push_back(g.special(k));
		for (unsigned k = 0; k < ns && done * 2 < o.pairs; k++)
		{
			std::vector<T> b = sp;
			for (int j = 0; j < 8; j++) b.push_back(g.partner(sp[k]));
			binrow(op, form++, sp[k], b);
			done += b.size();
		}
		while (done < o.pairs)
		{
			T a = g.any();
			std::vector<T> b;
			for (int j = 0; j < 32; j++) b.push_back(g.partner(a));
			binrow(op, form++, a, b);
			done += b.size();
		}
	}

	static T un(const std::string &op, int form, T a)
	{
		P x = mk(a);
		if (op == "neg") return form % 3 == 0 ? (-x).v : form % 3 == 1 ? x.neg().v : neg(x).v;
		if (op == "abs") return form % 2 ? std::abs(x).v : x.abs().v;
		if (op == "inv") return form % 3 == 0 ? (~x).v : form % 3 == 1 ? x.inv().v : inv(x).v;
		if (op == "half") return x.half().v;
		if (op == "twice") return x.twice().v;
		if (op == "next") return x.next().v;
		if (op == "prev") return x.prev().v;
		if (op == "psig") return x.pseudosigmoid().v;
		if (op == "psof") return x.pseudosoftplus().v;
		if (op == "ur1m") return x.urOneMinus().v;
		if (op == "urdp") return x.urDeltaPs().v;
		if (op == "same")           // unpack then pack again, in the ways offered
			switch (form % 4)
			{
			case 0: return P(x.unpack()).v;
			case 1: return P(x.unpack_low()).v;
			case 2: return P::pack_low(P::unpacked_full2low(P::unpacked_low2full(x.unpack_low()))).v;
			default: { UT u = x; return P(u).v; }
			}
		abort();
	}
	static void unp(const UT &u)
	{
		out.raw("[");
		out.i((int)u.type); out.raw(",");
		out.i(u.negativeSign ? 1 : 0); out.raw(",");
		out.ci((long long)u.exponent);
		out.limbs((unsigned __int128)u.fraction, false);
		out.raw("]");
	}
	static void unl(const UL &u)
	{
		out.raw("[");
		out.i((int)u.type); out.raw(",");
		out.i(u.negativeSign ? 1 : 0); out.raw(",");
		out.ci((long long)u.regime); out.raw(",");
		out.ci((long long)u.exp);
		out.limbs((unsigned __int128)u.fraction, false);
		out.raw("]");
	}
	static void f32w(float f) { uint32_t u; memcpy(&u, &f, 4); out.word(u); }
	static void f64w(double f) { uint64_t u; memcpy(&u, &f, 8); out.word(u); }

	static void unres(const std::string &op, int form, T a)
	{
		P x = mk(a);
		doing(op, a);
		if (op == "cls")
			out.i(x.isNaN() | x.isinfinity() << 1 | x.iszero() << 2 | x.isnegative() << 3 | x.isone() << 4 |
			      x.hasNaN() << 5 | x.isUnitRange() << 6);
		else if (op == "anl")
		{
			auto i = x.analyze();
			out.raw("[");
			long long q[9] = {i.nan, i.infinity, i.sign, i.k, i.rs, i.es, i.fs, i.exp, i.exponent};
			for (int k = 0; k < 9; k++) { if (k) out.raw(","); out.ci(q[k]); }
			out.limbs((unsigned __int128)i.ifraction, false);
			out.raw("]");
		}
		else if (op == "unpk")
		{
			UT u = x;
			unp(form % 3 == 0 ? x.unpack() : form % 3 == 1 ? P::unpacked_low2full(x.unpack_low()) : u);
		}
		else if (op == "unlo")
			unl(x.unpack_low());
		else if (op == "f32o")
		{
			if (form % 2) out.word(x.as_float_bin());
			else f32w((float)x);
		}
		else if (op == "f64o") f64w((double)x);
		else if (op == "into") out.sint((int)x);
		else pat(un(op, form, a));
	}
	static void unrow(const std::string &op, int form, const std::vector<T> &as)
	{
		head(op);
		key("f"); out.i(form);
		key("a"); out.raw("[");
		for (size_t i = 0; i < as.size(); i++) { if (i) out.raw(","); pat(as[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = 0; i < as.size(); i++) { if (i) out.raw(","); unres(op, form, as[i]); }
		out.raw("]");
		out.end();
	}
	static void unary(const std::string &op, const Opts &o, Gen<T> &g)
	{
		std::vector<T> as = g.unary(o.unary);
		if (op == "ur1m" || op == "urdp")
		{
			std::vector<T> q;
			for (T a : as)
				if (a >= 0 && a <= PT::POSIT_ONE) q.push_back(a);
			as = q;
		}
		int forms = op == "same" ? 4 : op == "neg" || op == "inv" || op == "unpk" ? 3 : op == "abs" || op == "f32o" ? 2 : 1;
		for (int form = 0; form < forms; form++)
			for (size_t k = 0; k < as.size(); k += 128)
				unrow(op, form, std::vector<T>(as.begin() + k, as.begin() + std::min(as.size(), k + 128)));
	}

	// ---- values that come from outside ----
	static uint64_t shapebits(Rng &g, int k)
	{
		uint64_t m = k >= 64 ? ~0ull : ((1ull << k) - 1);
		switch (g.below(7))
		{
		case 0: return 0;
		case 1: return m;
		case 2: return 1;
		case 3: return (1ull << g.below(k)) & m;
		case 4: return (m << g.below(k)) & m;
		case 5: return (m >> g.below(k)) & m;
		default: return g.next() & m;
		}
	}
	template <class F, class W> static T fromfloat(int form, W w)
	{
		F v;
		memcpy(&v, &w, sizeof v);
		if (form == 1) return P(typename P::single_tag(), (uint32_t)w).v;
		return P(v).v;
	}
	template <class F, class W> static void floatrow(const std::string &op, int form, const std::vector<W> &ws)
	{
		head(op);
		key("f"); out.i(form);
		key("a"); out.raw("[");
		for (size_t i = 0; i < ws.size(); i++) { if (i) out.raw(","); out.word(ws[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = 0; i < ws.size(); i++)
		{
			if (i) out.raw(",");
			doing(op, ws[i]);
			pat(fromfloat<F, W>(form, ws[i]));
		}
		out.raw("]");
		out.end();
	}
	template <class F, class W, int EB, int FB>
	static void floatin(const std::string &op, const Opts &o, Gen<T> &g)
	{
		std::vector<W> ws;
		const W emax = ((W)1 << EB) - 1, sg = (W)1 << (EB + FB), bias = emax >> 1;
		const W sp[] = {0, sg, 1, (W)(sg | 1), (W)(((W)1 << FB) - 1), (W)1 << FB, (W)(emax << FB), (W)(emax << FB | sg),
		                (W)(emax << FB | 1), (W)(emax << FB | sg | 1), (W)((emax << FB | ((W)1 << (FB - 1)))), (W)((emax << FB) - 1),
		                (W)(((emax << FB) - 1) | sg), (W)(bias << FB), (W)(bias << FB | sg), (W)((bias << FB) + 1), (W)((bias << FB) - 1),
		                (W)(emax << FB | (((W)1 << FB) - 1))};
		for (W w : sp) ws.push_back(w);
		long lim = (long)PT::maxexponent() + 3;
		for (const size_t want = std::max<size_t>(o.unary, ws.size() + o.unary / 2); ws.size() < want;)
		{
			W s = g.g.below(2) ? sg : 0, e, f = (W)shapebits(g.g, FB);
			switch (g.g.below(5))
			{
			case 0: e = (W)g.g.below((unsigned)emax + 1); break;
			case 1: e = (W)g.g.below(3); if (g.g.below(2)) e = emax - e; break;
			case 2: // around a posit value
			{
				F v = (F)mk(g.any());
				W w;
				memcpy(&w, &v, sizeof w);
				int d = (int)g.g.below(3) - 1;
				ws.push_back((W)(w + d));
				continue;
			}
			default:
			{
				long x = (long)bias + g.g.range((int)std::max(-lim, -3000l), (int)std::min(lim, 3000l));
				e = (W)std::min(std::max(x, 0l), (long)emax);
			}
			}
			ws.push_back((W)(s | e << FB | f));
		}
		int forms = EB == 8 ? 2 : 1;
		for (int form = 0; form < forms; form++)
			for (size_t k = 0; k < ws.size(); k += 128)
				floatrow<F, W>(op, form, std::vector<W>(ws.begin() + k, ws.begin() + std::min(ws.size(), k + 128)));
	}
	static void introw(const std::string &op, const std::vector<int> &xs)
	{
		head(op);
		key("a"); out.raw("[");
		for (size_t i = 0; i < xs.size(); i++) { if (i) out.raw(","); out.sint(xs[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = 0; i < xs.size(); i++) { if (i) out.raw(","); doing(op, xs[i]); pat(P(xs[i]).v); }
		out.raw("]");
		out.end();
	}
	static void intin(const std::string &op, const Opts &o, Gen<T> &g)
	{
		std::vector<int> xs = {0, 1, -1, 2, -2, 3, 2147483647, -2147483647, (int)0x80000000};
		for (int k = 0; k < 31; k++)
			for (int d = -1; d <= 1; d++)
			{
				xs.push_back((int)((1ll << k) + d));
				xs.push_back((int)(-(1ll << k) + d));
			}
		for (const size_t want = std::max<size_t>(o.unary, xs.size() + o.unary / 2); xs.size() < want;) 
		{
			int k = 1 + (int)g.g.below(31);
			int v = (int)((1ull << (k - 1)) | (shapebits(g.g, k - 1 > 0 ? k - 1 : 1) & ((1ull << (k - 1)) - 1)));
			xs.push_back(g.g.below(2) ? -v : v);
		}
		for (size_t k = 0; k < xs.size(); k += 128)
			introw(op, std::vector<int>(xs.begin() + k, xs.begin() + std::min(xs.size(), k + 128)));
	}
	static T packed(int form, const UT &u) { return (form % 2 ? P(u) : P::pack_low(P::unpacked_full2low(u))).v; }
	static void packrow(const std::string &op, int form, const std::vector<UT> &us)
	{
		head(op);
		key("a"); out.raw("[");
		for (size_t i = 0; i < us.size(); i++) { if (i) out.raw(","); unp(us[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = 0; i < us.size(); i++)
		{
			if (i) out.raw(",");
			doing(op, us[i].exponent, (__int128)us[i].fraction);
			pat(packed(form + i % 2, us[i]));
		}
		out.raw("]");
		out.end();
	}
	static T lowed(int form, const UL &u) { return (form % 2 ? P(u) : P::pack_low(u)).v; }
	static void lowrow(const std::string &op, int form, const std::vector<UL> &us)
	{
		head(op);
		key("a"); out.raw("[");
		for (size_t i = 0; i < us.size(); i++) { if (i) out.raw(","); unl(us[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = 0; i < us.size(); i++)
		{
			if (i) out.raw(",");
			doing(op, us[i].regime, (__int128)us[i].exp, (__int128)us[i].fraction);
			pat(lowed(form + i % 2, us[i]));
		}
		out.raw("]");
		out.end();
	}
	static void packin(const std::string &op, const Opts &o, Gen<T> &g)
	{
		std::vector<UT> us;
		us.push_back(UT(UT::Zero));
		us.push_back(UT(UT::NaN));
		us.push_back(UT(UT::Infinity, false));
		us.push_back(UT(UT::Infinity, true));
		typedef typename P::exponenttype ET;
		long lim = (long)PT::maxexponent() * 2 + 4;
		long cap = sizeof(ET) == 1 ? 120 : sizeof(ET) == 2 ? 32000 : 1000000000l;
		lim = std::min(lim, cap);
		for (const size_t want = std::max<size_t>(o.unary, us.size() + o.unary / 2); us.size() < want;)
		{
			long e = g.g.below(4) ? g.g.range((int)-lim / 2 - 2, (int)lim / 2 + 2) : g.g.range((int)-lim, (int)lim);
			us.push_back(UT((ET)e, (FT)shapebits(g.g, sizeof(FT) * 8), g.g.below(2) != 0));
		}
		for (size_t k = 0; k < us.size(); k += 128)
			packrow(op, 0, std::vector<UT>(us.begin() + k, us.begin() + std::min(us.size(), k + 128)));
	}
	static void palo(const std::string &op, const Opts &o, Gen<T> &g)
	{
		std::vector<UL> us;
		us.push_back(UL(UT::Zero));
		us.push_back(UL(UT::NaN));
		us.push_back(UL(UT::Infinity, false));
		us.push_back(UL(UT::Infinity, true));
		typedef typename PT::POSIT_UTYPE PU;
		for (int r = -(N + 2); r <= N + 2; r++)
			for (int k = 0; k < 4; k++)
				us.push_back(UL(g.g.below(2) != 0, (T)r, (PU)(ES ? shapebits(g.g, ES) : 0), (PU)shapebits(g.g, H)));
		for (const size_t want = std::max<size_t>(o.unary, us.size() + o.unary / 2); us.size() < want;)
			us.push_back(UL(g.g.below(2) != 0, (T)g.g.range(-N, N), (PU)(ES ? shapebits(g.g, ES) : 0), (PU)shapebits(g.g, H)));
		for (size_t k = 0; k < us.size(); k += 128)
			lowrow(op, 0, std::vector<UL>(us.begin() + k, us.begin() + std::min(us.size(), k + 128)));
	}
	// ---- fused operations ----
	static T prod(T a, T b) { P p = mk(a); p *= mk(b); return p.v; }
	static T fused(int form, T a, T b, T c)
	{
#ifdef POSITMUL
		P r = form % 3 == 0 ? fma(mk(a), mk(b), mk(c)) : form % 3 == 1 ? mk(a) * mk(b) + mk(c) : mk(c) + mk(a) * mk(b);
#else
		P r = fma(mk(a), mk(b), mk(c));
#endif
		return r.v;
	}
	static void fmarow(const std::string &op, T a, T b, const std::vector<T> &cs)
	{
		head(op);
		key("a"); pat(a);
		key("b"); pat(b);
		key("d"); out.raw("[");
		for (size_t i = 0; i < cs.size(); i++) { if (i) out.raw(","); pat(cs[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = 0; i < cs.size(); i++)
		{
			if (i) out.raw(",");
			doing(op, a, b, cs[i]);
			pat(fused((int)(i % 3), a, b, cs[i]));
		}
		out.raw("]");
		out.end();
	}
	static void fmas(const std::string &op, const Opts &o, Gen<T> &g)
	{
		if (N <= 6 && ((size_t)1 << (3 * N)) <= o.pairs)
		{
			std::vector<T> all = g.all();
			for (T a : all)
				for (T b : all) fmarow(op, a, b, all);
			return;
		}
		size_t done = 0;
		// special values in all three positions
		__int128 one = (__int128)1 << (N - 2), top = (__int128)1 << (N - 1);
		std::vector<T> sp;
		for (__int128 v : {(__int128)0, one, -one, one + 1, top, top - 1, 1 - top, top - 2}) sp.push_back(g.wrap(v));
		for (T a : sp)
			for (T b : sp) fmarow(op, a, b, sp);
		while (done < o.pairs)
		{
			T a = done % 7 == 0 ? g.special(g.g.below(g.nspecial())) : g.any(), b = g.partner(a);
			std::vector<T> cs;
			T p = prod(a, b);
			for (int k = 0; k < 16; k++)
				cs.push_back(k < 5 ? g.wrap(-(__int128)p + k - 2) : k < 7 ? g.wrap((__int128)p + g.g.range(-2, 2))
				             : k < 8 ? g.special(g.g.below(g.nspecial())) : g.any());
			fmarow(op, a, b, cs);
			done += cs.size();
		}
	}
	static T twoprods(int sg, const T *q)
	{
#ifdef POSITMUL
		P r = sg ? mk(q[0]) * mk(q[1]) - mk(q[2]) * mk(q[3]) : mk(q[0]) * mk(q[1]) + mk(q[2]) * mk(q[3]);
		return r.v;
#else
		return 0;
#endif
	}
	static void mmrow(const std::string &op, int sg, const std::vector<T> &q)
	{
		head(op);
		key("g"); out.i(sg);
		key("a"); out.raw("[");
		for (size_t i = 0; i < q.size(); i += 4)
		{
			if (i) out.raw(",");
			out.raw("[");
			for (int k = 0; k < 4; k++) { if (k) out.raw(","); pat(q[i + k]); }
			out.raw("]");
		}
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = 0; i < q.size(); i += 4)
		{
			if (i) out.raw(",");
			doing(op, q[i], q[i + 1], q[i + 2]);
			pat(twoprods(sg, &q[i]));
		}
		out.raw("]");
		out.end();
	}
	static void muladd(const std::string &op, const Opts &o, Gen<T> &g)
	{
#ifdef POSITMUL
		size_t done = 0;
		int sg = 0;
		while (done < o.pairs)
		{
			std::vector<T> q;
			for (int k = 0; k < 32; k++)
			{
				T a = g.g.below(8) ? g.any() : g.special(g.g.below(g.nspecial())), b = g.partner(a), c, d;
				switch (g.g.below(4))
				{
				case 0: c = a; d = g.wrap((sg ? (__int128)b : -(__int128)b) + g.g.range(-1, 1)); break;
				case 1: c = b; d = a; break;
				default: c = g.any(); d = g.partner(c);
				}
				q.push_back(a); q.push_back(b); q.push_back(c); q.push_back(d);
			}
			mmrow(op, sg, q);
			sg = 1 - sg;
			done += 32;
		}
#endif
	}
	// a product not yet rounded, taken as a posit, unpacked, float, double or int: the rows of the product and of the conversions
	static void prodrow(int form, T a, const std::vector<T> &bs)
	{
#ifdef POSITMUL
		std::vector<T> ps;
		head("mul");
		key("f"); out.i(form);
		key("a"); pat(a);
		key("b"); out.raw("[");
		for (size_t i = 0; i < bs.size(); i++) { if (i) out.raw(","); pat(bs[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = 0; i < bs.size(); i++)
		{
			if (i) out.raw(",");
			doing("mul", a, bs[i]);
			P r = mk(a) * mk(bs[i]);
			if (form % 2) r = (mk(a) * mk(bs[i])).asPosit();
			ps.push_back(r.v);
			pat(r.v);
		}
		out.raw("]");
		out.end();
		const char *cv[] = {"f32o", "f64o", "into", "unpk"};
		for (int k = 0; k < 4; k++)
		{
			head(cv[k]);
			key("f"); out.i(form);
			key("a"); out.raw("[");
			for (size_t i = 0; i < ps.size(); i++) { if (i) out.raw(","); pat(ps[i]); }
			out.raw("]");
			key("r"); out.raw("[");
			for (size_t i = 0; i < ps.size(); i++)
			{
				if (i) out.raw(",");
				auto m = mk(a) * mk(bs[i]);
				doing(cv[k], a, bs[i]);
				if (k == 0) f32w(m.operator float());
				else if (k == 1) f64w(m.operator double());
				else if (k == 2) out.sint(m.operator int());
				else unp(m.operator UT());
			}
			out.raw("]");
			out.end();
		}
#endif
	}
	static void prodconv(const std::string &op, const Opts &o, Gen<T> &g)
	{
#ifdef POSITMUL
		size_t done = 0;
		int form = 0;
		while (done < o.pairs)
		{
			T a = g.g.below(8) ? g.any() : g.special(g.g.below(g.nspecial()));
			std::vector<T> bs;
			for (int k = 0; k < 24; k++) bs.push_back(k < 2 ? g.special(g.g.below(g.nspecial())) : g.partner(a));
			prodrow(form, a, bs);
			form++;
			done += 24 * 5;
		}
#endif
	}
	static void dotrow(const std::string &op, std::vector<std::vector<P>> &A, std::vector<std::vector<P>> &B)
	{
		head(op);
		for (int w = 0; w < 2; w++)
		{
			key(w ? "b" : "a");
			out.raw("[");
			for (size_t i = 0; i < A.size(); i++)
			{
				if (i) out.raw(",");
				out.raw("[");
				std::vector<P> &q = w ? B[i] : A[i];
				for (size_t k = 0; k < q.size(); k++) { if (k) out.raw(","); pat(q[k].v); }
				out.raw("]");
			}
			out.raw("]");
		}
		key("r"); out.raw("[");
		for (size_t i = 0; i < A.size(); i++)
		{
			if (i) out.raw(",");
			doing(op, A[i].size(), A[i].size() ? A[i][0].v : 0);
			pat(P::dot(A[i].begin(), B[i].begin(), (int)A[i].size()).v);
		}
		out.raw("]");
		out.end();
	}
	static void dots(const std::string &op, const Opts &o, Gen<T> &g)
	{
		size_t done = 0;
		while (done < o.pairs)
		{
			std::vector<std::vector<P>> A, B;
			for (int k = 0; k < 16; k++)
			{
				// long ones too: nothing may change with the length
				int len = k == 15 && g.g.below(2) ? 30 + (int)g.g.below(80) : (int)g.g.below(10);
				std::vector<P> x, y;
				bool near = g.g.below(2);
				for (int i = 0; i < len; i++)
				{
					T a = g.g.below(40) ? g.any() : g.special(g.g.below(g.nspecial()));
					T b = g.partner(a);
					if (near && i)
					{
						a = x[i - 1].v;
						b = g.wrap(-(__int128)y[i - 1].v + g.g.range(-1, 1));
					}
					// keep most vectors free of special values
					if (g.g.below(12) && (a == PT::_POSIT_TOP || b == PT::_POSIT_TOP)) { a = PT::POSIT_ONE; b = 1; }
					x.push_back(mk(a));
					y.push_back(mk(b));
				}
				A.push_back(x);
				B.push_back(y);
				done += len ? len : 1;
			}
			dotrow(op, A, B);
		}
	}
	// ---- constants ----
	static void constants(const std::string &op)
	{
		typedef std::numeric_limits<P> L;
		struct { const char *n; P v; } cs[] = {
			{"zero", P::zero()}, {"default", P()}, {"one", P::one()}, {"mone", P::mone()}, {"two", P::two()}, {"onehalf", P::onehalf()},
			{"max", P::max()}, {"min", P::min()}, {"lowest", P::lowest()}, {"nan", P::nan()}, {"pinf", P::inf()}, {"pinf", P::pinf()},
			{"pinf", P::infinity()}, {"ninf", P::ninf()}, {"max", L::max()}, {"min", L::min()}, {"lowest", L::lowest()},
			{"epsilon", L::epsilon()}, {"pinf", L::infinity()}, {"nan", L::quiet_NaN()}, {"min", L::denorm_min()},
			{"afterone", P::one().next()}, {"beforeone", P::one().prev()}};
		head(op);
		key("n"); out.raw("[");
		int k = 0;
		for (auto &c : cs) { if (k++) out.raw(","); out.raw("\""); out.raw(c.n); out.raw("\""); }
		out.raw("]");
		key("r"); out.raw("[");
		k = 0;
		for (auto &c : cs) { if (k++) out.raw(","); pat(c.v.v); }
		out.raw("]");
		out.end();
		// the traits: each as an integer
		long long t[] = {L::is_specialized, L::is_signed, L::is_integer, L::is_exact, L::radix, L::has_infinity, L::has_quiet_NaN,
		                 L::min_exponent, L::max_exponent, (long long)PT::minexponent(), (long long)PT::maxexponent(), P::vtotalbits, P::vesbits,
		                 P::withnan, L::digits10, L::has_signaling_NaN, L::is_iec559, L::is_modulo, L::traps};
		head("limits");
		key("r"); out.raw("[[");
		for (int i = 0; i < 19; i++) { if (i) out.raw(","); out.ci(t[i]); }
		out.raw("]]");
		out.end();
	}

	static void run(const Opts &o)
	{
		for (const std::string &op : o.ops)
		{
			uint64_t h = o.seed;
			for (char c : op) h = h * 131 + (unsigned char)c;
			Rng rng(h * 1000003 + IDX);
			Gen<T> g(N, ES, rng);
			// GROUPS: which families of operations this binary contains
			if (0) {}
#if GROUPS & 1
			else if (op == "add" || op == "sub" || op == "mul" || op == "div" || op == "cmp" || op == "min" || op == "max")
				binary(op, o, g);
#endif
#if GROUPS & 2
			else if (op == "f32i") floatin<float, uint32_t, 8, 23>(op, o, g);
			else if (op == "f64i") floatin<double, uint64_t, 11, 52>(op, o, g);
			else if (op == "inti") intin(op, o, g);
#endif
#if GROUPS & 4
			else if (op == "pack") packin(op, o, g);
			else if (op == "palo") palo(op, o, g);
#endif
#if GROUPS & 8
			else if (op == "fma") fmas(op, o, g);
			else if (op == "mm") muladd(op, o, g);
			else if (op == "pmc") prodconv(op, o, g);
			else if (op == "dot") dots(op, o, g);
#endif
#if GROUPS & 16
			else if (op == "const") constants(op);
#endif
#if GROUPS & 32
			else unary(op, o, g);
#else
			else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
#endif
		}
	}
};

#include CFG_HEADER

#ifndef NO_MAIN
int main(int argc, char **argv)
{
	install_handlers();
	Opts o;
	out.f = stdout;
	// --plan index:pairs:unary,... : the configurations to run, each with its budget
	std::map<int, std::pair<size_t, size_t>> plan;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--ops")
		{
			size_t p = 0;
			while (p <= v.size())
			{
				size_t q = v.find(',', p);
				if (q == std::string::npos) q = v.size();
				o.ops.push_back(v.substr(p, q - p));
				p = q + 1;
			}
		}
		else if (k == "--seed") o.seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--plan")
			for (const char *p = v.c_str(); *p;)
			{
				char *e;
				int idx = (int)strtol(p, &e, 10);
				size_t a = strtoull(e + 1, &e, 10), b = strtoull(e + 1, &e, 10);
				plan[idx] = std::make_pair(a, b);
				p = *e ? e + 1 : e;
			}
	}
#define X(IDX, T, N, ES, FT, SPEC)                                      \
	if (plan.count(IDX))                                                \
	{                                                                   \
		o.pairs = plan[IDX].first;                                      \
		o.unary = plan[IDX].second;                                     \
		Drv<IDX, Posit<T, N, ES, FT, PositSpec::SPEC>>::run(o);         \
	}
	CFGS
	out.flush();
	fflush(stdout);
	return 0;
}
#endif
