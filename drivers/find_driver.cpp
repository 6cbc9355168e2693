// Searches for operands that reach new places of the code (edges taken, distances between compared values) and records the calls made with them.
// Built by clang with -fsanitize-coverage=trace-pc-guard,trace-cmp; the same configurations and rows as posit_driver.cpp.
#define NO_MAIN
#include "posit_driver.cpp"
#include "cover.hpp"
#include <tuple>

namespace find
{
using namespace cover;
struct In { int op, form; uint64_t w[4]; };
static In cur;
static const char *curop = "";
static int curcfg = 0;
static void died(int s)
{
	if (on)
		snprintf(g_doing, sizeof g_doing, "op=%s cfg=%d a=%lld b=%lld c=%lld d=%lld", curop, curcfg, (long long)cur.w[0], (long long)cur.w[1], (long long)cur.w[2], (long long)cur.w[3]);
	on_signal(s);
}
}
namespace find
{
static const char *names[] = {"add", "sub", "mul", "div", "min", "max", "cmp", "neg", "abs", "inv", "half", "twice", "next", "prev", "psig", "psof", "ur1m", "urdp", "same",
                              "cls", "anl", "unpk", "unlo", "f32o", "f64o", "into", "f32i", "f64i", "inti", "pack", "palo", "fma", "mm", "pmc", "dot"};
enum { ADD, SUB, MUL, DIV, MIN, MAX, CMP, NEG, ABS, INV, HALF, TWICE, NEXT, PREV, PSIG, PSOF, UR1M, URDP, SAME, CLS, ANL, UNPK, UNLO, F32O, F64O, INTO, F32I, F64I, INTI, PACK, PALO,
       FMA, MM, PMC, DOT, OPS };
static bool less(const In &x, const In &y) { return std::make_tuple(x.form, x.w[0], x.w[1], x.w[2], x.w[3]) < std::make_tuple(y.form, y.w[0], y.w[1], y.w[2], y.w[3]); }
static int forms(int op) { static const int f[OPS] = {2, 2, 2, 2, 1, 1, 1, 3, 2, 3, 1, 1, 1, 1, 1, 1, 1, 1, 4, 1, 1, 3, 1, 2, 1, 1, 2, 1, 1, 2, 2, 3, 2, 2, 1}; return f[op]; }

template <int IDX, class P>
struct Search
{
	typedef Drv<IDX, P> D;
	typedef typename D::T T;
	typedef typename D::FT FT;
	typedef typename D::UT UT;
	typedef typename D::UL UL;
	typedef typename D::PT PT;
	typedef typename P::exponenttype ET;
	static const int N = D::N, ES = D::ES, H = D::H;

	static UT full(const In &x)
	{
		if ((x.w[2] & 31) == 31) return (x.w[2] >> 5) % 3 == 0 ? UT(UT::Zero) : (x.w[2] >> 5) % 3 == 1 ? UT(UT::NaN) : UT(UT::Infinity, x.w[2] >> 9 & 1);
		return UT((ET)(int64_t)x.w[0], (FT)x.w[1], x.w[2] & 1);
	}
	static UL low(const In &x)
	{
		if ((x.w[2] & 31) == 31) return (x.w[2] >> 5) % 3 == 0 ? UL(UT::Zero) : (x.w[2] >> 5) % 3 == 1 ? UL(UT::NaN) : UL(UT::Infinity, x.w[2] >> 9 & 1);
		typedef typename PT::POSIT_UTYPE PU;
		return UL((x.w[2] & 1) != 0, (T)(int64_t)x.w[0], (PU)x.w[3], (PU)x.w[1]);
	}
	// operands within the domain of the operation
	static void settle(In &x, Gen<T> &g)
	{
		x.form %= forms(x.op);
		switch (x.op)
		{
		case F32I: x.w[0] &= 0xffffffffu; break;
		case F64I: break;
		case INTI: x.w[0] = (uint64_t)(int64_t)(int32_t)x.w[0]; break;
		case PACK:
		{
			long lim = std::min((long)PT::maxexponent() * 2 + 4, sizeof(ET) == 1 ? 120l : sizeof(ET) == 2 ? 32000l : 1000000000l);
			x.w[0] = (uint64_t)((int64_t)x.w[0] % (lim + 1));
			break;
		}
		case PALO:
			x.w[0] = (uint64_t)((int64_t)x.w[0] % (N + 3));
			x.w[3] &= (1ull << ES) - 1;
			break;
		case UR1M:
		case URDP:
			x.w[0] &= ~0ull >> 2;
			if ((__int128)x.w[0] > (__int128)PT::POSIT_ONE) x.w[0] %= (uint64_t)PT::POSIT_ONE + 1;
			break;
		default:
			for (uint64_t &w : x.w) w = (uint64_t)(int64_t)g.wrap((__int128)(int64_t)w);
		}
	}
	static uint64_t eval(const In &x)
	{
		T a = (T)(int64_t)x.w[0], b = (T)(int64_t)x.w[1], c = (T)(int64_t)x.w[2], d = (T)(int64_t)x.w[3];
		P p = D::mk(a), q = D::mk(b);
		switch (x.op)
		{
#if GROUPS & 1
		case ADD: if (x.form) { p += q; return p.v; } return (p + q).v;
		case SUB: return x.form ? (p + (-q)).v : (p - q).v;
		case MUL: if (x.form) { p *= q; return p.v; } { P r = p * q; return r.v; }
		case DIV: if (x.form) { p /= q; return p.v; } return (p / q).v;
		case MIN: return std::min(p, q).v;
		case MAX: return std::max(p, q).v;
		case CMP: return D::cmp(a, b);
#endif
#if GROUPS & 32
		case NEG: return x.form == 0 ? (-p).v : x.form == 1 ? p.neg().v : neg(p).v;
		case ABS: return x.form ? std::abs(p).v : p.abs().v;
		case INV: return x.form == 0 ? (~p).v : x.form == 1 ? p.inv().v : inv(p).v;
		case HALF: return p.half().v;
		case TWICE: return p.twice().v;
		case NEXT: return p.next().v;
		case PREV: return p.prev().v;
		case PSIG: return p.pseudosigmoid().v;
		case PSOF: return p.pseudosoftplus().v;
		case UR1M: return p.urOneMinus().v;
		case URDP: return p.urDeltaPs().v;
		case SAME: return D::un("same", x.form, a);
		case CLS: return p.isNaN() | p.isinfinity() << 1 | p.iszero() << 2 | p.isnegative() << 3 | p.isone() << 4 | p.hasNaN() << 5 | p.isUnitRange() << 6;
		case ANL: { auto i = p.analyze(); return (uint64_t)i.ifraction + i.exponent; }
		case UNPK: { UT u = p; if (x.form == 0) u = p.unpack(); if (x.form == 1) u = P::unpacked_low2full(p.unpack_low()); return (uint64_t)u.fraction + u.exponent; }
		case UNLO: { UL u = p.unpack_low(); return (uint64_t)u.fraction + u.regime; }
		case F32O: if (x.form) return p.as_float_bin(); { volatile float f = (float)p; return f > 0; }
		case F64O: { volatile double f = (double)p; return f > 0; }
		case INTO: return (uint64_t)(int)p;
#endif
#if GROUPS & 2
		case F32I: return D::template fromfloat<float, uint32_t>(x.form, (uint32_t)x.w[0]);
		case F64I: return D::template fromfloat<double, uint64_t>(0, x.w[0]);
		case INTI: return P((int)(int64_t)x.w[0]).v;
#endif
#if GROUPS & 4
		case PACK: return D::packed(x.form, full(x));
		case PALO: return D::lowed(x.form, low(x));
#endif
#if GROUPS & 8
		case FMA: return D::fused(x.form, a, b, c);
		case MM: { T z[4] = {a, b, c, d}; return D::twoprods(x.form, z); }
#ifdef POSITMUL
		case PMC: { auto m = p * q; volatile float f = m.operator float(); volatile double e = m.operator double(); UT u = m.operator UT(); P r = m; return (f > e) + m.operator int() + u.exponent + r.v; }
#endif
		case DOT: { P x1[2] = {p, D::mk(c)}, x2[2] = {q, D::mk(d)}; return P::dot(x1, x2, 2).v; }
#endif
		default: return 0;
		}
	}
	static uint64_t fresh_word(int op, int k, Gen<T> &g)
	{
		Rng &r = g.g;
		if (op == F32I) { float f = (float)D::mk(g.any()); uint32_t w; memcpy(&w, &f, 4); return r.below(2) ? w : r.below(2) ? (uint32_t)(w + r.range(-1, 1)) : (uint32_t)r.next(); }
		if (op == F64I) { double f = (double)D::mk(g.any()); uint64_t w; memcpy(&w, &f, 8); return r.below(2) ? w : r.below(2) ? w + r.range(-1, 1) : r.next(); }
		if (op == INTI) return r.next() >> (32 + r.below(32));
		if (op == PACK || op == PALO) return k == 0 ? (uint64_t)(int64_t)r.range(-80, 80) : k == 1 ? D::shapebits(r, 64) : r.next();
		return (uint64_t)(int64_t)g.any();
	}
	static void mutate(In &x, Gen<T> &g)
	{
		Rng &r = g.g;
		for (int n = 1 + (int)r.below(3); n > 0; n--)
		{
			int k = (int)r.below(4), j = (int)r.below(4);
			uint64_t v;
			switch (r.below(11))
			{
			case 0: case 1: x.w[k] ^= 1ull << r.below(r.below(2) ? N : 64); break;
			case 2: x.w[k] += r.range(-4, 4); break;
			case 3: x.w[k] = pool[r.below(1024)]; break;
			case 4: v = pool[r.below(1024)]; x.w[k] = r.below(2) ? v << r.below(64) : v >> r.below(64); break;
			case 5: x.w[k] = x.w[j]; break;
			case 6: x.w[k] = 0 - x.w[j]; break;
			case 7: x.w[k] = fresh_word(x.op, k, g); break;
			case 8: x.w[k] = (uint64_t)(int64_t)g.partner((T)x.w[j]); break;
			case 9: x.form = (int)r.below(12); break;
			default: x.w[k] = r.below(2) ? x.w[j] << 1 : (uint64_t)((int64_t)x.w[j] >> 1); break;
			}
		}
	}
	static void record(const std::vector<In> &v, int op)
	{
		std::string o = names[op];
		for (int form = 0; form < forms(op); form++)
		{
			std::vector<In> q;
			for (const In &x : v) if (x.form == form) q.push_back(x);
			for (size_t k = 0; k < q.size(); k += 64)
			{
				size_t m = std::min(q.size(), k + 64);
				std::vector<T> t; std::vector<uint32_t> f; std::vector<uint64_t> d; std::vector<int> is; std::vector<UT> us; std::vector<UL> ls;
				std::vector<std::vector<P>> A, B;
				std::vector<T> bs;
				T a = 0;
				for (size_t i = k; i < m; i++)
				{
					const In &x = q[i];
					T w[4];
					for (int j = 0; j < 4; j++) w[j] = (T)(int64_t)x.w[j];
					if (op <= CMP)
					{
						if (bs.size() && a != w[0]) { binrow(o, form, a, bs); bs.clear(); }
						a = w[0];
						bs.push_back(w[1]);
					}
					else if (op == F32I) f.push_back((uint32_t)x.w[0]);
					else if (op == F64I) d.push_back(x.w[0]);
					else if (op == INTI) is.push_back((int)(int64_t)x.w[0]);
					else if (op == PACK) us.push_back(full(x));
					else if (op == PALO) ls.push_back(low(x));
					else if (op == MM) t.insert(t.end(), w, w + 4);
					else if (op == FMA || op == PMC) fused(o, op, form, w);
					else if (op == DOT) { A.push_back({D::mk(w[0]), D::mk(w[2])}); B.push_back({D::mk(w[1]), D::mk(w[3])}); }
					else t.push_back(w[0]);
				}
				if (bs.size()) binrow(o, form, a, bs);
#if GROUPS & 2
				if (f.size()) D::template floatrow<float, uint32_t>(o, form, f);
				if (d.size()) D::template floatrow<double, uint64_t>(o, form, d);
				if (is.size()) D::introw(o, is);
#endif
#if GROUPS & 4
				if (us.size()) D::packrow(o, form, us);
				if (ls.size()) D::lowrow(o, form, ls);
#endif
#if GROUPS & 8
				if (A.size()) D::dotrow(o, A, B);
				if (op == MM && t.size()) D::mmrow(o, form, t);
#endif
#if GROUPS & 32
				if (op != MM && t.size()) D::unrow(o, form, t);
#endif
			}
		}
	}
	static void binrow(const std::string &o, int form, T a, const std::vector<T> &bs)
	{
#if GROUPS & 1
		D::binrow(o, form, a, bs);
#endif
	}
	static void fused(const std::string &o, int op, int form, const T *w)
	{
#if GROUPS & 8
		if (op == FMA) D::fmarow(o, w[0], w[1], {w[2], w[2], w[2]});
		else D::prodrow(form, w[0], {w[1]});
#endif
	}
	static void run(const Opts &o)
	{
		for (const std::string &name : o.ops)
		{
			int op = (int)(std::find(names, names + OPS, name) - names);
			if (op == OPS) { fprintf(stderr, "unknown op %s\n", name.c_str()); exit(3); }
			Rng rng(o.seed * 7919 + IDX * 131 + op);
			Gen<T> g(N, ES, rng);
			curop = names[op];
			curcfg = IDX;
			memset(seen, 0, sizeof seen);
			std::vector<In> corpus, hard;
			uint64_t sink = 0;
			for (size_t k = 0; k < o.pairs; k++)
			{
				In x;
				if (corpus.empty() || k < 500 || rng.below(16) == 0)
				{
					x.op = op;
					x.form = (int)rng.below(12);
					for (int j = 0; j < 4; j++) x.w[j] = fresh_word(op, j, g);
					if (op < CMP + 1 && rng.below(2)) x.w[1] = (uint64_t)(int64_t)g.partner((T)x.w[0]);
				}
				else
				{
					// what was found last is looked at more often
					size_t m = corpus.size();
					x = corpus[rng.below(2) ? rng.below((unsigned)m) : m - 1 - rng.below((unsigned)std::min(m, (size_t)20))];
					mutate(x, g);
				}
				settle(x, g);
				fresh = strong = 0;
				cur = x;
				on = true;
				sink += eval(x);
				on = false;
				if (fresh) corpus.push_back(x);
				if (strong) hard.push_back(x);
			}
			volatile uint64_t keep = sink;
			(void)keep;
			// the calls recorded: those that took a new edge or compared equal or adjacent values, with variants, then others that did something new
			std::vector<In> rec;
			for (const In &x : hard)
			{
				if (rec.size() > o.unary * 2 / 3) break;
				rec.push_back(x);
				for (int v = 0; v < 2; v++) { In y = x; mutate(y, g); settle(y, g); rec.push_back(y); }
			}
			// the hard ones are found late: these first
			for (size_t k = 0; k < hard.size() && rec.size() < o.unary; k++) rec.push_back(hard[hard.size() - 1 - k]);
			while (rec.size() < o.unary && corpus.size()) rec.push_back(corpus[rng.below((unsigned)corpus.size())]);
			std::stable_sort(rec.begin(), rec.end(), less);
			rec.erase(std::unique(rec.begin(), rec.end(), [](const In &x, const In &y) { return !less(x, y) && !less(y, x); }), rec.end());
			record(rec, op);
		}
	}
};
}

int main(int argc, char **argv)
{
	for (int s : {SIGFPE, SIGSEGV, SIGILL, SIGBUS, SIGABRT}) signal(s, find::died);
	Opts o;
	out.f = stdout;
	std::map<int, std::pair<size_t, size_t>> plan;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--ops")
			for (size_t p = 0; p <= v.size();)
			{
				size_t q = std::min(v.find(',', p), v.size());
				o.ops.push_back(v.substr(p, q - p));
				p = q + 1;
			}
		else if (k == "--seed") o.seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--tries") o.pairs = strtoull(v.c_str(), 0, 10);
		else if (k == "--keep") o.unary = strtoull(v.c_str(), 0, 10);
	}
#define X(IDX, T, N, ES, FT, SPEC) find::Search<IDX, Posit<T, N, ES, FT, PositSpec::SPEC>>::run(o);
	CFGS
	out.flush();
	fflush(stdout);
	return 0;
}
