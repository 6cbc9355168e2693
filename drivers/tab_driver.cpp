// Calls the tabulated posit types posit8, posit10, posit12 and records every call.
//   TAB8 / TAB10 / TAB12 selects the type; linked with src/positN.cpp and its tables.
#include <cmath>
#if defined(TAB8)
#include "posit8.hpp"
typedef posit8 P;
#elif defined(TAB10)
#include "posit10.hpp"
typedef posit10 P;
#else
#include "posit12.hpp"
typedef posit12 P;
#endif
#include "gen.hpp"
#include <sstream>

static Out out;
typedef P::value_t T;
typedef P::FPT F;
static const int N = P::vtotalbits, ES = P::vesbits;
static int IDX = 1;

static P mk(T v) { return P(P::DeepInit(), v); }
static void key(const char *k) { out.raw(",\""); out.raw(k); out.raw("\":"); }
static void head(const std::string &op)
{
	out.raw("{\"o\":\"");
	out.raw(op.c_str());
	out.raw("\",\"c\":");
	out.i(IDX);
}
static void doing(const std::string &op, long long a, long long b = 0)
{
	snprintf(g_doing, sizeof g_doing, "op=%s n=%d a=%lld b=%lld", op.c_str(), N, a, b);
}
template <class V, class E> static void list(const char *k, const std::vector<V> &v, E e)
{
	key(k);
	out.raw("[");
	for (size_t i = 0; i < v.size(); i++) { if (i) out.raw(","); e(v[i]); }
	out.raw("]");
}

static long long bin(const std::string &op, int form, T a, T b)
{
	P x = mk(a), y = mk(b);
	if (op == "add") { if (form % 2) { P &r = (x += y); return r.v == x.v ? x.v : 99999; } return (x + y).v; }
	if (op == "sub") return (x - y).v;
	if (op == "mul") { if (form % 2) { P &r = (x *= y); return r.v == x.v ? x.v : 99999; } return (x * y).v; }
	if (op == "div") return (x / y).v;
	if (op == "min") return std::min(x, y).v;
	if (op == "max") return std::max(x, y).v;
	if (op == "tcmp") return (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5;
	abort();
}
static void binrow(const std::string &op, int form, T a, const std::vector<T> &bs)
{
	head(op);
	key("f"); out.i(form % 2);
	key("a"); out.i(a);
	list("b", bs, [](T b) { out.i(b); });
	list("r", bs, [&](T b) { doing(op, a, b); out.i(bin(op, form, a, b)); });
	out.end();
}
static void binary(const std::string &op, size_t pairs, Gen<T> &g)
{
	int form = 0;
	if (((size_t)1 << (2 * N)) <= pairs)
	{
		std::vector<T> all = g.all();
		for (T a : all)
			for (size_t k = 0; k < all.size(); k += 256)
				binrow(op, form + (int)(a & 1), a, std::vector<T>(all.begin() + k, all.begin() + k + 256));
		return;
	}
	std::vector<T> sp;
	for (unsigned k = 0; k < g.nspecial(); k++) sp.push_back(g.special(k));
	for (T a : sp) binrow(op, form++, a, sp);
	for (size_t done = sp.size() * sp.size(); done < pairs; done += 64)
	{
		T a = g.any();
		std::vector<T> b;
		for (int j = 0; j < 64; j++) b.push_back(j % 3 ? g.wrap((__int128)g.g.next()) : g.partner(a));
		binrow(op, form++, a, b);
	}
}

static void unp(const F::UnpackedT &u)
{
	out.raw("[");
	out.i((int)u.type); out.raw(",");
	out.i(u.negativeSign ? 1 : 0); out.raw(",");
	out.ci((long long)u.exponent);
	out.limbs((unsigned __int128)u.fraction, false);
	out.raw("]");
}
static void un(const std::string &op, int form, T a)
{
	P x = mk(a);
	doing(op, a);
	bool m = form % 2 == 0;
	if (op == "neg") out.i((m ? -x : neg(x)).v);
	else if (op == "abs") out.i(std::abs(x).v);
	else if (op == "inv") out.i((m ? x.inv() : inv(x)).v);
	else if (op == "half") out.i((m ? x.half() : half(x)).v);
	else if (op == "twice") out.i((m ? x.twice() : twice(x)).v);
	else if (op == "square") out.i((m ? x.square() : square(x)).v);
	else if (op == "exp2") out.i((m ? x.exp2() : exp2(x)).v);
	else if (op == "same")
		switch (form)
		{
		case 0: out.i(P(x.as_posit()).v); break;
		case 1: { F y = x; out.i(P(y).v); break; }
		case 2: out.i(P(x.unpack()).v); break;
		case 3: out.i(P(x.unpack_low()).v); break;
		default: { P y(x); P z; z = y; out.i(z.v); }
		}
	else if (op == "unpk") unp(m ? x.unpack() : F::unpacked_low2full(x.unpack_low()));
	else if (op == "f32o") { float f = (float)x; uint32_t u; memcpy(&u, &f, 4); out.word(u); }
	else if (op == "f64o") { double f = (double)x; uint64_t u; memcpy(&u, &f, 8); out.word(u); }
	else if (op == "tinto") out.sint((int)x);
	else if (op == "tcls")
	{
#ifdef TAB12
		bool neg2 = x.is_negative();
#else
		bool neg2 = is_negative(x);
#endif
		out.i(x.is_nan() | x.is_infinity() << 1 | x.is_negative() << 2 | neg2 << 3 | x.has_neg_exponent() << 4);
	}
	else if (op == "uu")
	{
		std::ostringstream s;
		if (form == 0) { out.i(x.uu()); return; }
		s << x;
		// "posit(<uu>)"
		std::string t = s.str();
		long long v = -1;
		if (t.size() > 7 && t.compare(0, 6, "posit(") == 0 && t[t.size() - 1] == ')')
		{
			v = 0;
			for (size_t i = 6; i + 1 < t.size(); i++) v = v < 0 || t[i] < '0' || t[i] > '9' ? -1 : v * 10 + (t[i] - '0');
		}
		out.ci(v);
	}
	else abort();
}
static void unary(const std::string &op, Gen<T> &g)
{
	std::vector<T> as = g.all();
	int forms = op == "same" ? 5 : op == "abs" || op == "f32o" || op == "f64o" || op == "tinto" || op == "tcls" ? 1 : 2;
	size_t step = op == "exp2" ? 16 : 128;
	for (int form = 0; form < forms; form++)
		for (size_t k = 0; k < as.size(); k += step)
		{
			std::vector<T> q(as.begin() + k, as.begin() + k + step);
			head(op);
			key("f"); out.i(form);
			list("a", q, [](T a) { out.i(a); });
			list("r", q, [&](T a) { un(op, form, a); });
			out.end();
		}
}
template <class W> static W shape(Rng &g, int k)
{
	W m = ((W)1 << k) - 1;
	switch (g.below(6))
	{
	case 0: return 0;
	case 1: return m;
	case 2: return (W)1 << g.below(k);
	case 3: return (m << g.below(k)) & m;
	default: return (W)g.next() & m;
	}
}
template <class Fl, class W, int EB, int FB> static void floatin(const std::string &op, size_t n, Gen<T> &g)
{
	const W emax = ((W)1 << EB) - 1, sg = (W)1 << (EB + FB), bias = emax >> 1;
	std::vector<W> ws = {0, sg, 1, (W)(sg | 1), (W)1 << FB, (W)(emax << FB), (W)(emax << FB | sg), (W)(emax << FB | 1), (W)(emax << FB | (W)1 << (FB - 1)),
	                     (W)((emax << FB) - 1), (W)(((emax << FB) - 1) | sg), (W)(bias << FB), (W)(bias << FB | sg), (W)((bias << FB) + 1), (W)((bias << FB) - 1)};
	// both sides of every posit
	std::vector<T> all = g.all();
	for (T a : all)
		for (int d = -1; d <= 1; d++)
		{
			Fl v = (Fl)F(F::DeepInit(), a);
			W w;
			memcpy(&w, &v, sizeof w);
			ws.push_back((W)(w + d));
		}
	for (const size_t want = std::max<size_t>(n, ws.size() + n / 2); ws.size() < want;)
		ws.push_back((W)((g.g.below(2) ? sg : 0) | (W)((long)bias + g.g.range(-60, 60)) << FB | shape<W>(g.g, FB)));
	for (size_t k = 0; k < ws.size(); k += 128)
	{
		std::vector<W> q(ws.begin() + k, ws.begin() + std::min(ws.size(), k + 128));
		head(op);
		list("a", q, [](W w) { out.word(w); });
		list("r", q, [&](W w) { doing(op, (long long)w); Fl v; memcpy(&v, &w, sizeof v); out.i(P(v).v); });
		out.end();
	}
}
static void intin(size_t n, Gen<T> &g)
{
	std::vector<int> xs = {0, 1, -1, 2147483647, -2147483647, (int)0x80000000};
	for (int v = -300; v <= 300; v++) xs.push_back(v);
	for (int k = 8; k < 31; k++)
		for (int d = -1; d <= 1; d++) { xs.push_back((int)((1ll << k) + d)); xs.push_back((int)(-(1ll << k) + d)); }
	for (const size_t want = std::max<size_t>(n, xs.size() + n / 2); xs.size() < want;) { int v = (int)(g.g.next() >> (33 + g.g.below(30))); xs.push_back(g.g.below(2) ? v : -v); }
	for (size_t k = 0; k < xs.size(); k += 128)
	{
		std::vector<int> q(xs.begin() + k, xs.begin() + std::min(xs.size(), k + 128));
		head("inti");
		list("a", q, [](int w) { out.sint(w); });
		list("r", q, [&](int w) { doing("inti", w); out.i(P(w).v); });
		out.end();
	}
}
static void constants()
{
	typedef std::numeric_limits<P> L;
	std::vector<std::pair<const char *, P>> cs = {{"default", P()}, {"one", P::one()}, {"onehalf", P::onehalf()}, {"max", P::max()}, {"min", P::min()},
		{"nan", P::nan()}, {"pinf", P::pinfinity()}, {"ninf", P::ninfinity()}, {"afterone", P::afterone()}, {"max", L::max()}, {"min", L::min()},
		{"epsilon", L::epsilon()},
#ifndef TAB12
		{"zero", P::zero()}, {"two", P::two()},
#endif
		};
	head("const");
	key("n"); out.raw("[");
	for (size_t i = 0; i < cs.size(); i++) { if (i) out.raw(","); out.raw("\""); out.raw(cs[i].first); out.raw("\""); }
	out.raw("]");
	key("r"); out.raw("[");
	for (size_t i = 0; i < cs.size(); i++) { if (i) out.raw(","); out.i(cs[i].second.v); }
	out.raw("]");
	out.end();
}

int main(int argc, char **argv)
{
	install_handlers();
	out.f = stdout;
	size_t pairs = 65536, n = 4000;
	uint64_t seed = 1;
	std::string ops;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--ops") ops = "," + v + ",";
		else if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--pairs") pairs = strtoull(v.c_str(), 0, 10);
		else if (k == "--n") n = strtoull(v.c_str(), 0, 10);
		else if (k == "--idx") IDX = atoi(v.c_str());
	}
	Rng rng(seed * 1000003 + N);
	Gen<T> g(N, ES, rng);
	auto want = [&](const char *o) { return ops.empty() || ops.find(std::string(",") + o + ",") != std::string::npos; };
	for (const char *o : {"add", "sub", "mul", "div", "min", "max", "tcmp"})
		if (want(o)) binary(o, o[0] == 'm' && o[1] != 'u' ? pairs / 4 : pairs, g);
	for (const char *o : {"neg", "abs", "inv", "half", "twice", "square", "exp2", "same", "unpk", "f32o", "f64o", "tinto", "tcls", "uu"})
		if (want(o)) unary(o, g);
	if (want("f32i")) floatin<float, uint32_t, 8, 23>("f32i", n, g);
	if (want("f64i")) floatin<double, uint64_t, 11, 52>("f64i", n, g);
	if (want("inti")) intin(n, g);
	if (want("const")) constants();
	out.flush();
	fflush(stdout);
	return 0;
}
