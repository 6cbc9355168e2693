// Calls simd_posit8_32, thirty two posits of 8 bits in one register, and records what every lane returned.
// The pairs are dealt to the lanes in random order, so a lane that depends on its neighbours or on its position shows.
#include "simdposit8.hpp"
#include "gen.hpp"
#include "decimal.hpp"
#include <sstream>

typedef simd_posit8_32 V;
static Out out;
static int IDX = 1;
static Rng *G;

static void key(const char *k) { out.raw(",\""); out.raw(k); out.raw("\":"); }
static void head(const char *op) { out.raw("{\"o\":\""); out.raw(op); out.raw("\",\"c\":"); out.i(IDX); }
static void doing(const char *op, int form) { snprintf(g_doing, sizeof g_doing, "op=%s form=%d", op, form); }

struct Lanes { alignas(32) int8_t x[32]; };
static V load(const Lanes &l) { return V(_mm256_load_si256((const __m256i *)l.x)); }
static Lanes lanes(__m256i v) { Lanes l; _mm256_store_si256((__m256i *)l.x, v); return l; }

static V bin(const std::string &op, V a, V b)
{
	if (op == "add") return a + b;
	if (op == "sub") return a - b;
	if (op == "mul") return a * b;
	return a / b;
}
static V un(const std::string &op, int form, V x)
{
	bool m = form == 0;
	if (op == "neg") return m ? -x : neg(x);
	if (op == "inv") return m ? x.inv() : inv(x);
	if (op == "half") return m ? x.half() : half(x);
	if (op == "twice") return m ? x.twice() : twice(x);
	if (op == "square") return m ? x.square() : square(x);
	if (op == "exp2") return m ? x.exp2() : exp2(x);
	return m ? V(x.uu()) : V(V::Init(), x.uu());
}
// every index below n once, in random order
static std::vector<int> deal(int n)
{
	std::vector<int> p(n);
	for (int i = 0; i < n; i++) p[i] = i;
	for (int i = n - 1; i > 0; i--) std::swap(p[i], p[G->below((unsigned)i + 1)]);
	return p;
}

static void binary(const char *op)
{
	doing(op, 0);
	std::vector<int8_t> r(65536);
	std::vector<int> p = deal(65536);
	for (size_t k = 0; k < p.size(); k += 32)
	{
		Lanes a, b;
		for (int j = 0; j < 32; j++) { a.x[j] = (int8_t)(p[k + j] >> 8); b.x[j] = (int8_t)p[k + j]; }
		Lanes c = lanes(bin(op, load(a), load(b)).uu());
		for (int j = 0; j < 32; j++) r[p[k + j]] = c.x[j];
	}
	for (int a = 0; a < 256; a++)
	{
		head(op);
		key("f"); out.i(0);
		key("a"); out.i((int8_t)a);
		key("b"); out.raw("[");
		for (int b = 0; b < 256; b++) { if (b) out.raw(","); out.i((int8_t)b); }
		out.raw("]");
		key("r"); out.raw("[");
		for (int b = 0; b < 256; b++) { if (b) out.raw(","); out.i(r[a * 256 + b]); }
		out.raw("]");
		out.end();
	}
}

// one value per lane and pass; several passes, so that every value meets several lanes
template <class F> static void unary(const char *op, int form, int passes, F f)
{
	doing(op, form);
	for (int q = 0; q < passes; q++)
	{
		std::vector<int> p = deal(256);
		for (size_t k = 0; k < p.size(); k += 32)
		{
			Lanes a;
			for (int j = 0; j < 32; j++) a.x[j] = (int8_t)p[k + j];
			head(op);
			key("f"); out.i(form);
			key("a"); out.raw("[");
			for (int j = 0; j < 32; j++) { if (j) out.raw(","); out.i(a.x[j]); }
			out.raw("]");
			key("r"); out.raw("[");
			f(load(a));
			out.raw("]");
			out.end();
		}
	}
}
static void plain(const char *op, int form, int passes)
{
	unary(op, form, passes, [&](V x) {
		Lanes r = lanes(un(op, form, x).uu());
		for (int j = 0; j < 32; j++) { if (j) out.raw(","); out.i(r.x[j]); }
	});
}
static void masks(int passes)
{
	unary("mask", 0, passes, [&](V x) {
		Lanes m[4] = {lanes(x.is_nan()), lanes(x.is_infinity()), lanes(x.is_negative()), lanes(x.has_neg_exponent())};
		for (int j = 0; j < 32; j++)
		{
			out.raw(j ? ",[" : "[");
			for (int k = 0; k < 4; k++) { if (k) out.raw(","); out.i((uint8_t)m[k].x[j]); }
			out.raw("]");
		}
	});
}
static void floats(int passes)
{
	unary("f32o", 0, passes, [&](V x) {
		std::array<float, 32> r = x;
		for (int j = 0; j < 32; j++)
		{
			uint32_t u;
			memcpy(&u, &r[j], 4);
			if (j) out.raw(",");
			out.word(u);
		}
	});
}
// a number given to every lane: each lane in turn is recorded
static void all32(V v, int &lane, bool first)
{
	Lanes r = lanes(v.uu());
	if (!first) out.raw(",");
	// a lane that is not like the others is not a posit of any format here
	bool same = true;
	for (int j = 0; j < 32; j++) same = same && r.x[j] == r.x[lane];
	out.i(same ? r.x[lane] : 1000);
	lane = (lane + 1) % 32;
}
static void numbers(size_t n)
{
	const uint32_t emax = 255, sg = 0x80000000u;
	std::vector<uint32_t> ws = {0, sg, 1, sg | 1, 1u << 23, emax << 23, (emax << 23) | sg, (emax << 23) | 1, (emax << 23) - 1, ((emax << 23) - 1) | sg, 0x3f800000u, 0xbf800000u};
	for (int a = -128; a < 128; a++)
		for (int d = -1; d <= 1; d++)
		{
			float f = (float)V::FPT(V::FPT::DeepInit(), (int8_t)a);
			uint32_t w;
			memcpy(&w, &f, 4);
			ws.push_back(w + (uint32_t)d);
		}
	for (const size_t want = std::max<size_t>(n, ws.size() + n / 2); ws.size() < want;) ws.push_back((G->below(2) ? sg : 0) | (uint32_t)(127 + G->range(-40, 40)) << 23 | (uint32_t)(G->next() & 0x7fffff));
	int lane = 0;
	for (size_t k = 0; k < ws.size(); k += 128)
	{
		size_t m = std::min(ws.size(), k + 128);
		head("f32i");
		doing("f32i", 0);
		key("a"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); out.word(ws[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = k; i < m; i++) { float f; memcpy(&f, &ws[i], 4); all32(V(f), lane, i == k); }
		out.raw("]");
		out.end();
	}
	std::vector<int> xs = {0, 1, -1, 2147483647, -2147483647, (int)0x80000000};
	for (int v = -300; v <= 300; v++) xs.push_back(v);
	for (int k = 8; k < 31; k++)
		for (int d = -1; d <= 1; d++) { xs.push_back((int)((1ll << k) + d)); xs.push_back((int)(-(1ll << k) + d)); }
	for (size_t k = 0; k < xs.size(); k += 128)
	{
		size_t m = std::min(xs.size(), k + 128);
		head("inti");
		doing("inti", 0);
		key("a"); out.raw("[");
		for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); out.sint(xs[i]); }
		out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = k; i < m; i++) all32(V(xs[i]), lane, i == k);
		out.raw("]");
		out.end();
	}
}
// "a32( f f .. f)": the thirty two numbers as text
static void text(int passes, int prec)
{
	doing("tdec", prec);
	for (int q = 0; q < passes; q++)
	{
		std::vector<int> p = deal(256);
		for (size_t k = 0; k < p.size(); k += 32)
		{
			Lanes a;
			for (int j = 0; j < 32; j++) a.x[j] = (int8_t)p[k + j];
			std::ostringstream s;
			s.precision(prec);
			auto f = s.flags();
			s << load(a);
			bool kept = s.flags() == f && s.precision() == prec && s.good();
			std::string t = s.str();
			kept = kept && t.size() > 5 && t.compare(0, 4, "a32(") == 0 && t[t.size() - 1] == ')';
			std::istringstream w(kept ? t.substr(4, t.size() - 5) : "");
			std::vector<std::string> words;
			for (std::string x; w >> x;) words.push_back(x);
			kept = kept && words.size() == 32;
			words.resize(32, "?");
			head("tdec");
			key("p"); out.i(prec);
			key("w"); out.i(0);
			key("a"); out.raw("[");
			for (int j = 0; j < 32; j++) { if (j) out.raw(","); out.sint(a.x[j]); }
			out.raw("]");
			key("r"); out.raw("[");
			for (int j = 0; j < 32; j++) { if (j) out.raw(","); decimal(out, words[j]); }
			out.raw("]");
			key("k"); out.raw("[");
			for (int j = 0; j < 32; j++) { if (j) out.raw(","); out.i(kept); }
			out.raw("]");
			out.end();
		}
	}
}

// gauss2(x, mu, sigma) = exp2(-half(square((x-mu)/sigma)))
static void gauss(int passes)
{
	for (int q = 0; q < 8 * passes; q++)
	{
		doing("gauss", q);
		Lanes x[3];
		for (auto &l : x) for (int j = 0; j < 32; j++) l.x[j] = (int8_t)G->below(256);
		if (q % 2) for (int j = 0; j < 32; j++) { x[1].x[j] = (int8_t)(x[0].x[j] + G->range(-9, 9)); x[2].x[j] = (int8_t)(40 + G->below(60)); }
		Lanes r = lanes(gauss2(load(x[0]), load(x[1]), load(x[2])).uu());
		head("gauss");
		const char *names[4] = {"a", "b", "d", "r"};
		for (int k = 0; k < 4; k++)
		{
			key(names[k]); out.raw("[");
			for (int j = 0; j < 32; j++) { if (j) out.raw(","); out.i(k < 3 ? x[k].x[j] : r.x[j]); }
			out.raw("]");
		}
		out.end();
	}
}
// the bits of the lanes in hexadecimal: "256i( 0 ff ..)"
static void bits(int passes)
{
	unary("uu", 0, passes, [&](V x) {
		std::ostringstream s;
		s << x.uu();
		std::string t = s.str();
		bool ok = t.size() > 6 && t.compare(0, 5, "256i(") == 0 && t[t.size() - 1] == ')';
		std::istringstream w(ok ? t.substr(5, t.size() - 6) : "");
		for (int j = 0; j < 32; j++)
		{
			int v = -1;
			w >> std::hex >> v;
			if (j) out.raw(",");
			out.i(v);
		}
	});
}

int main(int argc, char **argv)
{
	install_handlers();
	// what the library writes of its own accord does not mix with the trace
	out.f = fdopen(dup(1), "w");
	if (!out.f || !freopen("/dev/null", "w", stdout)) return 3;
	size_t n = 4000;
	int passes = 4;
	uint64_t seed = 1;
	std::string ops;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--ops") ops = "," + v + ",";
		else if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--n") n = strtoull(v.c_str(), 0, 10);
		else if (k == "--passes") passes = atoi(v.c_str());
		else if (k == "--idx") IDX = atoi(v.c_str());
	}
	Rng rng(seed * 1000003 + 25);
	G = &rng;
	auto want = [&](const char *o) { return ops.empty() || ops.find(std::string(",") + o + ",") != std::string::npos; };
	for (const char *o : {"add", "sub", "mul", "div"})
		if (want(o)) binary(o);
	for (const char *o : {"neg", "inv", "half", "twice", "square", "exp2", "same"})
		if (want(o)) for (int f = 0; f < 2; f++) plain(o, f, passes);
	if (want("gauss")) gauss(passes);
	if (want("bits")) bits(passes);
	if (want("mask")) masks(passes);
	if (want("f32o")) floats(passes);
	if (want("f32i")) numbers(n);
	if (want("tdec")) { text(passes, 6); text(passes, 9); }
	out.flush();
	fflush(out.f);
	return 0;
}
