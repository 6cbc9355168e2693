// Vectors and matrices of posits in Eigen, through positeigen.h; records what every coefficient and reduction returned.
//   -DIDX -DT -DN -DES -DFT -DSPEC: one configuration per binary
#include "positeigen.h"
#include <Eigen/Core>
#include "gen.hpp"

typedef Posit<T_, N_, ES_, FT_, PositSpec::SPEC_> P;
typedef P::value_t T;
typedef Eigen::Matrix<P, Eigen::Dynamic, Eigen::Dynamic> M;
typedef Eigen::Matrix<P, Eigen::Dynamic, 1> V;
typedef Eigen::NumTraits<P> NT;
static Out out;
static const int N = P::vtotalbits, ES = P::vesbits;
static const bool wide = sizeof(T) >= 4;
static Rng *G;

static P mk(T v) { return P(P::DeepInit(), v); }
static void pat(T x) { if (wide) out.sint((__int128)x); else out.i((long long)x); }
static void key(const char *k) { out.raw(",\""); out.raw(k); out.raw("\":"); }
static void head(const char *op) { out.raw("{\"o\":\""); out.raw(op); out.raw("\",\"c\":"); out.i(IDX_); snprintf(g_doing, sizeof g_doing, "op=%s n=%d", op, N); }
template <class D, class F> static void list(const char *k, const D &v, F f)
{
	key(k);
	out.raw("[");
	for (Eigen::Index i = 0; i < (Eigen::Index)v.size(); i++) { if (i) out.raw(","); f(v[i]); }
	out.raw("]");
}
static void pats(const char *k, const V &v) { list(k, v, [](P x) { pat(x.v); }); }
static V vec(const std::vector<T> &x) { V v((Eigen::Index)x.size()); for (size_t i = 0; i < x.size(); i++) v[(Eigen::Index)i] = mk(x[i]); return v; }

static void brow(const char *op, int form, P a, const V &b, const V &r)
{
	head(op);
	key("f"); out.i(form);
	key("a"); pat(a.v);
	pats("b", b);
	pats("r", r);
	out.end();
}
static void urow(const char *op, int form, const V &a, const V &r)
{
	head(op);
	key("f"); out.i(form);
	pats("a", a);
	pats("r", r);
	out.end();
}
static void elementwise(Gen<T> &g, int rows)
{
	for (int k = 0; k < rows; k++)
	{
		P a = mk(k < 24 ? g.special((unsigned)k) : g.any());
		std::vector<T> bs;
		for (int j = 0; j < 48; j++) bs.push_back(j < 24 && k % 4 == 0 ? g.special((unsigned)j) : j % 2 ? g.any() : g.partner(a.v));
		V b = vec(bs), A = V::Constant(b.size(), a), r;
		r = A + b; brow("add", 0, a, b, r);
		r = A; r += b; brow("add", 1, a, b, r);
		r = A - b; brow("sub", 0, a, b, r);
		r = A.cwiseProduct(b); brow("mul", 0, a, b, r);
		r = a * b; brow("mul", 1, a, b, r);
		r = b * a; brow("mul", 2, a, b, r);
		r = b; r *= a; brow("mul", 3, a, b, r);
		r = A.cwiseQuotient(b); brow("div", 0, a, b, r);
		r = (A.array() / b.array()).matrix(); brow("div", 1, a, b, r);
		r = (a / b.array()).matrix(); brow("div", 2, a, b, r);
		r = A.cwiseMin(b); brow("min", 0, a, b, r);
		r = A.cwiseMax(b); brow("max", 0, a, b, r);
		// b op a, element by element
		V q = b / a, s = b; s /= a;
		for (int form = 3; form < 5; form++)
			for (Eigen::Index i = 0; i < b.size(); i += 7) brow("div", form, b[i], V::Constant(1, a), V::Constant(1, form == 3 ? q[i] : s[i]));
		typedef Eigen::Array<bool, Eigen::Dynamic, 1> B;
		B c[6] = {A.array() == b.array(), A.array() != b.array(), A.array() < b.array(), A.array() <= b.array(), A.array() > b.array(), A.array() >= b.array()};
		head("cmp");
		key("f"); out.i(0);
		key("a"); pat(a.v);
		pats("b", b);
		key("r"); out.raw("[");
		for (Eigen::Index i = 0; i < b.size(); i++)
		{
			int m = 0;
			for (int j = 0; j < 6; j++) m |= c[j][i] << j;
			if (i) out.raw(",");
			out.i(m);
		}
		out.raw("]");
		out.end();
		r = -b; urow("neg", 0, b, r);
		r = b.cwiseAbs(); urow("abs", 0, b, r);
		r = b.array().abs().matrix(); urow("abs", 1, b, r);
		r = b.cwiseAbs2(); urow("square", 0, b, r);
		r = b.array().square().matrix(); urow("square", 1, b, r);
		M m = b.transpose(); r = m.transpose(); urow("same", 0, b, r);
		r = b.template cast<double>().template cast<P>(); if (N <= 32) urow("same", 1, b, r);
		V inv = b.cwiseInverse(); brow("div", 5, P(1), b, inv);
		inv = b.array().inverse().matrix(); brow("div", 6, P(1), b, inv);
	}
}
template <class F, class W> static void fout(const char *op, const V &v)
{
	Eigen::Matrix<F, Eigen::Dynamic, 1> f = v.template cast<F>();
	head(op);
	pats("a", v);
	list("r", f, [](F x) { W w; memcpy(&w, &x, sizeof w); out.word(w); });
	out.end();
}
template <class F, class W, int EB, int FB> static void fin(const char *op)
{
	const W emax = ((W)1 << EB) - 1, sg = (W)1 << (EB + FB);
	Eigen::Matrix<F, Eigen::Dynamic, 1> f(48);
	for (int i = 0; i < 48; i++)
	{
		W w;
		switch (G->below(12))
		{
		case 0: { W s[8] = {0, sg, (W)(emax << FB), (W)(emax << FB | sg), (W)(emax << FB | (W)1 << (FB - 1)), 1, (W)((emax << FB) - 1), (W)((emax >> 1) << FB)}; w = s[G->below(8)]; break; }
		default: w = (G->below(2) ? sg : 0) | (W)((long)(emax >> 1) + G->range(-50, 50)) << FB | ((W)G->next() & (((W)1 << FB) - 1) & ~((G->below(3) ? (W)0 : (W)1 << G->below(FB)) - (W)0));
		}
		memcpy(&f[i], &w, sizeof w);
	}
	V r = f.template cast<P>();
	head(op);
	list("a", f, [](F x) { W w; memcpy(&w, &x, sizeof w); out.word(w); });
	pats("r", r);
	out.end();
}
static void casts(Gen<T> &g, int rows)
{
	for (int k = 0; k < rows; k++)
	{
		std::vector<T> xs;
		for (int j = 0; j < 48; j++) xs.push_back(j < 24 && k == 0 ? g.special((unsigned)j) : g.any());
		V v = vec(xs);
		fout<float, uint32_t>("f32o", v);
		fout<double, uint64_t>("f64o", v);
		Eigen::VectorXi q = v.cast<int>();
		head("into");
		pats("a", v);
		list("r", q, [](int x) { out.sint(x); });
		out.end();
		fin<float, uint32_t, 8, 23>("f32i");
		fin<double, uint64_t, 11, 52>("f64i");
		Eigen::VectorXi z(48);
		for (int i = 0; i < 48; i++) { int x = (int)(g.g.next() >> (33 + g.g.below(30))); z[i] = g.g.below(8) ? (g.g.below(2) ? x : -x) : (int)0x80000000 + i; }
		V r = z.cast<P>();
		head("inti");
		list("a", z, [](int x) { out.sint(x); });
		pats("r", r);
		out.end();
	}
}
static void constants()
{
	M z = M::Zero(3, 3), o = M::Ones(3, 3), e = M::Identity(3, 3);
	std::vector<std::pair<const char *, P>> cs = {{"zero", z(1, 2)}, {"zero", z(0, 0)}, {"one", o(0, 0)}, {"one", o(2, 1)}, {"one", e(0, 0)}, {"one", e(2, 2)}, {"zero", e(0, 1)}, {"zero", e(2, 0)},
		{"max", NT::highest()}, {"lowest", NT::lowest()}, {"epsilon", NT::epsilon()}, {"zero", NT::dummy_precision()}};
	if (P::PT::positspec != PositSpec::WithNan) cs.push_back({"pinf", NT::infinity()});
	if (P::withnan) cs.push_back({"nan", NT::quiet_NaN()});
	head("const");
	key("n"); out.raw("[");
	for (size_t i = 0; i < cs.size(); i++) { if (i) out.raw(","); out.raw("\""); out.raw(cs[i].first); out.raw("\""); }
	out.raw("]");
	key("r"); out.raw("[");
	for (size_t i = 0; i < cs.size(); i++) { if (i) out.raw(","); pat(cs[i].second.v); }
	out.raw("]");
	out.end();
	head("ntraits");
	key("a"); out.raw("[0]");
	key("r"); out.raw("[[");
	out.i(NT::IsComplex); out.raw(","); out.i(NT::IsInteger); out.raw(","); out.i(NT::IsSigned); out.raw(",");
	out.i(NT::RequireInitialization); out.raw(","); out.i(NT::digits10()); out.raw(",");
	out.i(std::is_same<NT::Real, P>::value && std::is_same<NT::NonInteger, P>::value && std::is_same<NT::Nested, P>::value);
	out.raw("]]");
	out.end();
}
// reductions: the rows list the vectors and what came out
static std::vector<V> A_, B_;
static std::vector<P> R_;
static void push(const V &a, const V &b, P r) { A_.push_back(a); B_.push_back(b); R_.push_back(r); }
static void emit(const char *op, int form)
{
	auto vs = [](const V &v) { out.raw("["); for (Eigen::Index i = 0; i < v.size(); i++) { if (i) out.raw(","); pat(v[i].v); } out.raw("]"); };
	for (size_t k = 0; k < R_.size(); k += 16)
	{
		size_t m = std::min(R_.size(), k + 16);
		head(op);
		key("f"); out.i(form);
		key("a"); out.raw("["); for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); vs(A_[i]); } out.raw("]");
		key("b"); out.raw("["); for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); vs(B_[i]); } out.raw("]");
		key("r"); out.raw("["); for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); pat(R_[i].v); } out.raw("]");
		out.end();
	}
	A_.clear(); B_.clear(); R_.clear();
}
static M random(Gen<T> &g, int r, int c)
{
	M m(r, c);
	// numbers of similar size mostly: sums that lose some bits
	int mode = g.g.below(4);
	T base = g.any();
	for (int i = 0; i < r; i++)
		for (int j = 0; j < c; j++)
			m(i, j) = mk(mode == 0 ? g.any() : mode == 1 ? g.partner(base) : g.wrap((g.g.below(2) ? 1 : -1) * (((__int128)1 << (N - 2)) + (__int128)(int64_t)(g.g.next() >> 8) % ((__int128)1 << (N - 3)))));
	return m;
}
static void reductions(Gen<T> &g, int n)
{
	V none;
	struct K { const char *op; int form; std::vector<V> a, b; std::vector<P> r; };
	std::vector<K> ks;
	auto add = [&](const char *op, int form, const V &a, const V &b, P r) {
		for (K &k : ks) if (k.op == std::string(op) && k.form == form) { k.a.push_back(a); k.b.push_back(b); k.r.push_back(r); return; }
		ks.push_back({op, form, {a}, {b}, {r}});
	};
	for (int k = 0; k < n; k++)
	{
		int len = 1 + (int)G->below(4);
		snprintf(g_doing, sizeof g_doing, "op=reductions n=%d k=%d", N, k);
		M m = random(g, len, 3), q = random(g, len, 2);
		V x = m.col(0), y = m.col(1);
		add("sum", 0, x, none, x.sum());
		add("prodv", 0, x, none, x.prod());
		add("minv", 0, x, none, x.minCoeff());
		add("maxv", 0, x, none, x.maxCoeff());
		add("dots", 0, x, y, x.dot(y));
		add("dots", 1, x, x, x.squaredNorm());
		add("dots", 2, x, y, (x.transpose() * y)(0, 0));
		add("dots", 3, x, y, x.cwiseProduct(y).sum());
		// fixed size: unrolled
		if (len == 3)
		{
			Eigen::Matrix<P, 3, 1> fx = x, fy = y;
			add("sum", 1, x, none, fx.sum());
			add("dots", 4, x, y, fx.dot(fy));
			Eigen::Matrix<P, 3, 3> f3 = random(g, 3, 3), g3 = random(g, 3, 3), p3 = f3 * g3;
			for (int i = 0; i < 3; i++)
				for (int j = 0; j < 3; j++) add("dots", 5, f3.row(i).transpose(), g3.col(j), p3(i, j));
			add("sum", 2, f3.diagonal(), none, f3.trace());
			V s3 = f3 * fx;
			for (int i = 0; i < 3; i++) add("dots", 6, f3.row(i).transpose(), x, s3[i]);
		}
		M c = m.transpose() * q;
		for (int i = 0; i < 3; i++)
			for (int j = 0; j < 2; j++) add("dots", 7, m.col(i), q.col(j), c(i, j));
		V w = m.transpose() * y;
		for (int i = 0; i < 3; i++) add("dots", 8, m.col(i), y, w[i]);
		V cs = m.colwise().sum().transpose();
		for (int i = 0; i < 3; i++) add("sum", 3, m.col(i), none, cs[i]);
		c = x * y.transpose();
		for (int i = 0; i < len; i++) add("dots", 9, V::Constant(1, x[i]), V::Constant(1, y[len - 1 - i]), c(i, len - 1 - i));
	}
	for (K &k : ks) { A_ = k.a; B_ = k.b; R_ = k.r; emit(k.op, k.form); }
}
// larger products of small integers: whatever the order, every partial sum is a posit and the result exact
static void exact(int n)
{
	int k = 0;
	while (true)
	{
		int run = ((k + 1) >> ES) + 2, fb = N - 1 - run - ES;
		if (fb < k + 1 || k > 10) break;
		k++;
	}
	long bound = (1l << k) - 1;
	for (int q = 0; q < n; q++)
	{
		int rows = 1 + (int)G->below(24), inner = 1 + (int)G->below(40), cols = 1 + (int)G->below(24);
		std::vector<std::vector<int>> a(rows, std::vector<int>(inner, 0)), b(inner, std::vector<int>(cols, 0));
		int amp = 1 + (int)G->below(3);
		int one_in = 1 + (int)G->below((unsigned)(1 + 2 * inner * amp * amp / std::max(1l, bound)));
		for (auto &r : a) for (int &x : r) if (!G->below((unsigned)one_in)) x = G->range(-amp, amp);
		for (auto &r : b) for (int &x : r) x = G->range(-amp, amp);
		// within the bound
		for (int i = 0; i < rows; i++)
			for (int j = 0; j < cols; j++)
			{
				long s = 0;
				for (int l = 0; l < inner; l++) { s += std::labs((long)a[i][l] * b[l][j]); if (s > bound) a[i][l] = 0, s = 0; }
			}
		bool ok = true;
		for (int i = 0; i < rows; i++)
			for (int j = 0; j < cols; j++)
			{
				long s = 0;
				for (int l = 0; l < inner; l++) s += std::labs((long)a[i][l] * b[l][j]);
				ok = ok && s <= bound;
			}
		if (!ok) continue;
		M A(rows, inner), B(inner, cols);
		for (int i = 0; i < rows; i++) for (int l = 0; l < inner; l++) A(i, l) = P(a[i][l]);
		for (int l = 0; l < inner; l++) for (int j = 0; j < cols; j++) B(l, j) = P(b[l][j]);
		snprintf(g_doing, sizeof g_doing, "op=exdot n=%d %dx%dx%d", N, rows, inner, cols);
		M C = A * B, D = M::Zero(rows, cols);
		D.noalias() += A * B;
		for (int k = 0; k < 8; k++)
		{
			int i = (int)G->below((unsigned)rows), j = (int)G->below((unsigned)cols);
			push(A.row(i).transpose(), B.col(j), k % 2 ? D(i, j) : C(i, j));
		}
		V x = B.col(0), w = A * x;
		int i = (int)G->below((unsigned)rows);
		push(A.row(i).transpose(), x, w[i]);
		push(A.row(i).transpose(), x, A.row(i).transpose().dot(x));
		V f = A.row(i).transpose();
		push(f, x, f.cwiseProduct(x).sum());
	}
	emit("exdot", 0);
}

int main(int argc, char **argv)
{
	install_handlers();
	out.f = stdout;
	int n = 40;
	uint64_t seed = 1;
	std::string ops;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--ops") ops = "," + v + ",";
		else if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--n") n = atoi(v.c_str());
	}
	Rng rng(seed * 1000003 + N + 100 * ES);
	G = &rng;
	Gen<T> g(N, ES, rng);
	auto want = [&](const char *o) { return ops.empty() || ops.find(std::string(",") + o + ",") != std::string::npos; };
	if (want("elem")) elementwise(g, n);
	if (want("cast")) casts(g, n / 2 + 1);
	if (want("const")) constants();
	if (want("red")) reductions(g, 2 * n);
	if (want("exact")) exact(n);
	out.flush();
	fflush(stdout);
	return 0;
}
