// Calls the MATLAB functions floatTop8, p8Tofloat, p8binop and p8unop on arrays, with a stand-in for MATLAB.
//   -DMEX_FLOATTOP8="file" -DMEX_P8TOFLOAT="file" -DMEX_P8BINOP="file" -DMEX_P8UNOP="file"
#include "mex.h"
#include <stdint.h>
#define mexFunction floatTop8
#include MEX_FLOATTOP8
#undef mexFunction
#define mexFunction p8Tofloat
#include MEX_P8TOFLOAT
#undef mexFunction
#define mexFunction p8binop
#include MEX_P8BINOP
#undef mexFunction
#define mexFunction p8unop
#include MEX_P8UNOP
#undef mexFunction
#include "gen.hpp"

static Out out;
static Rng *G;
typedef void (*Fn)(int, mxArray *[], int, const mxArray *[]);

static void key(const char *k) { out.raw(",\""); out.raw(k); out.raw("\":"); }
static void head(const char *op) { out.raw("{\"o\":\""); out.raw(op); out.raw("\",\"c\":1"); }

static mxArray arr(mxClassID c, std::vector<mwSize> d, bool cplx = false)
{
	mxArray a;
	a.cls = c;
	a.dims = d;
	a.cplx = cplx;
	a.data.assign(mxGetNumberOfElements(&a) * (cplx ? 2 : 1) * mex_size(c) + MEX_GUARD, 0xA5);
	return a;
}
static mxArray str(const std::string &s)
{
	mxArray a;
	a.cls = mxCHAR_CLASS;
	a.dims = {1, s.size()};
	a.text = s;
	return a;
}
static long changed = 0; // bytes behind the arrays, or of the arguments, that calls changed
// one call: the result, or null if none was made
static mxArray *call(const char *what, Fn f, std::vector<const mxArray *> in, int nlhs = 1)
{
	snprintf(g_doing, sizeof g_doing, "op=%s", what);
	mxArray *o[2] = {nullptr, nullptr};
	std::vector<const mxArray *> args = in;
	args.resize(4, nullptr);
	std::vector<std::vector<unsigned char>> kept;
	for (const mxArray *a : in) kept.push_back(a->data);
	try { f(nlhs, o, (int)in.size(), args.data()); }
	catch (mex_error) { }
	for (size_t k = 0; k < in.size(); k++)
		for (size_t i = 0; i < in[k]->data.size(); i++) changed += in[k]->data[i] != kept[k][i];
	for (mxArray *a : mex_made)
		for (size_t i = a->data.size() - MEX_GUARD; i < a->data.size(); i++) changed += a->data[i] != 0xA5;
	for (mxArray *a : mex_made) if (a != o[0]) delete a;
	mex_made.clear();
	static mxArray *last = nullptr;
	delete last;
	return last = o[0];
}
// shapes: any number of dimensions with n elements in total, and sometimes complex
static std::vector<mwSize> shape(size_t n)
{
	switch (G->below(4))
	{
	case 0: return {1, n};
	case 1: return {n, 1};
	case 2: return n % 4 ? std::vector<mwSize>{n, 1, 1} : std::vector<mwSize>{n / 4, 4};
	default: return n % 8 ? std::vector<mwSize>{1, 1, n} : std::vector<mwSize>{2, n / 8, 4};
	}
}
static void shapes(const mxArray &a, mxClassID c, const mxArray *r)
{
	auto w = [](mxClassID c, const std::vector<mwSize> &d, bool x) {
		out.raw("["); out.i(c); out.raw(","); out.i(x);
		for (mwSize k : d) { out.raw(","); out.ci((long long)k); }
		out.raw("]");
	};
	head("shape");
	key("a"); out.raw("["); w(c, a.dims, a.cplx); out.raw("]");
	key("r"); out.raw("["); if (r) w(r->cls, r->dims, r->cplx); else out.raw("[]"); out.raw("]");
	out.end();
}
template <class W> static W at(const mxArray *a, size_t i) { W w = 0; if (a && (i + 1) * sizeof(W) + MEX_GUARD <= a->data.size()) memcpy(&w, a->data.data() + i * sizeof(W), sizeof w); return w; }

static void binary(const char *op, const char *sym)
{
	mxArray s = str(sym);
	for (int a = -128; a < 128; a++)
	{
		bool cplx = a % 5 == 0;
		std::vector<mwSize> d = shape(cplx ? 128 : 256);
		mxArray x = arr(mxINT8_CLASS, d, cplx), y = arr(mxINT8_CLASS, d, cplx);
		for (int k = 0; k < 256; k++) { x.data[k] = (unsigned char)a; y.data[k] = (unsigned char)(k - 128); }
		mxArray *r = call(op, p8binop, {&x, &y, &s});
		if (a % 16 == 0) shapes(x, mxINT8_CLASS, r);
		head(op);
		key("a"); out.i(a);
		key("b"); out.raw("["); for (int k = 0; k < 256; k++) { if (k) out.raw(","); out.i(k - 128); } out.raw("]");
		key("r"); out.raw("["); for (int k = 0; k < 256; k++) { if (k) out.raw(","); out.i(r ? at<int8_t>(r, k) : 0); } out.raw("]");
		out.end();
	}
}
static std::vector<int> all()
{
	std::vector<int> v;
	for (int k = -128; k < 128; k++) v.push_back(k);
	for (int k = 255; k > 0; k--) std::swap(v[k], v[G->below((unsigned)k + 1)]);
	return v;
}
static void inverse()
{
	mxArray s = str("inv");
	for (int q = 0; q < 4; q++)
	{
		std::vector<int> v = all();
		mxArray x = arr(mxINT8_CLASS, shape(q % 2 ? 128 : 256), q % 2);
		for (int k = 0; k < 256; k++) x.data[k] = (unsigned char)v[k];
		mxArray *r = call("inv", p8unop, {&x, &s});
		shapes(x, mxINT8_CLASS, r);
		head("inv");
		key("a"); out.raw("["); for (int k = 0; k < 256; k++) { if (k) out.raw(","); out.i(v[k]); } out.raw("]");
		key("r"); out.raw("["); for (int k = 0; k < 256; k++) { if (k) out.raw(","); out.i(r ? at<int8_t>(r, k) : 0); } out.raw("]");
		out.end();
	}
}
template <class W> static void tofloat(const char *op, mxClassID c)
{
	for (int q = 0; q < 4; q++)
	{
		std::vector<int> v = all();
		mxArray x = arr(mxINT8_CLASS, shape(q % 2 ? 128 : 256), q % 2), t = arr(c, {1, 1});
		for (int k = 0; k < 256; k++) x.data[k] = (unsigned char)v[k];
		mxArray *r = call(op, p8Tofloat, {&x, &t});
		shapes(x, c, r);
		head(op);
		key("a"); out.raw("["); for (int k = 0; k < 256; k++) { if (k) out.raw(","); out.i(v[k]); } out.raw("]");
		key("r"); out.raw("["); for (int k = 0; k < 256; k++) { if (k) out.raw(","); out.word(at<W>(r, k)); } out.raw("]");
		out.end();
	}
}
template <class W, int EB, int FB> static void fromfloat(const char *op, mxClassID c, size_t n)
{
	const W emax = (W)(((W)1 << EB) - 1), sg = (W)((W)1 << (EB + FB)), fm = (W)(((W)1 << FB) - 1);
	const int bias = emax >> 1;
	for (size_t q = 0; q < n; q += 64)
	{
		bool cplx = G->below(2);
		mxArray x = arr(c, shape(cplx ? 32 : 64), cplx);
		std::vector<W> v(64);
		for (W &w : v)
		{
			W s[10] = {0, sg, (W)(emax << FB), (W)(emax << FB | sg), (W)(emax << FB | 1), 1, (W)((emax << FB) - 1), (W)((W)bias << FB), fm, (W)((W)1 << FB)};
			int e = bias + G->range(-9, 9);
			w = G->below(8) == 0 ? s[G->below(10)] : (W)((G->below(2) ? sg : 0) | ((W)e << FB) | (G->below(2) ? (W)(G->next() & fm) : (W)((G->next() << (FB > 7 ? FB - 7 : 0)) & fm)));
			if (G->below(4) == 0) w = (W)(w + (G->below(2) ? 1 : -1)); // the neighbours of short words
		}
		memcpy(x.data.data(), v.data(), 64 * sizeof(W));
		mxArray *r = call(op, floatTop8, {&x});
		if (q % 512 == 0) shapes(x, mxINT8_CLASS, r);
		head(op);
		key("a"); out.raw("["); for (int k = 0; k < 64; k++) { if (k) out.raw(","); out.word(v[k]); } out.raw("]");
		key("r"); out.raw("["); for (int k = 0; k < 64; k++) { if (k) out.raw(","); out.i(r ? at<int8_t>(r, k) : 0); } out.raw("]");
		out.end();
	}
}
// calls that must be refused: a message and no array
static void refuse(const char *what, Fn f, std::vector<const mxArray *> in, int nlhs = 1)
{
	int before = mex_messages;
	mxArray *r = call(what, f, in, nlhs);
	head("refuse");
	key("q"); out.raw("\""); out.raw(what); out.raw("\"");
	key("a"); out.raw("[0]");
	key("r"); out.raw("[["); out.i(mex_messages > before); out.raw(","); out.i(r != nullptr); out.raw("]]");
	out.end();
}

int main(int argc, char **argv)
{
	install_handlers();
	out.f = stdout;
	uint64_t seed = 1;
	size_t n = 4096;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--n") n = strtoull(v.c_str(), 0, 10);
	}
	Rng rng(seed * 7 + 28);
	G = &rng;
	binary("add", "+");
	binary("sub", "-");
	binary("mul", "*");
	binary("div", "/");
	inverse();
	tofloat<uint64_t>("f64o", mxDOUBLE_CLASS);
	tofloat<uint32_t>("f32o", mxSINGLE_CLASS);
	tofloat<uint16_t>("f16o", mxINT16_CLASS);
	tofloat<uint16_t>("f16o", mxUINT16_CLASS);
	fromfloat<uint64_t, 11, 52>("f64i", mxDOUBLE_CLASS, n);
	fromfloat<uint32_t, 8, 23>("f32i", mxSINGLE_CLASS, n);
	fromfloat<uint16_t, 5, 10>("f16i", mxINT16_CLASS, n);
	fromfloat<uint16_t, 5, 10>("f16i", mxUINT16_CLASS, n);
	mxArray p = arr(mxINT8_CLASS, {2, 3}), q = arr(mxINT8_CLASS, {7, 1}), d = arr(mxDOUBLE_CLASS, {2, 3}), u = arr(mxUINT8_CLASS, {2, 3}), plus = str("+"), two = str("++"), inv = str("inv");
	mxArray pc = arr(mxINT8_CLASS, {3, 1}, true);
	refuse("p8binop of different sizes", p8binop, {&p, &q, &plus});
	refuse("p8binop of a real and a complex array", p8binop, {&p, &pc, &plus});
	refuse("p8binop of a complex and a real array", p8binop, {&pc, &p, &plus});
	refuse("p8binop of a double", p8binop, {&d, &p, &plus});
	refuse("p8binop of doubles", p8binop, {&d, &d, &plus});
	refuse("p8binop of unsigned", p8binop, {&u, &u, &plus});
	refuse("p8binop without a text", p8binop, {&p, &p, &p});
	refuse("p8binop with a longer text", p8binop, {&p, &p, &two});
	refuse("p8binop of two arguments", p8binop, {&p, &p});
	refuse("p8unop of a double", p8unop, {&d, &inv});
	refuse("p8unop without a text", p8unop, {&p, &p});
	refuse("p8unop of one argument", p8unop, {&p});
	refuse("p8Tofloat of a double", p8Tofloat, {&d, &d});
	refuse("p8Tofloat to bytes", p8Tofloat, {&p, &u});
	refuse("p8Tofloat of one argument", p8Tofloat, {&p});
	refuse("floatTop8 of nothing", floatTop8, {});
	head("guard");
	key("a"); out.raw("[0]");
	key("r"); out.raw("["); out.i(changed > 0); out.raw("]");
	out.end();
	out.flush();
	fflush(stdout);
	return 0;
}
