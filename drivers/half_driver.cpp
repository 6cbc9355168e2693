// Calls halfprecision (with a stand-in for MATLAB) and the standalone conversion functions and records every element.
//   -DMEX_HALF="halfprecision.c" -DIEEE_HALF="ieeehalfprecision.c"
#include "mex.h"
#include <stdint.h>
#include <string.h>
#define mexFunction halfprecision
#include MEX_HALF
#undef mexFunction
#undef INT16_TYPE
#undef UINT16_TYPE
#undef INT32_TYPE
#undef UINT32_TYPE
namespace alone
{
#include IEEE_HALF
}
#include "gen.hpp"

static Out out;
static Rng *G;
static void key(const char *k) { out.raw(",\""); out.raw(k); out.raw("\":"); }
static void head(const char *op) { out.raw("{\"o\":\""); out.raw(op); out.raw("\",\"c\":1"); }
static long changed = 0;

static mxArray arr(mxClassID c, std::vector<mwSize> d, bool cplx = false)
{
	mxArray a;
	a.cls = c; a.dims = d; a.cplx = cplx; a.sparse = false; a.alive = true;
	a.re.assign(mxGetNumberOfElements(&a) * mex_size(c) + MEX_GUARD, 0xA5);
	if (cplx) a.im = a.re;
	return a;
}
static mxArray str(const std::string &s)
{
	mxArray a = arr(mxCHAR_CLASS, {1, s.size()});
	a.text = s;
	return a;
}
static void guards(const mxArray *a)
{
	for (const std::vector<unsigned char> *v : {&a->re, &a->im})
		if (!v->empty())
			for (size_t i = v->size() - MEX_GUARD; i < v->size(); i++) changed += (*v)[i] != 0xA5;
}
// one call: the result, or null if none was made
static mxArray *call(const char *what, std::vector<const mxArray *> in, int nlhs = 1)
{
	snprintf(g_doing, sizeof g_doing, "op=%s", what);
	mxArray *o[2] = {nullptr, nullptr};
	std::vector<const mxArray *> args = in;
	args.resize(4, nullptr);
	std::vector<std::vector<unsigned char>> kept;
	for (const mxArray *a : in) { kept.push_back(a->re); kept.push_back(a->im); }
	try { halfprecision(nlhs, o, (int)in.size(), args.data()); }
	catch (mex_error) { }
	for (size_t k = 0; k < in.size(); k++) changed += in[k]->re != kept[2 * k] || in[k]->im != kept[2 * k + 1];
	static mxArray *last = nullptr;
	for (mxArray *a : mex_made) { guards(a); if (a != o[0] && a != last) delete a; }
	mex_made.clear();
	delete last;
	if (o[0] && !o[0]->alive) changed++;
	return last = o[0];
}
static std::vector<mwSize> shape(size_t n)
{
	switch (G->below(4))
	{
	case 0: return {1, n};
	case 1: return {n, 1};
	case 2: return n % 4 ? std::vector<mwSize>{n, 1, 1} : std::vector<mwSize>{n / 4, 4};
	default: return n % 8 ? std::vector<mwSize>{1, 1, n} : std::vector<mwSize>{2, n / 8, 4};
	}
}
static void shapes(const mxArray &a, mxClassID c, const mxArray *r)
{
	auto w = [](mxClassID c, const std::vector<mwSize> &d, bool x) {
		out.raw("["); out.i(c); out.raw(","); out.i(x);
		for (mwSize k : d) { out.raw(","); out.ci((long long)k); }
		out.raw("]");
	};
	head("shape");
	key("a"); out.raw("["); w(c, a.dims, a.cplx); out.raw("]");
	key("r"); out.raw("["); if (r) w(r->cls, r->dims, r->cplx); else out.raw("[]"); out.raw("]");
	out.end();
}
// the k-th element: the real parts, then the imaginary ones
template <class W> static W at(const mxArray *a, size_t k, size_t n)
{
	W w = 0;
	if (!a) return w;
	const std::vector<unsigned char> &v = k < n ? a->re : a->im;
	k %= n;
	if ((k + 1) * sizeof(W) + MEX_GUARD <= v.size()) memcpy(&w, v.data() + k * sizeof(W), sizeof w);
	return w;
}
template <class W> static mxArray fill(mxClassID c, const std::vector<W> &v)
{
	bool cplx = v.size() % 2 == 0 && G->below(2);
	size_t n = v.size() / (cplx ? 2 : 1);
	mxArray x = arr(c, shape(n), cplx);
	memcpy(x.re.data(), v.data(), n * sizeof(W));
	if (cplx) memcpy(x.im.data(), v.data() + n, n * sizeof(W));
	return x;
}
static void put(uint16_t w) { out.word(w); }
static void put(uint32_t w) { out.word(w); }
static void put(uint64_t w) { out.word(w); }
template <class W, class R> static void row(const char *op, int width, const std::vector<W> &v, const std::vector<R> &r)
{
	head(op);
	key("w"); out.i(width);
	key("a"); out.raw("["); for (size_t k = 0; k < v.size(); k++) { if (k) out.raw(","); put(v[k]); } out.raw("]");
	key("r"); out.raw("["); for (size_t k = 0; k < r.size(); k++) { if (k) out.raw(","); put(r[k]); } out.raw("]");
	out.end();
}
template <class W, class R> static std::vector<R> results(const mxArray *r, const mxArray &x, const std::vector<W> &v)
{
	std::vector<R> o;
	for (size_t k = 0; k < v.size(); k++) o.push_back(at<R>(r, k, mxGetNumberOfElements(&x)));
	return o;
}
template <class W, int EB, int FB> static std::vector<W> floats(size_t n, bool all)
{
	const W emax = (W)(((W)1 << EB) - 1), sg = (W)((W)1 << (EB + FB)), fm = (W)(((W)1 << FB) - 1);
	const int bias = emax >> 1;
	std::vector<W> v;
	// zero, infinity, NaN, denormals (also those with bits in the high word of a double), the smallest and largest
	std::vector<W> s;
	for (W g : {(W)0, sg})
		for (W w : {(W)0, (W)(emax << FB), (W)(emax << FB | 1), (W)(emax << FB | (W)1 << (FB - 1)), (W)(emax << FB | fm), (W)1, fm, (W)((W)1 << (FB - 1)), (W)(G->next() & fm), (W)((W)1 << FB), (W)((emax << FB) - 1), (W)((W)bias << FB)})
			s.push_back(g | w);
	if (all) v = s;
	while (v.size() < n)
	{
		// the exponents of halves, of their denormals, and around
		int e = G->below(12) == 0 ? (int)G->below((unsigned)emax + 1) : G->below(3) ? bias + G->range(-27, 18) : bias + (G->below(2) ? G->range(-26, -13) : G->range(13, 17));
		W f;
		// halves, midpoints and their neighbours
		switch (G->below(6))
		{
		case 0: f = (W)(G->next() & fm); break;
		case 1: f = (W)((G->next() << (FB - 10)) & fm); break;
		case 2: f = (W)((G->next() << (FB - 11)) & fm); break;
		case 3: f = (W)((G->next() << (FB - 1 - G->below(13))) & fm); break;
		case 4: f = (W)(fm << G->below(FB)) & fm; break;
		default: f = 0; break;
		}
		W w = G->below(12) == 0 ? s[G->below((unsigned)s.size())] : (W)((G->below(2) ? sg : 0) | ((W)e << FB) | f);
		if (G->below(3) == 0) w = (W)(w + (G->below(2) ? 1 : -1));
		v.push_back(w);
	}
	return v;
}
template <class W, int EB, int FB> static void in_floats(mxClassID c, size_t n, int (*f)(void *, void *, int))
{
	for (size_t q = 0; q < n; q += 64)
	{
		std::vector<W> v = floats<W, EB, FB>(q % 3 ? 64 : 33, q % 512 < 128);
		mxArray x = fill(c, v);
		mxArray *r = call("to half", {&x});
		if (q % 512 == 0) shapes(x, mxUINT16_CLASS, r);
		row("away", EB + FB + 1, v, results<W, uint16_t>(r, x, v));
		std::vector<uint16_t> t(v.size() + 8, 0xA5A5);
		std::vector<W> kept = v;
		int rc = f(t.data(), v.data(), (int)v.size());
		for (size_t k = v.size(); k < t.size(); k++) changed += t[k] != 0xA5A5;
		changed += rc != 0 || v != kept;
		t.resize(v.size());
		row("away", EB + FB + 1, v, t);
	}
}
// integers: by way of MATLAB's single
template <class I> static void in_ints(mxClassID c, size_t n)
{
	for (size_t q = 0; q < n; q += 64)
	{
		std::vector<I> v;
		while (v.size() < 64) { int k = 1 + (int)G->below(sizeof(I) * 8); I w = (I)(G->next() & (k == 64 ? ~0ull : (1ull << k) - 1)); if (G->below(2)) w = (I)(0 - w); v.push_back(w); }
		mxArray x = fill(c, v);
		mxArray *r = call("integers to half", {&x});
		if (q == 0) shapes(x, mxUINT16_CLASS, r);
		std::vector<uint16_t> o = results<I, uint16_t>(r, x, v);
		head("awayint");
		key("a"); out.raw("["); for (size_t k = 0; k < v.size(); k++) { if (k) out.raw(","); if (std::is_signed<I>::value) out.sint((int64_t)v[k]); else { unsigned __int128 z = (uint64_t)v[k]; out.raw("[0"); out.limbs(z, false); out.raw("]"); } } out.raw("]");
		key("r"); out.raw("["); for (size_t k = 0; k < o.size(); k++) { if (k) out.raw(","); put(o[k]); } out.raw("]");
		out.end();
	}
}
// the runs of 64 halves taken: every so many, and those with zero, denormals and the smallest normals, the largest, infinity and NaN
static std::vector<size_t> runs(size_t step, size_t end)
{
	std::vector<size_t> v;
	for (size_t q = 0; q < end; q += 64 * (1 + G->below((unsigned)step))) v.push_back(q);
	for (size_t q : {0, 0x3c0, 0x400, 0x3c00, 0x7bc0, 0x7c00}) for (size_t sg : {0, 0x8000}) if ((q | sg) < end) v.push_back(q | sg);
	return v;
}
static std::vector<uint16_t> halves(size_t q, size_t n) { std::vector<uint16_t> v; for (size_t k = 0; k < n; k++) v.push_back((uint16_t)(q + k)); return v; }
template <class W> static void out_floats(const char *op, const char *name, mxClassID c, size_t step, int (*f)(void *, void *, int))
{
	mxArray s = str(name);
	for (size_t q : runs(step, 65536))
	{
		std::vector<uint16_t> v = halves(q, q % 5 ? 64 : 37);
		mxArray x = fill(G->below(2) ? mxUINT16_CLASS : mxINT16_CLASS, v);
		mxArray *r = call("from half", {&x, &s});
		if (q % 1024 == 0) shapes(x, c, r);
		row(op, 16, v, results<uint16_t, W>(r, x, v));
		std::vector<W> t(v.size() + 8, (W)0xA5A5A5A5A5A5A5A5ull);
		// the library fills in the high words of doubles only
		memset(t.data(), 0, v.size() * sizeof(W));
		std::vector<uint16_t> kept = v;
		int rc = f(t.data(), v.data(), (int)v.size());
		for (size_t k = v.size(); k < t.size(); k++) changed += t[k] != (W)0xA5A5A5A5A5A5A5A5ull;
		changed += rc != 0 || v != kept;
		t.resize(v.size());
		row(op, 16, v, t);
	}
}
template <class I> static void out_ints(const char *name, mxClassID c, size_t step, bool neg, bool nan)
{
	mxArray s = str(name);
	for (size_t q : runs(step, neg ? 65536 : 32768))
	{
		std::vector<uint16_t> v = halves(q, 64);
		if (!nan) for (uint16_t &h : v) if ((h & 0x7fff) > 0x7c00) h = 0;
		mxArray x = fill(G->below(2) ? mxUINT16_CLASS : mxINT16_CLASS, v);
		mxArray *r = call("half to integers", {&x, &s});
		if (q % 1024 == 0) shapes(x, c, r);
		std::vector<I> o = results<uint16_t, I>(r, x, v);
		head(c == mxLOGICAL_CLASS ? "tological" : "toint");
		key("w"); out.i(sizeof(I) * 8);
		key("g"); out.i(std::is_signed<I>::value);
		key("a"); out.raw("["); for (size_t k = 0; k < v.size(); k++) { if (k) out.raw(","); put(v[k]); } out.raw("]");
		key("r"); out.raw("["); for (size_t k = 0; k < o.size(); k++) { if (k) out.raw(","); if (std::is_signed<I>::value) out.sint((int64_t)o[k]); else { unsigned __int128 z = (uint64_t)o[k]; out.raw("[0"); out.limbs(z, false); out.raw("]"); } } out.raw("]");
		out.end();
	}
}
// halves shown: as singles, in the short format, which is put back
static void display(size_t step)
{
	mxArray s = str("disp");
	for (size_t q : runs(step * 4, 65536))
	{
		std::vector<uint16_t> v = halves(q, 64);
		mxArray x = fill(mxUINT16_CLASS, v);
		mex_format = q % 128 ? "long" : "hex";
		std::string before = mex_format;
		mex_shown.clear();
		mxArray *r = call("display", {&x, &s}, 0);
		changed += r != nullptr || mex_format != before || mex_shown.size() != 6 + 4 * v.size() || mex_shown.compare(0, 6, "short:") != 0;
		std::vector<uint32_t> o(v.size());
		if (mex_shown.size() == 6 + 4 * v.size()) memcpy(o.data(), mex_shown.data() + 6, 4 * v.size());
		row("f32o", 16, v, o);
	}
}
static void refuse(const char *what, std::vector<const mxArray *> in, int nlhs = 1)
{
	int before = mex_messages;
	mxArray *r = call(what, in, nlhs);
	head("refuse");
	key("q"); out.raw("\""); out.raw(what); out.raw("\"");
	key("a"); out.raw("[0]");
	key("r"); out.raw("[["); out.i(mex_messages > before); out.raw(","); out.i(r != nullptr); out.raw("]]");
	out.end();
}

int main(int argc, char **argv)
{
	install_handlers();
	out.f = stdout;
	uint64_t seed = 1;
	size_t n = 4096;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--n") n = strtoull(v.c_str(), 0, 10);
	}
	Rng rng(seed * 11 + 30);
	G = &rng;
	size_t step = n >= 60000 ? 1 : 8;
	in_floats<uint32_t, 8, 23>(mxSINGLE_CLASS, n, alone::singles2halfp);
	in_floats<uint64_t, 11, 52>(mxDOUBLE_CLASS, n, alone::doubles2halfp);
	in_ints<int8_t>(mxINT8_CLASS, n / 8);
	in_ints<uint8_t>(mxUINT8_CLASS, n / 8);
	in_ints<uint8_t>(mxLOGICAL_CLASS, n / 32);
	in_ints<int16_t>(mxINT16_CLASS, n / 8);
	in_ints<uint16_t>(mxUINT16_CLASS, n / 8);
	in_ints<uint16_t>(mxCHAR_CLASS, n / 32);
	in_ints<int32_t>(mxINT32_CLASS, n / 8);
	in_ints<uint32_t>(mxUINT32_CLASS, n / 8);
	in_ints<int64_t>(mxINT64_CLASS, n / 8);
	in_ints<uint64_t>(mxUINT64_CLASS, n / 8);
	out_floats<uint32_t>("f32o", "single", mxSINGLE_CLASS, step, alone::halfp2singles);
	out_floats<uint64_t>("f64o", "double", mxDOUBLE_CLASS, step, alone::halfp2doubles);
	out_ints<int8_t>("int8", mxINT8_CLASS, step * 4, true, true);
	out_ints<uint8_t>("uint8", mxUINT8_CLASS, step * 4, true, true);
	out_ints<int16_t>("int16", mxINT16_CLASS, step * 4, true, true);
	out_ints<uint16_t>("uint16", mxUINT16_CLASS, step * 4, true, true);
	out_ints<int32_t>("int32", mxINT32_CLASS, step * 4, true, true);
	out_ints<uint32_t>("uint32", mxUINT32_CLASS, step * 4, true, true);
	out_ints<int64_t>("int64", mxINT64_CLASS, step * 4, true, true);
	out_ints<uint64_t>("uint64", mxUINT64_CLASS, step * 4, true, true);
	out_ints<uint16_t>("char", mxCHAR_CLASS, step * 4, false, false);
	out_ints<uint8_t>("logical", mxLOGICAL_CLASS, step * 4, true, false);
	display(step);
	mxArray d = arr(mxDOUBLE_CLASS, {2, 3}), h = arr(mxUINT16_CLASS, {2, 3}), st = arr(mxSTRUCT_CLASS, {1, 1}), sp = arr(mxDOUBLE_CLASS, {2, 2}), one = str("single"), bad = str("float"), u8 = arr(mxUINT8_CLASS, {4, 1});
	sp.sparse = true;
	refuse("nothing", {});
	refuse("three arguments", {&h, &one, &one});
	refuse("two results", {&d}, 2);
	refuse("a sparse array", {&sp});
	refuse("a structure", {&st});
	refuse("doubles as halves", {&d, &one});
	refuse("bytes as halves", {&u8, &one});
	refuse("an unknown class", {&h, &bad});
	refuse("a class that is not text", {&h, &h});
	// nothing to convert
	float f1 = 1; uint16_t h1 = 7;
	changed += alone::singles2halfp(nullptr, &f1, 1) != 0 || alone::singles2halfp(&h1, nullptr, 1) != 0 || alone::doubles2halfp(&h1, nullptr, 1) != 0 || alone::halfp2singles(nullptr, &h1, 1) != 0
	           || alone::halfp2doubles(nullptr, &h1, 1) != 0 || h1 != 7 || alone::singles2halfp(&h1, &f1, 0) != 0 || h1 != 7;
	head("guard");
	key("a"); out.raw("[0]");
	key("r"); out.raw("["); out.i(changed + mex_bad > 0); out.raw("]");
	out.end();
	out.flush();
	fflush(stdout);
	return 0;
}
