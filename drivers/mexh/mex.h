// A stand-in for the MATLAB interface halfprecision.c uses: arrays with separate imaginary parts,
// the conversions MATLAB does when it is called back, messages and calls recorded.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <cstring>
#include <string>
#include <vector>

typedef size_t mwSize;
enum mxClassID { mxUNKNOWN_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS,
                 mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxSTRUCT_CLASS };
enum mxComplexity { mxREAL, mxCOMPLEX };
struct mxArray_tag
{
	mxClassID cls;
	std::vector<mwSize> dims;
	bool cplx, sparse;
	std::vector<unsigned char> re, im;
	std::string text;
	bool alive;
};
typedef mxArray_tag mxArray;
const size_t MEX_GUARD = 64;      // bytes behind each part that no call may change
static int mex_messages = 0;
static std::vector<mxArray *> mex_made;
static std::vector<std::string> mex_calls; // what was asked of MATLAB
static int mex_bad = 0;           // calls MATLAB would not have understood

static inline size_t mex_size(mxClassID c)
{
	switch (c)
	{
	case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: return 8;
	case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4;
	case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
	default: return 1;
	}
}
struct mex_error { };
static inline void mexErrMsgTxt(const char *) { mex_messages++; throw mex_error(); }
static inline mxClassID mxGetClassID(const mxArray *a) { return a->cls; }
static inline bool mxIsComplex(const mxArray *a) { return a->cplx; }
static inline bool mxIsSparse(const mxArray *a) { return a->sparse; }
static inline bool mxIsChar(const mxArray *a) { return a->cls == mxCHAR_CLASS; }
static inline bool mxIsInt16(const mxArray *a) { return a->cls == mxINT16_CLASS; }
static inline bool mxIsUint16(const mxArray *a) { return a->cls == mxUINT16_CLASS; }
static inline mwSize mxGetNumberOfDimensions(const mxArray *a) { return a->dims.size(); }
static inline const mwSize *mxGetDimensions(const mxArray *a) { return a->dims.data(); }
static inline size_t mxGetNumberOfElements(const mxArray *a) { size_t n = 1; for (mwSize d : a->dims) n *= d; return n; }
static inline void *mxGetData(const mxArray *a) { return (void *)a->re.data(); }
static inline void *mxGetImagData(const mxArray *a) { return a->cplx ? (void *)a->im.data() : nullptr; }
static inline mxArray *mex_new(mxClassID c, const std::vector<mwSize> &d, bool cplx)
{
	mxArray *a = new mxArray();
	a->cls = c; a->dims = d; a->cplx = cplx; a->sparse = false; a->alive = true;
	// zeros, as MATLAB makes them, and a guard
	a->re.assign(mxGetNumberOfElements(a) * mex_size(c) + MEX_GUARD, 0xA5);
	memset(a->re.data(), 0, a->re.size() - MEX_GUARD);
	if (cplx) a->im = a->re;
	mex_made.push_back(a);
	return a;
}
static inline mxArray *mxCreateNumericArray(mwSize nd, const mwSize *dims, mxClassID c, mxComplexity x) { return mex_new(c, std::vector<mwSize>(dims, dims + nd), x == mxCOMPLEX); }
static inline mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mex_new(mxDOUBLE_CLASS, {1, 1}, false); memcpy(a->re.data(), &v, 8); return a; }
static inline mxArray *mxCreateString(const char *s) { mxArray *a = mex_new(mxCHAR_CLASS, {1, strlen(s)}, false); a->text = s; return a; }
static inline void mxDestroyArray(mxArray *a) { if (!a->alive) mex_bad++; a->alive = false; }
static inline char *mxArrayToString(const mxArray *a) { return strdup(a->text.c_str()); }
static inline void mxFree(void *p) { free(p); }

template <class W> static W mex_at(const std::vector<unsigned char> &v, size_t i) { W w; memcpy(&w, v.data() + i * sizeof(W), sizeof w); return w; }
template <class W> static void mex_to(std::vector<unsigned char> &v, size_t i, W w) { memcpy(v.data() + i * sizeof(W), &w, sizeof w); }
static inline float mex_single(mxClassID c, const std::vector<unsigned char> &v, size_t i)
{
	switch (c)
	{
	case mxDOUBLE_CLASS: return (float)mex_at<double>(v, i);
	case mxSINGLE_CLASS: return mex_at<float>(v, i);
	case mxINT8_CLASS: return (float)mex_at<int8_t>(v, i);
	case mxUINT8_CLASS: case mxLOGICAL_CLASS: return (float)mex_at<uint8_t>(v, i);
	case mxINT16_CLASS: return (float)mex_at<int16_t>(v, i);
	case mxUINT16_CLASS: case mxCHAR_CLASS: return (float)mex_at<uint16_t>(v, i);
	case mxINT32_CLASS: return (float)mex_at<int32_t>(v, i);
	case mxUINT32_CLASS: return (float)mex_at<uint32_t>(v, i);
	case mxINT64_CLASS: return (float)mex_at<int64_t>(v, i);
	default: return (float)mex_at<uint64_t>(v, i);
	}
}
// to an integer: nearest, halves away from zero, saturating, NaN to zero
template <class W> static W mex_int(float f)
{
	if (f != f) return 0;
	double r = std::round((double)f), lo = (double)std::numeric_limits<W>::min(), hi = (double)std::numeric_limits<W>::max();
	return r <= lo ? std::numeric_limits<W>::min() : r >= hi ? std::numeric_limits<W>::max() : (W)r;
}
static inline bool mex_class(const std::string &s, mxClassID &c)
{
	static const struct { const char *n; mxClassID c; } t[] = {{"single", mxSINGLE_CLASS}, {"double", mxDOUBLE_CLASS}, {"int8", mxINT8_CLASS}, {"uint8", mxUINT8_CLASS}, {"int16", mxINT16_CLASS},
		{"uint16", mxUINT16_CLASS}, {"int32", mxINT32_CLASS}, {"uint32", mxUINT32_CLASS}, {"int64", mxINT64_CLASS}, {"uint64", mxUINT64_CLASS}, {"char", mxCHAR_CLASS}, {"logical", mxLOGICAL_CLASS}};
	for (auto &e : t) if (s == e.n) { c = e.c; return true; }
	return false;
}
static std::string mex_format = "long", mex_shown; // the display format, and the bytes of what was displayed
static inline int mexCallMATLAB(int nl, mxArray **l, int nr, const mxArray *const *r, const char *name)
{
	std::string s = name;
	mex_calls.push_back(s);
	for (int i = 0; i < nr; i++) if (!r[i] || !r[i]->alive) { mex_bad++; return 1; }
	mxClassID c;
	if (s == "get" && nl == 1 && nr == 2 && r[1]->text == "Format") { l[0] = mxCreateString(mex_format.c_str()); return 0; }
	if (s == "format" && nl == 0 && nr == 1) { mex_format = r[0]->text; return 0; }
	if (s == "disp" && nl == 0 && nr == 1)
	{
		mex_shown = mex_format + ":" + std::string((const char *)r[0]->re.data(), r[0]->re.size() - MEX_GUARD) + (r[0]->cplx ? std::string((const char *)r[0]->im.data(), r[0]->im.size() - MEX_GUARD) : std::string());
		return 0;
	}
	if (mex_class(s, c) && nl == 1 && nr == 1)
	{
		const mxArray *a = r[0];
		mxArray *o = l[0] = mex_new(c, a->dims, a->cplx);
		for (int part = 0; part < (a->cplx ? 2 : 1); part++)
			for (size_t i = 0; i < mxGetNumberOfElements(a); i++)
			{
				float f = mex_single(a->cls, part ? a->im : a->re, i);
				std::vector<unsigned char> &v = part ? o->im : o->re;
				switch (c)
				{
				case mxSINGLE_CLASS: mex_to<float>(v, i, f); break;
				case mxDOUBLE_CLASS: mex_to<double>(v, i, f); break;
				case mxINT8_CLASS: mex_to(v, i, mex_int<int8_t>(f)); break;
				case mxUINT8_CLASS: mex_to(v, i, mex_int<uint8_t>(f)); break;
				case mxINT16_CLASS: mex_to(v, i, mex_int<int16_t>(f)); break;
				case mxUINT16_CLASS: case mxCHAR_CLASS: mex_to(v, i, mex_int<uint16_t>(f)); break;
				case mxINT32_CLASS: mex_to(v, i, mex_int<int32_t>(f)); break;
				case mxUINT32_CLASS: mex_to(v, i, mex_int<uint32_t>(f)); break;
				case mxINT64_CLASS: mex_to(v, i, mex_int<int64_t>(f)); break;
				case mxLOGICAL_CLASS: mex_to(v, i, (uint8_t)(f != 0)); break;
				default: mex_to(v, i, mex_int<uint64_t>(f)); break;
				}
			}
		return 0;
	}
	mex_bad++;
	return 1;
}
