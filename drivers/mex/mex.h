// A stand-in for MATLAB's mex.h: arrays in memory, messages recorded.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

typedef size_t mwSize;
enum mxClassID { mxUNKNOWN_CLASS, mxCHAR_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS };
enum mxComplexity { mxREAL, mxCOMPLEX };
struct mxArray_tag
{
	mxClassID cls = mxUNKNOWN_CLASS;
	std::vector<mwSize> dims;
	bool cplx = false;
	std::vector<unsigned char> data;
	std::string text;
};
typedef mxArray_tag mxArray;

static int mex_messages = 0;
static std::vector<mxArray *> mex_made;
const size_t MEX_GUARD = 512; // bytes behind an array that no call may change
static inline size_t mex_size(mxClassID c)
{
	switch (c)
	{
	case mxDOUBLE_CLASS: return 8;
	case mxSINGLE_CLASS: return 4;
	case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
	default: return 1;
	}
}
static inline int mexPrintf(const char *, ...) { mex_messages++; return 0; }
struct mex_error { };
static inline void mexErrMsgTxt(const char *) { mex_messages++; throw mex_error(); }
static inline mxClassID mxGetClassID(const mxArray *a) { return a->cls; }
static inline bool mxIsComplex(const mxArray *a) { return a->cplx; }
static inline mwSize mxGetNumberOfDimensions(const mxArray *a) { return a->dims.size(); }
static inline const mwSize *mxGetDimensions(const mxArray *a) { return a->dims.data(); }
static inline size_t mxGetNumberOfElements(const mxArray *a) { size_t n = 1; for (mwSize d : a->dims) n *= d; return n; }
static inline void *mxGetData(const mxArray *a) { return (void *)a->data.data(); }
// uninitialised memory: a pattern no correct call leaves behind by accident
static inline mxArray *mxCreateUninitNumericArray(mwSize nd, mwSize *dims, mxClassID c, mxComplexity x)
{
	mxArray *a = new mxArray;
	a->cls = c;
	a->dims.assign(dims, dims + nd);
	a->cplx = x == mxCOMPLEX;
	a->data.assign(mxGetNumberOfElements(a) * (a->cplx ? 2 : 1) * mex_size(c) + MEX_GUARD, 0xA5);
	mex_made.push_back(a);
	return a;
}
static inline char *mxArrayToString(const mxArray *a) { return strdup(a->text.c_str()); }
static inline void mxFree(void *p) { free(p); }
