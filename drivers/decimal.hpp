#pragma once
#include "emit.hpp"

// a decimal text as [kind, sign, exponent of ten, limbs of the digits]: kind 0 number, 1 infinity, 2 NaN, 3 not a number's text
static void decimal(Out &out, const std::string &t)
{
	size_t i = 0;
	int s = 0, kind = 0;
	long e = 0;
	unsigned __int128 d = 0;
	if (i < t.size() && (t[i] == '-' || t[i] == '+')) s = t[i++] == '-';
	if (t.compare(i, std::string::npos, "inf") == 0) kind = 1;
	else if (t.compare(i, 3, "nan") == 0) kind = 2;
	else
	{
		bool dot = false, any = false;
		for (; i < t.size() && ((t[i] >= '0' && t[i] <= '9') || (t[i] == '.' && !dot)); i++)
		{
			if (t[i] == '.') { dot = true; continue; }
			any = true;
			d = d * 10 + (t[i] - '0');
			if (dot) e--;
		}
		if (any && i < t.size() && t[i] == 'e')
		{
			char *end;
			e += strtol(t.c_str() + i + 1, &end, 10);
			i = end - t.c_str();
		}
		if (!any || i != t.size()) kind = 3;
	}
	// strip zeros, so that only the value counts
	while (d && d % 10 == 0) { d /= 10; e++; }
	if (!d) e = 0;
	out.raw("[");
	out.i(kind); out.raw(","); out.i(s); out.raw(","); out.ci(e);
	out.limbs(d, false);
	out.raw("]");
}
// an integer text as [0|1, sign, limbs]; 1: not an integer
static void integer(Out &out, const std::string &t)
{
	size_t i = 0;
	bool neg = false, bad = t.empty();
	unsigned __int128 v = 0;
	if (!bad && t[0] == '-') { neg = true; i = 1; bad = t.size() == 1; }
	for (; i < t.size(); i++)
	{
		if (t[i] < '0' || t[i] > '9') bad = true;
		v = v * 10 + (unsigned)(t[i] - '0');
	}
	out.raw(bad ? "[1" : "[0");
	out.raw(neg && v ? ",1" : ",0");
	out.limbs(v, false);
	out.raw("]");
}
// "up(+ exp (dec) = E fraction (hex) = H (bin) = B)", "up(nan)", ... as [type, sign, exponent, limbs]; type 9: something else
static void unpacked(Out &out, const std::string &t)
{
	out.raw("[");
	if (t == "up(+infinity)") out.raw("1,0,0");
	else if (t == "up(-infinity)") out.raw("1,1,0");
	else if (t == "up(nan)") out.raw("2,0,0");
	else if (t == "up(0)") out.raw("3,0,0");
	else
	{
		char s;
		long long e;
		unsigned long long h;
		char b[130], close;
		int n = sscanf(t.c_str(), "up(%c exp (dec) = %lld fraction (hex) = %llx (bin) = %129[01]%c", &s, &e, &h, b, &close);
		unsigned long long v = 0;
		if (n >= 4)
			for (const char *p = b; *p; p++) v = v << 1 | (unsigned)(*p - '0');
		if (n != 5 || close != ')' || v != h || (s != '+' && s != '-')) out.raw("9,0,0");
		else
		{
			out.raw("0,"); out.i(s == '-'); out.raw(","); out.ci(e);
			out.limbs(h, false);
		}
	}
	out.raw("]");
}

