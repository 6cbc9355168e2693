// Writing recorded calls as newline separated JSON.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <string>
#include <vector>
#include <algorithm>

#if defined(FILTER) || defined(SEARCH)
#include "cover.hpp"
#endif

// what the process was doing, printed if it dies
static char g_doing[256] = "start";
static void on_signal(int s)
{
	char b[400];
	int n = snprintf(b, sizeof b, "DIED signal=%d doing=%s\n", s, g_doing);
	if (write(2, b, n)) {}
	_exit(99);
}
static void install_handlers()
{
	signal(SIGFPE, on_signal);
	signal(SIGSEGV, on_signal);
	signal(SIGILL, on_signal);
	signal(SIGBUS, on_signal);
	signal(SIGABRT, on_signal);
}

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	unsigned below(unsigned k) { return k ? (unsigned)((next() >> 11) % k) : 0; }
	int range(int a, int b) { return a + (int)below((unsigned)(b - a + 1)); }
};

struct Out
{
	std::string s;
	FILE *f = nullptr;
	void raw(const char *x) { s += x; }
	void i(long long x)
	{
		char b[32];
		snprintf(b, sizeof b, "%lld", x);
		s += b;
	}
	// an int the specification reads as a TLC integer: kept within range
	void ci(long long x) { i(x > 1000000000 ? 1000000000 : x < -1000000000 ? -1000000000 : x); }
	void limbs(unsigned __int128 u, bool first)
	{
		while (u)
		{
			if (!first) s += ',';
			first = false;
			i((long long)(u & 32767));
			u >>= 15;
		}
	}
	void word(unsigned __int128 u)
	{
		s += '[';
		limbs(u, true);
		s += ']';
	}
	void sint(__int128 x)
	{
		s += x < 0 ? "[1" : "[0";
		limbs(x < 0 ? -(unsigned __int128)x : (unsigned __int128)x, false);
		s += ']';
	}
#ifdef FILTER
	// of the many calls made, those recorded reached something new
	size_t start = 0, kept = 0;
	void end()
	{
		cover::on = false;
		s += "}\n";
		if (cover::strong || (cover::fresh && kept < FILTER)) kept++;
		else s.resize(start);
		if (s.size() > (1 << 16)) flush();
		start = s.size();
		cover::fresh = cover::strong = 0;
		cover::on = true;
	}
#else
	void end()
	{
		s += "}\n";
		if (s.size() > (1 << 16)) flush();
	}
#endif
	void flush()
	{
		fwrite(s.data(), 1, s.size(), f);
		s.clear();
	}
};
