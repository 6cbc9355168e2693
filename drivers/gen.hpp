// Operands: structured and random patterns of an n-bit posit with es exponent bits.
#pragma once
#include "emit.hpp"

template <class T>
struct Gen
{
	int n, es;
	Rng &g;
	Gen(int n_, int es_, Rng &g_) : n(n_), es(es_), g(g_) {}

	typedef __int128 I;
	I top() const { return (I)1 << (n - 1); }
	// wrap an integer to the n-bit pattern it denotes
	T wrap(I x) const
	{
		I m = (I)1 << n;
		x %= m;
		if (x < 0) x += m;
		if (x >= top()) x -= m;
		return (T)x;
	}
	uint64_t bits(int k)
	{
		if (k <= 0) return 0;
		uint64_t m = k >= 64 ? ~0ull : ((1ull << k) - 1);
		switch (g.below(8))
		{
		case 0: return 0;
		case 1: return m;
		case 2: return 1;
		case 3: return m ^ 1;
		case 4: return (1ull << g.below(k)) & m;
		case 5: return 0x5555555555555555ull & m;
		case 6: return (m << g.below(k)) & m;
		default: return g.next() & m;
		}
	}
	// positive pattern with a given regime run, polarity
	I shaped(int run, bool ones)
	{
		int L = n - 1;
		if (run > L) run = L;
		I v = 0;
		int pos = L;
		if (ones)
		{
			for (int k = 0; k < run; k++) v |= (I)1 << (--pos);
			if (pos > 0) --pos;
		}
		else
		{
			pos -= run;
			if (pos > 0) v |= (I)1 << (--pos);
		}
		int eb = pos < es ? pos : es;
		pos -= eb;
		v |= (I)bits(eb) << pos;
		v |= (I)bits(pos);
		return v;
	}
	T any()
	{
		switch (g.below(10))
		{
		case 0: return special(g.below(nspecial()));
		case 1: return wrap((I)g.next());
		default:
		{
			// short runs are common, long ones present
			int run = g.below(3) ? 1 + (int)g.below(4) : 1 + (int)g.below(n - 1);
			I v = shaped(run, g.below(2));
			return wrap(g.below(2) ? -v : v);
		}
		}
	}
	static unsigned nspecial() { return 24; }
	T special(unsigned k) const
	{
		I one = (I)1 << (n - 2);
		I s[24] = {0, 1, -1, 2, -2, 3, -3, one, -one, one + 1, one - 1, -one - 1, -one + 1,
		           top() - 1, top() - 2, top() - 3, -top(), -top() + 1, -top() + 2, -top() + 3,
		           one + (one >> (1 + es)), one - (one >> (1 + es)), -(one + (one >> (1 + es))), one >> 1};
		return wrap(s[k]);
	}
	// an operand related to a
	T partner(T a)
	{
		switch (g.below(12))
		{
		case 0: return wrap(-(I)a + g.range(-3, 3));
		case 1: return wrap((I)a + g.range(-3, 3));
		case 2: return wrap(-(I)a + ((I)1 << g.below(n)) * (g.below(2) ? 1 : -1));
		case 3: return wrap((I)a + ((I)1 << g.below(n)) * (g.below(2) ? 1 : -1));
		case 4: return wrap((I)a ^ (I)bits(n - 1));
		case 5: return wrap(-((I)a ^ (I)bits((n - 1) / 2)));
		default: return any();
		}
	}
	std::vector<T> all() const
	{
		std::vector<T> r;
		for (I x = -top(); x < top(); x++) r.push_back((T)x);
		return r;
	}
	// every pattern when there are at most `limit`, else specials, every regime, random
	std::vector<T> unary(size_t limit)
	{
		if (n < 31 && ((size_t)1 << n) <= limit) return all();
		std::vector<T> r;
		for (unsigned k = 0; k < nspecial(); k++) r.push_back(special(k));
		std::vector<T> q;
		for (int run = 1; run <= n - 1; run++)
			for (int o = 0; o < 2; o++)
				for (int k = 0; k < 3; k++)
				{
					I v = shaped(run, o);
					q.push_back(wrap(v));
					q.push_back(wrap(-v));
				}
		// every regime, or as many as there is room for
		bool room = r.size() + q.size() <= limit;
		for (size_t k = 0; k < q.size() && (room || r.size() * 4 < limit * 3); k++) r.push_back(room ? q[k] : q[g.below((unsigned)q.size())]);
		while (r.size() < limit) r.push_back(any());
		return r;
	}
};
