// Runs the listposits tool (compiled into this process) and takes its listing apart.
//   -DLISTSRC="path of listposits.cpp" -DPOSIT_TYPE=..: one format per binary
// Everything the tool writes to files goes to a scratch directory that is removed at the end.
#define main listposits_main
#include LISTSRC
#undef main
#include "gen.hpp"
#include "decimal.hpp"
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>

static Out out;
static int IDX = 1;
static const int N = XT::vtotalbits;
typedef long long ll;

static void key(const char *k) { out.raw(",\""); out.raw(k); out.raw("\":"); }
static void head(const char *op) { out.raw("{\"o\":\""); out.raw(op); out.raw("\",\"c\":"); out.i(IDX); }

static std::string run(const std::string &format)
{
	snprintf(g_doing, sizeof g_doing, "op=listposits n=%d format=%s", N, format.c_str());
	std::ostringstream s;
	std::ios plain(nullptr);
	std::streambuf *old = std::cout.rdbuf(s.rdbuf());
	std::cout.copyfmt(plain);
	std::cout.clear();
	const char *argv[] = {"listposits", format.c_str(), nullptr};
	listposits_main(2, argv);
	std::cout.rdbuf(old);
	return s.str();
}
static std::vector<std::string> split(const std::string &t, char c)
{
	std::vector<std::string> r;
	size_t i = 0;
	for (size_t j; (j = t.find(c, i)) != std::string::npos; i = j + 1) r.push_back(t.substr(i, j - i));
	r.push_back(t.substr(i));
	return r;
}
// the pattern a line stands for: its place in the listing
static ll place(bool u, size_t k)
{
	ll top = 1ll << (N - 1);
	if (u) return (ll)k < top ? (ll)k : (ll)k - 2 * top;
	return (ll)XT::PT::POSIT_MINNEG + (ll)k;
}

struct Col { const char *op; std::vector<ll> a; std::vector<std::string> t; };
static void emit(const char *op, int prec, const std::vector<ll> &a, const std::vector<std::string> &t, int mode)
{
	for (size_t k = 0; k < a.size(); k += 64)
	{
		size_t m = std::min(a.size(), k + 64);
		head(op);
		key("p"); out.i(prec);
		key("w"); out.i(sizeof(XT::fraction_t) * 8);
		key("a"); out.raw("["); for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); out.sint(a[i]); } out.raw("]");
		key("r"); out.raw("[");
		for (size_t i = k; i < m; i++)
		{
			if (i > k) out.raw(",");
			if (mode == 0) decimal(out, t[i]);
			else if (mode == 1) integer(out, t[i]);
			else if (mode == 2) unpacked(out, t[i]);
			else
			{
				// bits
				unsigned __int128 v = 0;
				bool ok = true;
				for (char c : t[i]) { ok = ok && (c == '0' || c == '1'); v = v << 1 | (unsigned)(c - '0'); }
				out.raw("["); out.i(ok ? (ll)t[i].size() : -1); out.limbs(v, false); out.raw("]");
			}
		}
		out.raw("]");
		key("k"); out.raw("["); for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); out.i(1); } out.raw("]");
		out.end();
	}
}
static void column(char f, const std::vector<ll> &a, const std::vector<std::string> &t)
{
	switch (f)
	{
	case 'i': emit("traw", 0, a, t, 1); break;
	case 'o': emit("luns", 0, a, t, 1); break;
	case 'b': emit("lbit", 0, a, t, 3); break;
	case 'k': emit("lk", 0, a, t, 1); break;
	case 'r': emit("lreg", 6, a, t, 0); break;
	case 'e': emit("lexp", 0, a, t, 1); break;
	case 'v': emit("lval", 6, a, t, 0); break;
	case 'p': emit("tdec", 6, a, t, 0); break;
	case 'u': emit("tunp", 6, a, t, 2); break;
	}
}
// a listing of the given columns, for the posit, and for its inverse, double and half if asked
static void listing(bool u, const std::string &extra, const std::string &cols)
{
	std::string groups = "1";
	for (char c : std::string("I2A")) if (extra.find(c) != std::string::npos) groups += c;
	std::string text = run((u ? "NU" : "N") + extra + cols);
	std::vector<std::string> lines = split(text, '\n');
	// two lines of headings
	std::vector<std::vector<std::string>> rows;
	for (size_t k = 2; k < lines.size(); k++)
		if (!lines[k].empty()) { rows.push_back(split(lines[k], '\t')); rows.back().erase(rows.back().begin()); }
	size_t width = groups.size() * cols.size();
	bool regular = true;
	for (auto &r : rows) { regular = regular && r.size() == width; r.resize(width, "?"); }
	head("lcount");
	key("p"); out.i(u);
	key("a"); out.raw("[0]");
	key("r"); out.raw("["); out.i(regular ? (ll)rows.size() : -1); out.raw("]");
	key("k"); out.raw("[1]");
	out.end();
	std::vector<ll> a, base;
	for (size_t k = 0; k < rows.size(); k++) base.push_back(place(u, k));
	for (size_t g = 0; g < groups.size(); g++)
	{
		// the pattern of a group is what its own column of integers says; the first group's is its place
		a = base;
		size_t icol = cols.find('i');
		if (g)
		{
			std::vector<std::string> t;
			for (auto &r : rows) t.push_back(r[g * cols.size() + icol]);
			emit(groups[g] == 'I' ? "linv" : groups[g] == '2' ? "ltwice" : "lhalf", 0, base, t, 1);
			for (size_t k = 0; k < rows.size(); k++) a[k] = atoll(t[k].c_str());
		}
		for (size_t j = 0; j < cols.size(); j++)
		{
			std::vector<std::string> t;
			for (auto &r : rows) t.push_back(r[g * cols.size() + j]);
			column(cols[j], a, t);
		}
	}
}
// doubles in the file "tmp"
static void binary(bool u, const std::string &cols)
{
	unlink("tmp");
	run((u ? "BU" : "B") + cols);
	FILE *f = fopen("tmp", "rb");
	std::vector<double> d;
	double x;
	while (f && fread(&x, sizeof x, 1, f) == 1) d.push_back(x);
	if (f) fclose(f);
	size_t n = d.size() / cols.size();
	head("lcount");
	key("p"); out.i(u);
	key("a"); out.raw("[0]");
	key("r"); out.raw("["); out.i(d.size() % cols.size() ? -1 : (ll)n); out.raw("]");
	key("k"); out.raw("[1]");
	out.end();
	for (size_t j = 0; j < cols.size(); j++)
		for (size_t k = 0; k < n; k += 64)
		{
			size_t m = std::min(n, k + 64);
			head("lbin");
			key("q"); out.raw("\""); out.s += cols[j]; out.raw("\"");
			key("a"); out.raw("["); for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); out.sint(place(u, i)); } out.raw("]");
			key("r"); out.raw("[");
			for (size_t i = k; i < m; i++) { uint64_t w; memcpy(&w, &d[i * cols.size() + j], 8); if (i > k) out.raw(","); out.word(w); }
			out.raw("]");
			key("k"); out.raw("["); for (size_t i = k; i < m; i++) { if (i > k) out.raw(","); out.i(1); } out.raw("]");
			out.end();
		}
}
// the summary: every "name value" it is known to state
static void summary()
{
	std::string t = run("H");
	std::vector<std::pair<const char *, const char *>> names = {{"bits", "\ntotalbits:"}, {"holder", "\nholding size bits: "}, {"es", "\nexponent size bits:"}, {"half", " half="},
		{"twice", " twice="}, {"lowest", " min="}, {"max", " max="}};
	head("lhead");
	key("p"); out.i(6);
	key("a"); out.raw("[");
	for (size_t i = 0; i < names.size(); i++) { out.raw(i ? ",\"" : "\""); out.raw(names[i].first); out.raw("\""); }
	out.raw("]");
	key("r"); out.raw("[");
	for (size_t i = 0; i < names.size(); i++)
	{
		size_t p = t.find(names[i].second);
		std::string v = "?";
		if (p != std::string::npos)
		{
			p += strlen(names[i].second);
			v = t.substr(p, t.find_first_of(" \n", p) - p);
		}
		if (i) out.raw(",");
		decimal(out, v);
	}
	out.raw("]");
	key("k"); out.raw("["); for (size_t i = 0; i < names.size(); i++) { if (i) out.raw(","); out.i(1); } out.raw("]");
	out.end();
}

int main(int argc, char **argv)
{
	install_handlers();
	out.f = stdout;
	for (int i = 1; i + 1 < argc; i += 2)
		if (std::string(argv[i]) == "--idx") IDX = atoi(argv[i + 1]);
	char dir[] = "/tmp/listposits-XXXXXX";
	if (!mkdtemp(dir) || chdir(dir)) return 3;
	summary();
	for (int u = 0; u < 2; u++)
	{
		listing(u, "", "v");
		listing(u, "", "upiobkerv");
		listing(u, "I2A", "iv");
		listing(u, "2", "ibke");
		binary(u, "iov");
		binary(u, "vuker");
	}
	unlink("tmp");
	if (chdir("/") == 0) rmdir(dir);
	out.flush();
	fflush(stdout);
	return 0;
}
