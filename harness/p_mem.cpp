// C20: the same history in differently filled memory, next to other cells, bit for bit.
#include "common.hpp"
#include <dlfcn.h>
#include <malloc.h>
#include <sys/stat.h>
#include <unistd.h>
#include <climits>

typedef Sut *(*NewFn)(const ref::Config *, int);
typedef void (*DirtyFn)(int);
struct Lib { NewFn make; DirtyFn dirty; };
static Lib libs[3];
static bool load()
{
	char exe[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) return false; exe[n] = 0;
	std::string d(exe); d = d.substr(0, d.rfind('/'));
	const char *nm[3] = {"plain", "zero", "pattern"};
	for (int i = 0; i < 3; i++) {
		void *h = dlopen((d + "/libsut_" + nm[i] + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
		if (!h) { fprintf(stderr, "%s\n", dlerror()); return false; }
		libs[i].make = (NewFn) dlsym(h, "sut_new"); libs[i].dirty = (DirtyFn) dlsym(h, "sut_dirty_stack");
		if (!libs[i].make || !libs[i].dirty) return false;
	}
	return true;
}
static bool loaded = load();

struct Bits { std::vector<double> v; std::vector<int> f; };
static void ask(Sut &s, const std::vector<int> &ids, int nv, Bits &B)
{
	for (int id : ids) {
		double x[6], C[36]; for (double &v : x) v = -3e33; for (double &v : C) v = -4e44;
		s.stress(id, x); s.ctan(id, C); B.v.insert(B.v.end(), x, x + nv); B.v.insert(B.v.end(), C, C + nv * nv); B.f.push_back(s.nl(id));
	}
}
static void apply(Sut &s, const Op &o)
{
	switch (o.kind) {
	case SET: s.set_strain(o.gp, o.e); break;
	case HOM: s.homogenize(); break;
	case UPD: s.update(); break;
	case OUT: s.output(o.step, o.gp); break;
	case INFO: s.info(); break;
	case QRY: { double x[6] = {0}, C[36] = {0}; s.stress(o.gp, x); s.ctan(o.gp, C); s.nl(o.gp); } break;
	}
}
static void churn(Ctx &c, int byte)
{
	std::vector<void *> v; int n = 40; uint64_t s = c.below(1 << 20) + 1;
	for (int i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; size_t z = 16 + (s >> 40) % (i % 4 == 0 ? 200000 : 3000); void *p = malloc(z); memset(p, byte, z); v.push_back(p); }
	for (int i = 0; i < n; i += 2) free(v[i]);
	for (int i = 1; i < n; i += 2) free(v[i]);
}

struct Other { Config k; History h; std::vector<int> ids; int kind; };

static void run(Ctx &c, const char *dir, const Lib &L, const Config &k, int kind, const History &h, const std::vector<int> &ids, std::vector<Other> &others, Bits &B)
{
	int nv = k.nvoi();
	mkdir(dir, 0755); if (chdir(dir)) c.fail("chdir");
	// other cells: created before, run in between (in their own directories), destroyed at any time
	struct Live { P s; size_t pos; std::string dir; }; std::vector<Live> lv;
	auto other_step = [&](size_t i, int n) {
		Live &l = lv[i]; mkdir(l.dir.c_str(), 0755); if (chdir(l.dir.c_str())) c.fail("chdir");
		if (!l.s && l.pos == 0) l.s.reset(L.make(&others[i].k, others[i].kind));
		for (int q = 0; q < n && l.s && l.pos < others[i].h.size(); q++) apply(*l.s, others[i].h[l.pos++]);
		if (l.s && l.pos >= others[i].h.size()) l.s.reset();
		if (chdir("..") || chdir(dir)) c.fail("chdir");
	};
	for (size_t i = 0; i < others.size(); i++) { lv.emplace_back(); lv.back().pos = 0; lv.back().dir = std::string("../") + dir + "_o" + std::to_string(i); other_step(i, i == 0 ? 3 : 0); }
	P s(L.make(&k, kind));
	for (size_t q = 0; q < h.size(); q++) {
		if (!others.empty()) other_step(q % others.size(), 1);
		apply(*s, h[q]);
		if (h[q].kind == HOM || h[q].kind == OUT) ask(*s, ids, nv, B);
	}
	ask(*s, ids, nv, B);
	s.reset();
	if (chdir("..")) c.fail("chdir");
}

static void c20(Ctx &c)
{
	if (!loaded) { fprintf(stderr, "variants not found\n"); _exit(77); }
	Opt o; o.plastic = 1; if (c.chance(1, 2)) { o.dim = 3; o.plastic = 2; } o.max_int3 = 6; o.max_int2 = 16;
	Config k = config(c, o); int kind = c.chance(1, 5);
	if (c.chance(1, 3)) k.inv_tol = smax(k) * yield_strain(k) * c.logreal(0.1, 3);
	describe(c, k); std::vector<int> ids; History h = random_history(c, k, ids, c.range(1, 8)); describe(c, h, k.nvoi());
	ids.push_back(-999);
	static const int fill[8] = {0x00, 0xff, 0x7f, 0x80, 0x3f, 0xc0, 0x01, 0x55};
	int n_other = c.range(0, 2), f1 = fill[c.below(8)], f2 = fill[c.below(8)], f3 = fill[c.below(8)];
	std::vector<Other> none, others;
	for (int i = 0; i < n_other; i++) { Other x; x.kind = 0; x.k = c.chance(1, 2) ? k : config(c, o); x.h = random_history(c, x.k, x.ids, c.range(1, 5)); others.push_back(x); c.note("other cell %d:\n", i); describe(c, x.k); describe(c, x.h, x.k.nvoi()); }
	c.note("fills %02x %02x %02x\n", f1, f2, f3);
	Bits B[4]; const char *what[4] = {"plain", "memory filled, pattern-initialised locals", "memory filled, zero-initialised locals", "memory filled, next to other cells"};
	mallopt(M_PERTURB, 0); run(c, "a", libs[0], k, kind, h, ids, none, B[0]);
	mallopt(M_PERTURB, f1 ^ 0xff ? f1 ^ 0xff : 0); churn(c, f1); libs[2].dirty(f1); run(c, "b", libs[2], k, kind, h, ids, none, B[1]);
	mallopt(M_PERTURB, f2 ^ 0xff ? f2 ^ 0xff : 0); churn(c, f2); libs[1].dirty(f2); run(c, "c", libs[1], k, kind, h, ids, none, B[2]);
	mallopt(M_PERTURB, f3 ^ 0xff ? f3 ^ 0xff : 0); churn(c, f3); libs[0].dirty(f3); run(c, "d", libs[0], k, kind, h, ids, others, B[3]);
	mallopt(M_PERTURB, 0); libs[0].dirty(-1);
	for (int r = 1; r < 4; r++) {
		if (B[r].v.size() != B[0].v.size()) c.fail("sizes");
		c.count(B[0].v.size());
		for (size_t i = 0; i < B[0].v.size(); i++) if (memcmp(&B[0].v[i], &B[r].v[i], 8)) c.fail("answer %zu is %.17g in a fresh process and %.17g in run %d (%s)", i, B[0].v[i], B[r].v[i], r, what[r]);
		if (B[0].f != B[r].f) c.fail("flags differ in run %d (%s)", r, what[r]);
		std::string d(1, (char) ('a' + r)); auto la = files::listing("a"), lb = files::listing(d);
		if (la != lb) c.fail("different files in run %d (%s)", r, what[r]);
		for (auto &f : la) { std::string u, v; files::slurp("a/" + f, u); files::slurp(d + "/" + f, v); c.count(1); if (u != v) c.fail("%s differs in run %d (%s)", f.c_str(), r, what[r]); }
	}
	bool flow = false; for (int f : B[0].f) flow |= f == 1; if (flow) c.label("plastic flow");
	if (n_other) c.label("other cells in between"); c.label(kind ? "Fortran interface" : "C++ class"); label_cfg(c, k, ref::Cell(k));
	int homs = 0, outs = 0; for (auto &q : h) { homs += q.kind == HOM; outs += q.kind == OUT; } if (outs) c.label("with exports");
	if (homs > 1 || outs) c.nontrivial();
}
static pbt::Reg r20({"C20", c20, 1200, 50000, "random histories run four times in one process: with ordinary memory, and with heap (M_PERTURB and churned free lists) and stack filled with different bytes in builds whose uninitialised locals are left alone, zeroed or filled with a pattern, the last run interleaved call by call with up to two other cells (same or other configuration) that are created before and destroyed in between; all answers bitwise, all files byte for byte. Non-trivial: at least two evaluations or an export",
	{"the three builds differ only in -ftrivial-auto-var-init, which does not change floating-point arithmetic", "each run has its own working directory, since file names are fixed by the library"}});
