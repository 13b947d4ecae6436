// C06 material law, C21 symmetries, C23 passivity.
#include "common.hpp"
#include <sys/stat.h>
#include <unistd.h>

// ---------------------------------------------------------------------------------- C06
static double devnorm(const double *s) { double p = (s[0] + s[1] + s[2]) / 3, a = s[0] - p, b = s[1] - p, d = s[2] - p; return std::sqrt(a * a + b * b + d * d + 2 * (s[3] * s[3] + s[4] * s[4] + s[5] * s[5])); }

// last line of the internal-variable report, one group per Gauss point
static std::vector<std::vector<double>> int_vars(Ctx &c)
{
	std::string t; if (!files::slurp("micropp_int_vars_n.dat", t)) c.fail("no internal-variable report");
	files::Report R = files::parse_report(t);
	if (R.lines.empty()) c.fail("the internal-variable report has no line");
	std::vector<std::vector<double>> out;
	for (auto &g : R.lines.back()) { std::vector<double> v; bool ok = true; for (auto &x : g) v.push_back(files::num(x, ok)); if (!ok) c.fail("the internal-variable report holds something that is not a number"); out.push_back(v); }
	return out;
}

static void c06_exact(Ctx &c)
{
	// no interior node: the strain is the macro strain at every material point
	Opt o; o.dim = 3; o.plastic = 2; o.grid = NOINTERIOR; o.Emin = 1e3; o.Emax = 1e12;
	Config k = config(c, o);
	if (c.chance(1, 30)) { k.mat[c.below(2)].Sy = 0; c.label("no elastic range"); }
	if (c.chance(1, 8)) { auto &M = k.mat[c.below(2)]; M.Ka = M.E * c.logreal(1, 20); c.label("strong hardening"); }
	describe(c, k);
	ref::Cell cell(k);
	P s(sut_new(&k, 0));
	double f[2] = {0, 0}; for (int p : cell.ph) f[p] += 1.0 / cell.ph.size();
	bool pure = f[0] == 0 || f[1] == 0;
	c.label(pure ? "one phase" : "two phases");
	double y = yield_strain(k);
	struct G { int id; ref::PState st[2], tr[2]; double lastS[6] = {0}, ever = 0; Path p; int flows = 0; bool have = false, evaluated = false; };
	int ng = c.chance(1, 4) ? c.range(2, 4) : 1; std::vector<G> gs(ng); { auto ids = some_ids(c, ng); for (int g = 0; g < ng; g++) gs[g].id = ids[g]; }
	if (ng > 1) c.label("several Gauss points");
	int steps = k.elems() <= 8 && c.chance(1, 30) ? c.range(60, 200) : c.range(1, c.thor() ? 30 : 12), elastic_after = 0, shear = 0, flows = 0;
	for (int q = 0; q < steps; q++) {
		int op = c.range(0, 5); // 5: not committed, 4: same strain again
		std::vector<char> moved(ng, 0);
		for (int w = 0; w < ng; w++) {
			G &g = gs[w];
			if (op != 4 && (q == 0 || w == 0 || c.chance(1, 2))) { g.p.next(c, 6, y, 12, true); moved[w] = 1; if (w && c.chance(1, 4)) twin_strain(g.p, gs[c.range(0, w - 1)].p); }
			g.ever = std::max(g.ever, vmax(g.p.e, 6));
			c.note("step %d: gp %d strain %s%s\n", q, g.id, vec(g.p.e, 6).c_str(), op == 5 ? " (not committed)" : "");
			s->set_strain(g.id, g.p.e);
		}
		s->homogenize();
		for (int w = 0; w < ng; w++) {
			G &g = gs[w]; Path &p = g.p; double sig[6], want[6] = {0}; s->stress(g.id, sig);
			bool flow = false, margin = true; double scale = 0;
			for (int m = 0; m < 2; m++) if (f[m] > 0) {
				ref::PResult r; ref::point3(k.mat[m], k.mat[m].type == 1, p.e, g.st[m], r);
				g.tr[m] = r.st; for (int i = 0; i < 6; i++) want[i] += f[m] * r.s[i];
				if (r.flow) flow = true;
				if (k.mat[m].type == 1 && std::fabs(r.ftrial) < 1e-9 * k.mat[m].E) margin = false;
				scale = std::max(scale, ref::stiff(k.mat[m]) * std::max(vmax(p.e, 6), 1e-4 * g.ever) + (k.mat[m].type == 1 ? k.mat[m].E * vmax(g.st[m].ep, 6) + k.mat[m].Ka * (g.st[m].alpha + 1e-4 * g.ever) : 0));
			}
			cmp(c, "stress of the material law", sig, want, 6, 1e-10 * scale);
			if (pure) {
				int m = f[1] > 0; const ref::Mat &M = k.mat[m]; ref::Lame l = ref::lame(M);
				double R = std::sqrt(2.0 / 3) * (M.Sy + M.Ka * g.tr[m].alpha), dn = devnorm(sig), pr = (sig[0] + sig[1] + sig[2]) / 3;
				if (M.type == 1 && !(dn <= R + 1e-9 * scale)) c.fail("deviatoric norm %.12g exceeds the yield radius %.12g", dn, R);
				if (flow && !(std::fabs(dn - R) <= 1e-9 * scale)) c.fail("plastic flow but deviatoric norm %.12g differs from the yield radius %.12g", dn, R);
				if (!(std::fabs(pr - l.k * (p.e[0] + p.e[1] + p.e[2])) <= 1e-10 * scale)) c.fail("pressure %.12g is not bulk modulus times volume strain", pr);
			}
			if (!moved[w] && g.have) cmp(c, "same strain again after a commit", sig, g.lastS, 6, 1e-9 * scale);
			if (flow) { g.flows++; flows++; for (int i = 3; i < 6; i++) if (p.e[i] != 0) shear++; } else if (g.flows && margin) elastic_after++;
			if (s->nl(g.id) != (g.flows > 0)) { if (margin) c.fail("flag is %d, flow %s", s->nl(g.id), g.flows ? "happened" : "never happened"); else return; }
			g.have = false;
			if (op != 5) for (int m = 0; m < 2; m++) { if (g.tr[m].alpha < g.st[m].alpha) c.fail("reference: alpha decreases"); g.st[m] = g.tr[m]; }
			if (op != 5) { for (int i = 0; i < 6; i++) g.lastS[i] = sig[i]; g.have = true; }
		}
		if (op != 5) s->update();
		if (c.chance(1, 8)) { s->output(q, gs[c.range(0, ng - 1)].id); c.note("  export\n"); }
		if (c.chance(1, 4) || q == steps - 1) {
			s->info();
			auto iv = int_vars(c);
			if ((int) iv.size() != ng || iv[0].size() != (size_t) k.elems() * 56) c.fail("the internal-variable report has %zu groups, first of %zu values", iv.size(), iv.empty() ? 0 : iv[0].size());
			for (int w = 0; w < ng; w++) {
				G &gp = gs[w]; c.count(iv[w].size()); if (iv[w].size() != iv[0].size()) c.fail("the internal-variable report has groups of different sizes");
				for (int e = 0; e < k.elems(); e++) for (int g = 0; g < 8; g++) {
					const double *v = &iv[w][(size_t) e * 56 + g * 7]; const ref::PState &z = gp.st[cell.ph[e]];
					double tol = 2e-6 * vmax(z.ep, 6) + 1e-14 * gp.ever;
					for (int i = 0; i < 6; i++) if (!(std::fabs(v[i] - z.ep[i]) <= tol)) c.fail("committed plastic strain %d of element %d point %d is %.8g, expected %.8g", i, e, g, v[i], z.ep[i]);
					if (!(std::fabs(v[6] - z.alpha) <= 2e-6 * z.alpha + 1e-14 * gp.ever)) c.fail("committed hardening variable of element %d point %d is %.8g, expected %.8g", e, g, v[6], z.alpha);
					if (!(std::fabs(v[0] + v[1] + v[2]) <= 3 * tol)) c.fail("plastic strain is not volume preserving: trace %.8g", v[0] + v[1] + v[2]);
				}
			}
			c.label("internal variables compared");
		}
	}
	if (flows) c.label("flow"); if (elastic_after) c.label("elastic after flow"); if (shear) c.label("flow with shear strain");
	if (flows) c.nontrivial();
}

static void c06_field(Ctx &c)
{
	// any cell: laws that hold at every point whatever the displacements are
	Opt o; o.dim = 3; o.plastic = 2; o.grid = INTERIOR; o.Emin = 1e7; o.contrast = 100; o.max_int3 = 12;
	Config k = config(c, o);
	describe(c, k);
	ref::Cell cell(k);
	P s(sut_new(&k, 0));
	double y = yield_strain(k); Path p; int steps = c.range(1, 4), id = 11;
	std::vector<double> alpha0(k.elems() * 8, 0.0); bool flowed = false;
	for (int q = 0; q < steps; q++) {
		p.next(c, 6, y, 5);
		c.note("step %d: strain %s\n", q, vec(p.e, 6).c_str());
		s->set_strain(id, p.e); s->homogenize(); s->update(); s->output(q, id); s->info();
		std::string t, fn = "micropp_11_" + std::to_string(q) + ".vtu"; if (!files::slurp(fn, t)) c.fail("no file %s", fn.c_str());
		files::Vtu V = files::parse_vtu(t); if (!V.err.empty()) c.fail("%s", V.err.c_str());
		auto &es = V.a["strain"].v, &ss = V.a["stress"].v, &ha = V.a["hardening"].v, &pl = V.a["plasticity"].v;
		size_t NE = k.elems(); if (es.size() != NE * 6 || ss.size() != NE * 6 || ha.size() != NE || pl.size() != NE) c.fail("array sizes in %s", fn.c_str());
		auto iv = int_vars(c); if (iv.size() != 1 || iv[0].size() != NE * 56) c.fail("internal-variable report: wrong number of values");
		double emax = vmax(es.data(), (int) es.size());
		c.count(NE * 12);
		for (size_t e = 0; e < NE; e++) {
			const ref::Mat &M = k.mat[cell.ph[e]]; ref::Lame l = ref::lame(M);
			const double *a = &ss[e * 6], *b = &es[e * 6];
			double st = 1e-5 * ref::stiff(M) * vmax(b, 6) + 1e-5 * vmax(a, 6);
			double pr = (a[0] + a[1] + a[2]) / 3; if (!(std::fabs(pr - l.k * (b[0] + b[1] + b[2])) <= st)) c.fail("element %zu: pressure %.8g, bulk modulus times volume strain %.8g", e, pr, l.k * (b[0] + b[1] + b[2]));
			double am = 0, pn = 0;
			for (int g = 0; g < 8; g++) {
				const double *v = &iv[0][e * 56 + g * 7];
				am += v[6] / 8; pn += std::sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2] + 2 * (v[3]*v[3] + v[4]*v[4] + v[5]*v[5])) / 8;
				double m = vmax(v, 6);
				if (!(std::fabs(v[0] + v[1] + v[2]) <= 6e-6 * m + 1e-14)) c.fail("element %zu point %d: plastic strain is not volume preserving: trace %.8g of %.8g", e, g, v[0] + v[1] + v[2], m);
				if (v[6] < alpha0[e * 8 + g] * (1 - 2e-6)) c.fail("element %zu point %d: hardening variable decreased from %.8g to %.8g", e, g, alpha0[e * 8 + g], v[6]);
				if (M.type != 1 && (m != 0 || v[6] != 0)) c.fail("element %zu point %d: plastic variables in an elastic material", e, g);
				// |plastic strain| <= sqrt(3/2) * alpha (accumulated length)
				double nrm = std::sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2] + 2 * (v[3]*v[3] + v[4]*v[4] + v[5]*v[5]));
				if (!(nrm <= std::sqrt(1.5) * v[6] * (1 + 1e-5) + 1e-14)) c.fail("element %zu point %d: plastic strain norm %.8g exceeds the accumulated length %.8g", e, g, nrm, std::sqrt(1.5) * v[6]);
				alpha0[e * 8 + g] = v[6]; if (v[6] > 0) flowed = true;
			}
			if (!(std::fabs(ha[e] - am) <= 1e-5 * am + 1e-14)) c.fail("element %zu: exported hardening %.8g, average of the reported variables %.8g", e, ha[e], am);
			if (!(std::fabs(pl[e] - pn) <= 1e-5 * pn + 1e-14)) c.fail("element %zu: exported plasticity %.8g, average norm of the reported plastic strains %.8g", e, pl[e], pn);
			if (M.type == 1 && M.Ka == 0) { double dn = devnorm(a); if (!(dn <= std::sqrt(2.0 / 3) * M.Sy + st)) c.fail("element %zu: deviatoric norm %.8g exceeds the yield radius %.8g", e, dn, std::sqrt(2.0 / 3) * M.Sy); }
			if (M.type != 1) { for (int i = 0; i < 6; i++) { double w = i < 3 ? l.lam * (b[0] + b[1] + b[2]) + 2 * l.mu * b[i] : l.mu * b[i]; if (!(std::fabs(w - a[i]) <= st)) c.fail("element %zu (elastic): stress %d is %.8g, Hooke's law gives %.8g", e, i, a[i], w); } }
			(void) emax;
		}
	}
	if (flowed) { c.label("field: flow"); c.nontrivial(); }
}
static void c06(Ctx &c) { if (c.chance(1, 5)) c06_field(c); else c06_exact(c); }
static pbt::Reg r06({"C06", c06, 6400, 80000, "4/5: random J2 cells without interior nodes (strain = macro strain at every point) driven along 1-12 (thorough 1-30) steps of loading, unloading, reversal, shear, repeated and discarded steps; stress against the radial-return law at 1e-10, yield bound and consistency, pressure, reported plastic strains and hardening variable. 1/5: cells with interior nodes: yield bound, pressure, isochoric flow, monotone hardening, Hooke's law in elastic elements from exports and reports. Non-trivial: plastic flow occurred",
	{}});

// ---------------------------------------------------------------------------------- C21
struct Map { int perm[3]; double sign[3]; };   // new axis perm[d] carries old axis d, coordinate multiplied by sign
static int voigt(int dim, int i, int j)
{
	if (i > j) std::swap(i, j);
	if (dim == 2) return i == j ? i : 2;
	if (i == j) return i;
	return i == 0 ? (j == 1 ? 3 : 4) : 5;
}
static void map_idx(int dim, const Map &M, int *to, double *sg)
{
	for (int i = 0; i < dim; i++) for (int j = i; j < dim; j++) { int v = voigt(dim, i, j); to[v] = voigt(dim, M.perm[i], M.perm[j]); sg[v] = M.sign[i] * M.sign[j]; }
}
static void c21(Ctx &c)
{
	int what = c.range(0, 4); // permutation, reflection, length, moduli, sign
	Opt o; o.plastic = c.chance(1, 2) ? 1 : 0; o.Emin = 1e7; o.contrast = 100;
	bool pl = o.plastic;
	if (pl) { o.dim = 3; o.plastic = 2; o.max_int3 = 6; if (c.chance(1, 2)) o.grid = NOINTERIOR; } else { o.max_int3 = c.chance(1, 8) ? 100 : 18; o.max_int2 = 80; }
	Config k = config(c, o), k2 = k;
	if (what == 2) { for (int d = 0; d < k.dim; d++) k.L[d] = std::max(0.7, std::min(1.4, k.L[d])); while (k.phase_ambiguous()) k.width = k.width * (1 + 1e-6) + 1e-8; k2 = k; }
	int nv = k.nvoi(), D = k.dim;
	bool inner = k.n[0] > 2 && k.n[1] > 2 && (D == 2 || k.n[2] > 2), wide = !inner && c.chance(1, 2); // without interior nodes no solver tolerance matters
	Map M = {{0, 1, 2}, {1, 1, 1}}; double sl = 1, sm = 1, sgn = 1;
	if (what == 0) {
		if (k.micro_type == 1) { if (D == 2) { k.micro_type = 0; k.width *= 0.5; while (k.phase_ambiguous()) k.width = k.width * (1 + 1e-6) + 1e-8; k2 = k; M.perm[0] = 1; M.perm[1] = 0; } else { M.perm[0] = 2; M.perm[2] = 0; } }
		else if (D == 2) { M.perm[0] = 1; M.perm[1] = 0; }
		else { static const int P3[5][3] = {{1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}}; int w = c.range(0, 4); for (int d = 0; d < 3; d++) M.perm[d] = P3[w][d]; }
		for (int d = 0; d < D; d++) { k2.n[M.perm[d]] = k.n[d]; k2.L[M.perm[d]] = k.L[d]; }
		c.label("axis permutation");
	} else if (what == 1) {
		int ax; do { ax = c.range(0, D - 1); if (k.micro_type == 1 && ax == 1) ax = D == 3 ? 2 : 0; } while (0);
		M.sign[ax] = -1; c.label("reflection");
	} else if (what == 2) { sl = wide ? c.logreal(1e-4, 1e4) : c.chance(1, 2) ? 1.3 : c.real(0.75, 1.4); for (int d = 0; d < 3; d++) k2.L[d] *= sl; k2.width *= sl; c.label("length scaling"); }
	else if (what == 3) { sm = wide ? c.logreal(1e-6, 1e6) : c.chance(1, 2) ? 4.0 : c.logreal(0.1, 10); for (int m = 0; m < 2; m++) { k2.mat[m].E *= sm; k2.mat[m].Sy *= sm; k2.mat[m].Ka *= sm; } c.label("modulus scaling"); }
	else { sgn = -1; c.label("sign reversal"); }
	bool fast = c.chance(1, 5); if (fast && !pl) { k.inv_tol = 1e30; k2.inv_tol = 1e30; c.label("fast path"); } else k2.inv_tol = k.inv_tol;
	if (k2.phase_ambiguous(1e-12)) c.discard("rounding decides a phase");
	int to[6]; double sg[6]; map_idx(D, M, to, sg);
	describe(c, k); c.note("transformed:\n"); describe(c, k2);
	c.label(pl ? "plastic" : "elastic"); c.label(D == 2 ? "2D" : "3D");
	mkdir("a", 0755); mkdir("b", 0755);
	if (chdir("a")) c.discard("scratch"); P A(sut_new(&k, 0)); if (chdir("../b")) c.discard("scratch"); P B(sut_new(&k2, 0));
	Model m(k); Model m2(k2);
	double y = yield_strain(k); Path p; int steps = c.range(1, pl ? 5 : 2); bool flow = false;
	for (int q = 0; q < steps; q++) {
		if (pl) p.next(c, nv, y, 4); else strain(c, nv, c.logreal(1e-5, 1e-2), p.e);
		double e2[6]; for (int v = 0; v < nv; v++) e2[to[v]] = sgn * sg[v] * p.e[v];
		bool commit = c.chance(2, 3);
		c.note("strain %s%s\n", vec(p.e, nv).c_str(), commit ? " commit" : "");
		A->set_strain(1, p.e); B->set_strain(1, e2); A->homogenize(); B->homogenize();
		double ts, tt; bool cmpC = true;
		if (pl) {
			m.set_strain(1, p.e); m2.set_strain(1, e2);
			if (!m.homogenize(true)) { c.exclude(m.why); break; }
			if (!m2.homogenize(false)) { c.exclude(m2.why); break; }
			auto &g = m.gps[0]; ts = 2 * m.tol_stress(g.sig, g.E); tt = 2 * m.tol_tangent(g.C, true); cmpC = g.hasC; flow |= g.sol.flow;
			if (m.cell.ndof == 0) ts = 1e-9 * m.Emax() * 10 * (vmax(p.e, nv) + vmax(p.peak, nv) + y);
			if (!cmpC) c.exclude("tangent not compared: point on the yield surface");
		} else {
			double s[6]; m.lin(p.e, s); ts = 2 * m.tol_stress(s, p.e); tt = 2 * m.tol_tangent(m.Clin, false);
			if (fast) ts += tt * vmax(p.e, nv) * nv;
		}
		if (sm < 1 && inner) { ts /= sm; tt /= sm; }
		double s1[6], s2[6], C1[36], C2[36]; A->stress(1, s1); B->stress(1, s2); A->ctan(1, C1); B->ctan(1, C2);
		c.count(nv + nv * nv);
		for (int v = 0; v < nv; v++) { double want = s1[v], got = sgn * sg[v] * s2[to[v]] / sm; if (!(std::fabs(want - got) <= ts)) c.fail("stress component %d is %.10g, from the transformed cell %.10g (tolerance %.3g)", v, want, got, ts); }
		if (cmpC) for (int v = 0; v < nv; v++) for (int w = 0; w < nv; w++) { double want = C1[v * nv + w], got = sg[v] * sg[w] * C2[to[v] * nv + to[w]] / sm; if (!(std::fabs(want - got) <= tt)) c.fail("tangent entry (%d,%d) is %.10g, from the transformed cell %.10g (tolerance %.3g)", v, w, want, got, tt); }
		if (A->nl(1) != B->nl(1)) c.fail("flag %d, from the transformed cell %d", A->nl(1), B->nl(1));
		if (commit) { A->update(); B->update(); if (pl) { m.update(); m2.update(); } }
	}
	if (flow) c.label("plastic flow");
	if (mixed(k) && (m.cell.ndof || flow) && (!pl || flow)) c.nontrivial();
}
static pbt::Reg r21({"C21", c21, 3600, 50000, "random elastic cells (up to 100 interior nodes) and plastic histories, each run together with its image under an axis permutation, a reflection, a scaling of all lengths, a scaling of all moduli and yield stresses, or reversal of the strain signs; stresses, tangents and flags compared. Non-trivial: both phases, interior nodes or flow, and flow in plastic cases",
	{"both members of a pair keep the absolute solver tolerances small (E at least 1e6, see known findings)"}});

// ---------------------------------------------------------------------------------- C23
static void c23(Ctx &c)
{
	Opt o; o.Emin = 1e7; o.contrast = 100; o.max_int3 = 6;
	bool pl = c.chance(3, 4);
	if (pl) { o.dim = 3; o.plastic = 2; if (c.chance(2, 3)) o.grid = NOINTERIOR; }
	Config k = config(c, o);
	describe(c, k);
	int nv = k.nvoi(); bool exact;
	Model m(k); exact = m.cell.ndof == 0;
	c.label(exact ? "no interior nodes" : "interior nodes"); c.label(k.dim == 2 ? "2D" : "3D");
	P s(sut_new(&k, 0));
	double y = yield_strain(k); Path p; double last[6] = {0}, lastS[6] = {0}; double W = 0, T = 0, scale = 0;
	int mode = pl ? c.range(0, 3) : 0; // 1: an adversary moves against the stress; 2: cycles of one direction
	static const char *mn[] = {"random path", "adversary moving against the stress", "cycles", "random path"}; c.label(mn[mode]);
	int steps = c.range(2, exact ? (mode == 1 || mode == 2 ? 40 : 14) : 6); double amp = y * c.logreal(1, exact ? 60 : 5), dir[6]; strain(c, nv, 1.0, dir);
	bool flow = false; int id = 1;
	bool closed = c.chance(2, 3);
	for (int q = 0; q < steps; q++) {
		if (q == steps - 1 && closed) for (int i = 0; i < nv; i++) p.e[i] = 0;
		else if (mode == 1 && q && vmax(lastS, nv) > 0) { // half of the steps go against the stress, in whole or in one component
			double n = vmax(lastS, nv); int w = c.range(0, 2); double f = y * c.logreal(0.02, 2); int only = c.range(0, nv - 1);
			if (w == 0) for (int i = 0; i < nv; i++) p.e[i] -= f * lastS[i] / n; else if (w == 1) p.e[only] -= lastS[only] > 0 ? f : -f; else p.next(c, nv, y, 5);
		}
		else if (mode == 2) { double f = (q % 2 ? -1 : 1) * amp * c.real(0.5, 1.0); for (int i = 0; i < nv; i++) p.e[i] = f * dir[i]; }
		else if (pl) p.next(c, nv, y, 5); else strain(c, nv, c.logreal(1e-4, 1e-2), p.e);
		c.note("step %d: strain %s\n", q, vec(p.e, nv).c_str());
		if (c.chance(1, 5)) { // a discarded trial
			double t[6]; strain(c, nv, y * c.logreal(0.5, 4), t); c.note("  trial %s\n", vec(t, nv).c_str());
			s->set_strain(id, t); s->homogenize(); m.set_strain(id, t); if (!m.homogenize(false)) { c.exclude(m.why); return; }
		}
		s->set_strain(id, p.e); s->homogenize();
		m.set_strain(id, p.e); if (!m.homogenize(false)) { c.exclude(m.why); return; }
		flow |= m.gps[0].sol.flow;
		double sig[6]; s->stress(id, sig);
		double tol = exact ? 1e-10 * m.Emax() * 10 * (vmax(p.e, nv) + y) : m.tol_stress(m.gps[0].sig, p.e);
		for (int i = 0; i < nv; i++) { W += sig[i] * (p.e[i] - last[i]); T += 0.5 * (sig[i] + lastS[i]) * (p.e[i] - last[i]); scale += tol * std::fabs(p.e[i] - last[i]); }
		for (int i = 0; i < nv; i++) { last[i] = p.e[i]; lastS[i] = sig[i]; }
		s->update(); m.update();
		c.count(1);
		if (!(W >= -scale)) c.fail("after step %d the work put in is %.8g: the cell has given work away (tolerance %.3g)", q, W, scale);
	}
	bool everflow = m.gps[0].nl;
	if (!everflow) { double half = 0; for (int i = 0; i < nv; i++) half += 0.5 * lastS[i] * last[i]; c.count(1); if (!(std::fabs(T - half) <= 2 * scale)) c.fail("no flow, but the work %.10g differs from half stress times strain %.10g (tolerance %.3g)", T, half, 2 * scale); c.label("elastic"); }
	else if (closed && flow) {
		// lower bound of the dissipation: yield stress times hardening variable, volume average
		double d = 0; auto &g = m.gps[0]; for (size_t e = 0; e < m.cell.ph.size(); e++) for (int q = 0; q < m.cell.ng; q++) d += g.n[e * m.cell.ng + q].alpha * k.mat[m.cell.ph[e]].Sy / (m.cell.ng * m.cell.ph.size());
		if (d > 10 * scale) { c.count(1); c.label("closed plastic cycle"); if (!(W > 0)) c.fail("a closed cycle with plastic flow cost work %.8g", W); if (!(W >= d * (1 - 1e-3) - scale)) c.fail("a closed cycle cost %.8g, less than yield stress times accumulated plastic strain %.8g", W, d); }
	}
	if (everflow) c.label("plastic"); if (everflow || (closed && mixed(k))) c.nontrivial();
}
static pbt::Reg r23({"C23", c23, 6000, 60000, "random elastic and J2 cells driven along 2-14 committed steps (two thirds closed cycles), with discarded trials, by an adversary that moves against the current stress, or in up to 40 cycles of large amplitude; accumulated macro work bounded below by zero after every step, by the dissipation on closed cycles with flow, equal to half stress times strain for elastic cells. Non-trivial: plastic flow, or a closed cycle of a two-phase elastic cell",
	{"work is summed with the stress at the end of each step (implicit rule), for which the bound is a theorem"}});

// ---------------------------------------------------------------- known finding
// The solver tolerances (Newton 1e-5, CG 1e-8) are absolute residuals: with moduli given in units
// that make them small numbers the perturbed solves behind the tangent stop before they start.
static void k21(Ctx &c)
{
	Config k; k.dim = 2; k.n[0] = k.n[1] = 6; k.n[2] = 2; k.L[0] = k.L[1] = k.L[2] = 1; k.micro_type = 0; k.width = 0.3; k.inv_tol = 0;
	for (int m = 0; m < 2; m++) { k.mat[m].type = 0; k.mat[m].nu = 0.3; k.mat[m].Sy = 1; k.mat[m].Ka = 0; }
	k.mat[0].E = 70; k.mat[1].E = 400; Config q = k; q.mat[0].E = 70e9; q.mat[1].E = 400e9; // GPa and Pa
	double e[3] = {1e-3, 0, 0}, A[9], B[9];
	P s(sut_new(&k, 0)), t(sut_new(&q, 0));
	s->set_strain(1, e); s->homogenize(); s->ctan(1, A); t->set_strain(1, e); t->homogenize(); t->ctan(1, B);
	for (int i = 0; i < 9; i++) if (!(std::fabs(A[i] - B[i] / 1e9) <= 1e-2 * B[0] / 1e9)) c.fail("tangent entry %d is %.8g with E=70, %.8g with E=70e9", i, A[i], B[i]);
}
static pbt::RegK kf21({"C21", "2D n=6x6 sphere 0.3, E=70/400 nu=0.3 (moduli in GPa): the tangent differs by more than 1% from 1e-9 times that of the same cell in Pa, because the solver tolerances are absolute", k21});
