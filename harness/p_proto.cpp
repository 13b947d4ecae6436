// C07-C11: protocol of Gauss points, trials, commits, shortcut, flags, observers.
#include "common.hpp"
#include <sys/stat.h>
#include <unistd.h>

static void in_dir(Ctx &c, const char *d) { mkdir(d, 0755); if (chdir(d)) c.discard("scratch"); }
static void up(Ctx &c) { if (chdir("..")) c.discard("scratch"); }

static std::vector<std::vector<double>> last_int_vars(Ctx &c)
{
	std::string t; if (!files::slurp("micropp_int_vars_n.dat", t)) c.fail("no internal-variable report");
	files::Report R = files::parse_report(t); std::vector<std::vector<double>> out;
	if (!R.lines.empty()) for (auto &g : R.lines.back()) { std::vector<double> v; bool ok = true; for (auto &x : g) v.push_back(files::num(x, ok)); if (!ok) c.fail("the internal-variable report holds something that is not a number"); out.push_back(v); }
	return out;
}
static void same(Ctx &c, const char *what, const std::vector<double> &a, const std::vector<double> &b, double tol)
{
	if (a.size() != b.size()) c.fail("%s: %zu values against %zu", what, a.size(), b.size());
	c.count(a.size());
	for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= tol)) c.fail("%s: value %zu is %.14g in one run, %.14g in the other (tolerance %.3g)", what, i, a[i], b[i], tol);
}

// ---------------------------------------------------------------------------------- C07
static void c07(Ctx &c)
{
	bool exact = c.chance(3, 4);
	Opt o; o.dim = 3; o.plastic = 2; o.grid = exact ? NOINTERIOR : INTERIOR; o.Emin = 1e7; o.contrast = 100; o.max_int3 = 6;
	Config k = config(c, o); double y = yield_strain(k);
	if (c.chance(1, 6)) k.inv_tol = smax(k) * y * c.logreal(0.1, 3);
	describe(c, k); c.label(exact ? "no interior nodes" : "interior nodes");
	int ng = c.range(1, 3); auto ids = some_ids(c, ng);
	std::vector<Path> p(ng); History h;
	int steps = exact && c.chance(1, 12) ? c.range(20, 50) : c.range(1, exact ? 8 : 3), trials = 0, dbl = 0;
	for (int q = 0; q < steps; q++) {
		int nt = c.range(0, 3);
		for (int t = 0; t < nt; t++) {
			int what = c.range(0, 5);
			if (what <= 3) {
				for (int g = 0; g < ng; g++) if (c.chance(2, 3)) { double e[6]; strain(c, 6, y * c.logreal(0.1, exact ? 10 : 3), e); if (c.chance(1, 4)) for (int i = 0; i < 6; i++) e[i] = 0.3 * p[g].e[i]; h.push_back(set_op(ids[g], e, 6, q > 0 || c.chance(1, 2))); }
				if (q == 0) for (auto &x : h) if (x.kind == SET) x.noise = true;
				h.push_back(op(HOM, true)); trials++;
			} else if (what == 4) h.push_back(op(OUT, true, ids[c.range(0, ng - 1)], c.range(0, 3)));
			else h.push_back(op(INFO, true));
		}
		for (int g = 0; g < ng; g++) { if (q == 0 || c.chance(3, 4)) p[g].next(c, 6, y, exact ? 10 : 4, exact); if (g && c.chance(1, 6)) twin_strain(p[g], p[c.range(0, g - 1)]); h.push_back(set_op(ids[g], p[g].e, 6)); }
		h.push_back(op(HOM));
		if (c.chance(1, 3)) { // strains set but not evaluated before the commit
			for (int g = 0; g < ng; g++) if (c.chance(1, 2)) { double e[6]; strain(c, 6, y * c.logreal(0.3, exact ? 10 : 3), e); h.push_back(set_op(ids[g], e, 6, true)); }
		}
		if (c.chance(1, 4)) h.push_back(op(OUT, true, ids[c.range(0, ng - 1)], 1));
		if (c.chance(3, 4)) {
			h.push_back(op(UPD));
			if (c.chance(1, 3)) { dbl++; if (c.chance(1, 2)) { double e[6]; strain(c, 6, y * c.logreal(0.3, 5), e); h.push_back(set_op(ids[0], e, 6, true)); } h.push_back(op(UPD, true)); }
		}
	}
	for (int g = 0; g < ng; g++) { double e[6]; strain(c, 6, y * c.logreal(0.1, exact ? 10 : 2), e); h.push_back(set_op(ids[g], e, 6)); }
	h.push_back(op(HOM));
	describe(c, h, 6);
	if (!exact) {
		// creation order must be the same in model and library: it is (same history)
		Model m(k); P s(sut_new(&k, 0));
		Follow F = follow(c, *s, m, h, false, false);
		if (F.flows && F.commits) c.nontrivial();
		return;
	}
	in_dir(c, "a"); P A(sut_new(&k, 0)); Answers ra = run_history(*A, h, ids, 6, false); A->update(); A->info(); auto va = last_int_vars(c); up(c);
	in_dir(c, "b"); P B(sut_new(&k, 0)); Answers rb = run_history(*B, h, ids, 6, true); B->update(); B->info(); auto vb = last_int_vars(c); up(c);
	double emax = 0; for (auto &x : h) emax = std::max(emax, vmax(x.e, 6));
	// with a positive threshold a trial may change which path answers (the flag is kept), so elastic
	// answers may differ by the accuracy of the stored tensor
	double ts = smax(k) * emax * (k.inv_tol > 0 ? 1e-6 : 1e-11), tc = smax(k) * 1e-4;
	if (k.inv_tol > 0) { // only comparable while both take the same path: flags must agree
		if (ra.flag != rb.flag) { c.exclude("threshold: trial plasticity switches the shortcut off"); return; }
	}
	same(c, "stress with and without the extra operations", ra.stress, rb.stress, ts);
	same(c, "tangent with and without the extra operations", ra.ctan, rb.ctan, tc);
	// creation order can differ when the extra operations create Gauss points first: same sets of states
	if (va.size() != vb.size()) c.fail("internal-variable reports have %zu and %zu Gauss points", va.size(), vb.size());
	if (ng == 1) same(c, "committed internal variables", va[0], vb[0], 1e-5 * emax + 1e-14);
	bool flow = false; for (int f : ra.flag) flow |= f;
	if (flow) c.label("plastic flow"); if (trials) c.label("discarded trials"); if (dbl) c.label("repeated commit");
	if (flow && (trials || dbl)) c.nontrivial();
}
static pbt::Reg r07({"C07", c07, 3000, 60000, "histories of 1-3 Gauss points in J2 cells with discarded trials, exports, reports, repeated commits (also after setting a new strain without evaluating). 3/4: cells without interior nodes, run with and without the extra operations, stresses, tangents and committed variables equal to 1e-11; 1/4: cells with interior nodes against the protocol model. Non-trivial: plastic flow and extra operations (or commits)",
	{"interior cells: followed while undamped Newton converges within 8 steps in the reference"}});

// ---------------------------------------------------------------------------------- C08
static void c08(Ctx &c)
{
	bool exact = c.chance(3, 4);
	Opt o; o.plastic = c.chance(2, 3) ? 2 : 0; if (o.plastic) o.dim = 3; o.grid = exact ? NOINTERIOR : INTERIOR; o.Emin = 1e7; o.contrast = 100; o.max_int3 = 6; o.max_int2 = 16;
	Config k = config(c, o); double y = yield_strain(k); int nv = k.nvoi();
	if (c.chance(1, 3)) k.inv_tol = smax(k) * y * c.logreal(0.1, 3);
	describe(c, k); c.label(exact ? "no interior nodes" : "interior nodes"); c.label(k.dim == 2 ? "2D" : "3D");
	bool many = exact && c.chance(1, 60); if (many) { for (int d = 0; d < k.dim; d++) k.n[d] = 2; k.n[0] = c.range(2, 3); while (k.phase_ambiguous()) k.width = k.width * (1 + 1e-6) + 1e-8; describe(c, k); c.label("26-150 Gauss points"); }
	int ng = many ? c.range(26, 150) : exact ? (c.chance(1, 4) ? c.range(8, 25) : c.range(2, 6)) : c.range(2, 4);
	auto ids = some_ids(c, ng); std::vector<Path> p(ng); History h; std::vector<char> have(ng, 0);
	int steps = many ? 2 : exact && ng < 5 && c.chance(1, 20) ? c.range(10, 25) : c.range(1, exact ? 5 : 3);
	for (int q = 0; q < steps; q++) {
		int start = c.range(0, ng - 1);
		for (int i = 0; i < ng; i++) {
			int g = c.chance(1, 2) ? (start + i) % ng : c.range(0, ng - 1);
			if (q == 0 && !c.chance(4, 5)) continue;
			if (o.plastic) p[g].next(c, nv, y, exact ? 8 : 3, exact); else strain(c, nv, c.logreal(1e-5, 1e-2), p[g].e);
			if (c.chance(1, 6)) twin_strain(p[g], p[c.range(0, ng - 1)]);
			if (c.chance(1, 5)) { // overwritten below: another strain, or one very close to it
				double e[6]; strain(c, nv, y * 7, e);
				if (c.chance(1, 2)) { double d = c.logreal(1e-9, 1e-2); for (int i = 0; i < nv; i++) e[i] = p[g].e[i] + d * e[i]; }
				h.push_back(set_op(ids[g], e, nv));
			}
			h.push_back(set_op(ids[g], p[g].e, nv)); have[g] = 1;
		}
		h.push_back(op(HOM));
		if (c.chance(2, 3)) h.push_back(op(UPD));
	}
	describe(c, h, nv);
	int nhave = 0; for (char x : have) nhave += x;
	if (!exact) {
		Model m(k); P s(sut_new(&k, 0));
		Follow F = follow(c, *s, m, h, !o.plastic, true);
		if (nhave > 1 && (F.flows || (!o.plastic && mixed(k)))) c.nontrivial();
		return;
	}
	P s(sut_new(&k, 0)); Answers all = run_history(*s, h, ids, nv, true);
	double emax = 0; for (auto &x : h) emax = std::max(emax, vmax(x.e, nv));
	int homs = 0; for (auto &x : h) homs += x.kind == HOM;
	bool flow = false; std::vector<int> other = some_ids(c, ng);
	for (int g = 0; g < ng; g++) {
		if (many && g > 8 && g < ng - 8 && !c.chance(1, 4)) continue;
		// the same Gauss point alone, in a cell of its own, under another id
		History hg; bool created = false; std::vector<char> seen;
		for (auto &x : h) { if (x.kind == SET) { if (x.gp != ids[g]) continue; Op y2 = x; y2.gp = other[g]; hg.push_back(y2); created = true; } else { hg.push_back(x); if (x.kind == HOM) seen.push_back(created); } }
		{ // only the last strain set before each evaluation or commit
			History f; for (size_t i = 0; i < hg.size(); i++) if (!(hg[i].kind == SET && i + 1 < hg.size() && hg[i + 1].kind == SET)) f.push_back(hg[i]);
			hg.swap(f);
		}
		P t(sut_new(&k, 0)); Answers one;
		if (o.plastic) one = run_history(*t, hg, {other[g]}, nv, true);
		else { // no state: every evaluation could as well be the first one of a new Gauss point
			int next = 500000, cur = next;
			for (auto x : hg) {
				if (x.kind == SET) x.gp = cur = next++;
				Answers a = run_history(*t, History(1, x), {cur}, nv, true);
				one.stress.insert(one.stress.end(), a.stress.begin(), a.stress.end()); one.ctan.insert(one.ctan.end(), a.ctan.begin(), a.ctan.end()); one.flag.insert(one.flag.end(), a.flag.begin(), a.flag.end());
			}
		}
		for (int q = 0; q < homs; q++) {
			const double *a = &all.stress[(size_t) (q * ng + g) * nv], *b = &one.stress[(size_t) q * nv], *C = &all.ctan[(size_t) (q * ng + g) * nv * nv], *D = &one.ctan[(size_t) q * nv * nv];
			if (!seen[q]) {
				for (int i = 0; i < nv; i++) if (a[i] != -3e33) c.fail("querying the stress of an id never set wrote %g", a[i]);
				for (int i = 0; i < nv * nv; i++) if (C[i] != -4e44) c.fail("querying the tangent of an id never set wrote %g", C[i]);
				if (all.flag[q * ng + g] != 0) c.fail("an id never set is reported non-linear");
				c.label("query of an unknown id"); continue;
			}
			char w[90]; snprintf(w, 90, "stress of gp %d (evaluation %d) among %d and alone", ids[g], q + 1, nhave); cmp(c, w, a, b, nv, 1e-11 * smax(k) * emax);
			snprintf(w, 90, "tangent of gp %d (evaluation %d) among %d and alone", ids[g], q + 1, nhave); cmp(c, w, C, D, nv * nv, 1e-5 * smax(k));
			if (all.flag[q * ng + g] != one.flag[q]) c.fail("flag of gp %d (evaluation %d) is %d among others and %d alone", ids[g], q + 1, all.flag[q * ng + g], one.flag[q]);
			flow |= one.flag[q] != 0;
		}
	}
	if (flow) c.label("plastic flow"); if (ng >= 8) c.label("8 or more Gauss points");
	if (nhave > 1 && (flow || !o.plastic)) c.nontrivial();
}
static pbt::Reg r08({"C08", c08, 6000, 50000, "2-25 (rarely up to 150) Gauss points with arbitrary ids, set in arbitrary order, repeatedly, created late. Cells without interior nodes: every Gauss point compared with the same Gauss point alone in a cell of its own under another id; cells with interior nodes: against the protocol model. Ids never set are queried too. Non-trivial: at least two Gauss points and plastic flow (elastic: two phases)",
	{"interior cells: followed while undamped Newton converges within 8 steps in the reference"}});

// ---------------------------------------------------------------------------------- C09
static void c09(Ctx &c)
{
	Opt o; o.plastic = c.chance(3, 4) ? 2 : 0; if (o.plastic) o.dim = 3; o.Emin = 1e8; o.contrast = 30; o.max_int3 = 6; o.max_int2 = 16;
	if (c.chance(1, 3)) o.grid = NOINTERIOR;
	Config k = config(c, o); double y = yield_strain(k); int nv = k.nvoi();
	double e0[6]; strain(c, nv, y * c.logreal(0.3, 4), e0);
	Config k0 = k; k0.inv_tol = 0; Model pre(k0);
	double inv = std::fabs(pre.inv1(e0));
	static const double fac[] = {0.5, 0.9, 0.99, 1.01, 1.1, 2, 1.003, 0.997};
	switch (c.range(0, 4)) {
	case 0: case 1: case 2: k.inv_tol = inv * fac[c.range(0, 7)]; break;
	case 3: k.inv_tol = c.pick({0.0, -1.0, -1e30, 1e30}); break;
	default: k.inv_tol = smax(k) * y * c.logreal(0.1, 3);
	}
	if (inv < 1e-9 * smax(k) * y && k.inv_tol > 0 && k.inv_tol < 1e-6 * smax(k) * y) k.inv_tol = smax(k) * y;
	describe(c, k); c.label(pre.cell.ndof ? "interior nodes" : "no interior nodes"); c.label(k.dim == 2 ? "2D" : "3D");
	Model m(k); P s(sut_new(&k, 0));
	History h; int ng = c.chance(1, 6) ? c.range(3, 5) : c.range(1, 2); auto ids = some_ids(c, ng); h.push_back(set_op(ids[0], e0, nv)); std::vector<Path> p(ng); for (int i = 0; i < nv; i++) p[0].e[i] = e0[i];
	for (int g = 1; g < ng; g++) { p[g].next(c, nv, y, 4); if (c.chance(1, 3)) for (int i = 0; i < nv; i++) p[g].e[i] = e0[i] * (c.chance(1, 2) ? -1 : 1) * c.pick({1.0, 0.5, 1.5}); h.push_back(set_op(ids[g], p[g].e, nv)); }
	h.push_back(op(HOM));
	int steps = m.cell.ndof <= 3 && c.chance(1, 20) ? c.range(8, 16) : c.range(0, 4);
	for (int q = 0; q < steps; q++) {
		if (c.chance(1, 2)) h.push_back(op(UPD));
		int g = c.range(0, ng - 1);
		if (c.chance(1, 3)) { double f = c.real(-0.4, 0.4); for (int i = 0; i < nv; i++) p[g].e[i] *= f; } else p[g].next(c, nv, y, 4);
		if (c.chance(1, 12)) for (double &x : p[g].e) x = 0;
		else if (c.chance(1, 8)) twin_strain(p[g], p[c.range(0, ng - 1)]);
		h.push_back(set_op(ids[g], p[g].e, nv)); if (c.chance(1, 8)) noise(c, h, ids, false); h.push_back(op(HOM));
	}
	describe(c, h, nv);
	// step through: after each evaluation also look at the report and at is_linear
	int shortcuts = 0, solved = 0, lines = 0, disting = 0;
	for (size_t i = 0; i < h.size(); i++) {
		History one(h.begin() + i, h.begin() + i + 1);
		Follow F = follow(c, *s, m, one, true, true);
		if (F.stopped) break;
		if (h[i].kind == INFO) lines++;
		if (h[i].kind != HOM) continue;
		s->info(); lines++;
		std::string t; files::slurp("micropp_convergence.dat", t); files::Report R = files::parse_report(t);
		if ((int) R.lines.size() != lines || R.lines.back().size() != m.gps.size()) c.fail("convergence report: %zu lines after %d reports", R.lines.size(), lines);
		for (size_t q = 0; q < m.gps.size(); q++) {
			auto &g = m.gps[q]; auto &w = R.lines.back()[q];
			if (w.size() != (size_t) (2 + 2 * (1 + nv))) c.fail("convergence report: %zu columns", w.size());
			bool zero = true, ok = true; for (size_t j = 2; j < w.size(); j++) if (files::num(w[j], ok) != 0) zero = false;
			if (!ok) c.fail("convergence report holds something that is not a number");
			if (g.shortcut) { shortcuts++; if (!zero) c.fail("gp %d: below the threshold (invariant %.6g, threshold %.6g) and linear, but the report shows a solve", g.id, g.inv, k.inv_tol); }
			else { solved++; if (m.cell.ndof && mixed(k) && vmax(g.E, nv) > 1e-6 && zero) c.fail("gp %d: not eligible for the shortcut (invariant %.6g, threshold %.6g, earlier plastic %d), but the report shows no solve", g.id, g.inv, k.inv_tol, (int) g.nl); if (g.sol.flow) disting++; }
			if (!(k.inv_tol > 0) || std::fabs(std::fabs(g.inv) - k.inv_tol) > m.inv_err(g.E)) { c.count(1); int lin = s->is_linear(g.E), want = std::fabs(g.inv) < k.inv_tol; if (lin >= 0 && lin != want) c.fail("is_linear says %d for invariant %.8g and threshold %.8g", lin, g.inv, k.inv_tol); }
		}
	}
	if (shortcuts) c.label("shortcut"); if (solved) c.label("solved"); if (disting) c.label("plastic answer distinguishes the paths"); if (shortcuts && solved) c.label("both paths");
	if (k.inv_tol > 0 && k.inv_tol < 1e29 && shortcuts + solved > 0) c.nontrivial();
}
static pbt::Reg r09({"C09", c09, 5000, 50000, "threshold placed at 0.5..2 times (down to 0.3% away from) the invariant of a generated strain, or zero, negative, huge, or arbitrary; histories of 1-5 (rarely 8-16) evaluations of 1-5 Gauss points with commits; path deduced from stress, tangent, flag, is_linear and the iteration report, compared with the protocol model. Non-trivial: finite positive threshold",
	{"invariants closer to the threshold than the accuracy of the finite-difference tensor are excluded"}});

// ---------------------------------------------------------------------------------- C10
static void c10(Ctx &c)
{
	int mode = c.chance(1, 6) ? (c.chance(1, 2) ? 1 : 2) : 0; // 0: plastic 3D, 1: 2D or elastic, 2: shortcut always
	Opt o; o.Emin = 1e7; o.contrast = 100; o.max_int3 = c.thor() ? 18 : 12;
	if (mode == 1) { o.plastic = c.chance(1, 2) ? 1 : 0; o.dim = o.plastic ? 2 : 0; } else { o.dim = 3; o.plastic = 2; }
	if (c.chance(1, 3)) o.grid = NOINTERIOR;
	Config k = config(c, o); int nv = k.nvoi(); double y = yield_strain(k);
	if (mode == 2) k.inv_tol = 1e30;
	describe(c, k);
	P s(sut_new(&k, 0)); auto two = some_ids(c, 2); const int id = two[0], id2 = two[1]; c.note("gp ids %d and %d\n", id, id2);
	if (s->nl(id) != 0) c.fail("flag of an unknown Gauss point is set");
	if (mode) {
		c.label(mode == 1 ? (k.dim == 2 ? "2D" : "elastic 3D") : "shortcut always");
		int steps = c.chance(1, 10) ? c.range(5, 20) : c.range(1, 4);
		for (int q = 0; q < steps; q++) {
			double e[6]; strain(c, nv, y * c.logreal(0.1, 50), e); c.note("strain %s\n", vec(e, nv).c_str());
			s->set_strain(id, e); if (s->nl(id) != 0) c.fail("flag set without an evaluation");
			s->homogenize(); c.count(1);
			if (s->nl(id) != 0) c.fail("flag set although nothing can flow");
			if (c.chance(1, 2)) s->update();
		}
		c.nontrivial(); return;
	}
	Model m(k); ref::Cell &cell = m.cell;
	// first yield along a direction: the elastic solution scaled
	double d[6]; strain(c, nv, 1.0, d);
	Config ke = k; for (int q = 0; q < 2; q++) if (ke.mat[q].type == 1) ke.mat[q].type = 0;
	ref::Cell el(ke); ref::Solution S = el.solve(d, ref::State());
	double lam = 1e300; int npts = 0, first = -1; std::vector<double> ratio;
	for (int z = 0; z < k.ne(2); z++) for (int yy = 0; yy < k.ne(1); yy++) for (int x = 0; x < k.ne(0); x++) {
		int e = k.elem(x, yy, z), cn[8]; if (!k.plastic(cell.ph[e])) continue; el.corners(x, yy, z, cn);
		for (int g = 0; g < 8; g++) {
			double eps[6] = {0}; for (int v = 0; v < 6; v++) for (int a = 0; a < 24; a++) eps[v] += el.B[g][v][a] * S.u[(size_t) cn[a / 3] * 3 + a % 3];
			ref::PResult r; ref::point3(k.mat[cell.ph[e]], false, eps, ref::PState(), r);
			double p = (r.s[0] + r.s[1] + r.s[2]) / 3, q2 = 0; for (int v = 0; v < 6; v++) { double t = r.s[v] - (v < 3 ? p : 0); q2 += (v < 3 ? 1 : 2) * t * t; }
			double l = std::sqrt(2.0 / 3) * k.mat[cell.ph[e]].Sy / std::sqrt(q2); ratio.push_back(l);
			if (l < lam) { lam = l; first = e * 8 + g; }
		}
	}
	if (!(lam < 1e100) || lam > 1) c.discard("no yield along this direction");
	double delta = c.pick({1e-3, 1e-2, 3e-4, 0.1});
	if (!cell.ndof && c.chance(1, 3)) { delta = c.pick({1e-6, 3e-6, 1e-7, 1e-5}); m.undecided = 1e-13; c.label("closer to yield than the strain step of the tangent"); }
	for (double l : ratio) npts += l < lam * (1 + delta);
	if (npts == 1) c.label("exactly one integration point yields"); else if (npts <= 4) c.label("2-4 integration points yield"); else c.label("more points yield");
	c.label(cell.ndof ? "interior nodes" : "no interior nodes");
	c.note("direction %s first yield at factor %.12g (element %d point %d), %d points within delta=%g\n", vec(d, nv).c_str(), lam, first / 8, first % 8, npts, delta);
	int done = 0;
	auto eval = [&](int gp, double f, int want, const char *what) {
		double e[6]; for (int i = 0; i < nv; i++) e[i] = f * d[i];
		s->set_strain(gp, e); m.set_strain(gp, e); if (!m.homogenize(false)) { c.exclude(m.why); throw 0; }
		s->homogenize(); c.count(1); done++;
		int got = s->nl(gp); if ((int) m.find(gp)->nl != want) c.discard("models disagree"); if (got != want) c.fail("%s (factor %.9g of first yield): flag is %d, expected %d", what, f / lam, got, want);
	};
	double z[6] = {0}; bool other = c.chance(1, 2); double sg = c.chance(1, 2) ? -1 : 1;
	bool upd[4]; for (bool &x : upd) x = c.chance(1, 2);
	auto commit = [&](int i) { if (upd[i]) { s->update(); m.update(); } };
	try {
		if (other) { s->set_strain(id2, z); m.set_strain(id2, z); }
		if (c.chance(1, 2)) eval(id, lam * c.real(0.1, 0.9), 0, "elastic evaluation");
		eval(id, lam * (1 - delta), 0, "just below yield");
		commit(0); if (upd[0]) c.label("commit before yield");
		eval(id, sg * lam * (1 + delta), 1, "just above yield");
		if (other && s->nl(id2) != 0) c.fail("the flag of another Gauss point was set");
		commit(1);
		eval(id, lam * c.real(-0.5, 0.5), 1, "elastic evaluation after flow");
		commit(2);
		eval(id, 0, 1, "zero strain after flow");
		if (cell.ndof <= 3 && c.chance(1, 10)) { int more = c.range(3, 15); for (int q = 0; q < more; q++) { eval(id, lam * c.real(-0.5, 0.5), 1, "elastic evaluation long after flow"); commit(q % 4); } c.label("long history"); }
		if (other) { eval(id2, lam * (1 - delta), 0, "other Gauss point just below yield"); if (s->nl(id) != 1) c.fail("the flag was lost"); eval(id2, lam * (1 + delta), 1, "other Gauss point just above yield"); c.label("second Gauss point"); }
	} catch (int) { c.label("stopped early"); }
	if (done >= 2)
	c.nontrivial();
}
static pbt::Reg r10({"C10", c10, 2400, 50000, "random J2 cell and strain direction; the factor of first yield is computed from the reference elastic solution; evaluations just below (flag 0), just above (flag 1, often exactly one integration point flows), reversed, then elastic ones (flag kept), with and without commits, next to a second Gauss point; 1/6: 2D, elastic or always-shortcut cells under large strains (flag 0). Non-trivial: every case with a yield point",
	{}});

// ---------------------------------------------------------------------------------- C11
static void c11(Ctx &c)
{
	int mode = c.range(0, 3); // 0,1: no interior nodes, all observers; 2: interior, reports and queries (and unknown exports) only, bitwise; 3: interior, exports, model
	Opt o; o.plastic = c.chance(3, 4) ? 2 : 0; if (o.plastic) o.dim = 3; o.grid = mode <= 1 ? NOINTERIOR : INTERIOR; o.Emin = 1e7; o.contrast = 100; o.max_int3 = 6; o.max_int2 = 16;
	Config k = config(c, o); double y = yield_strain(k); int nv = k.nvoi();
	if (c.chance(1, 4)) k.inv_tol = smax(k) * y * c.logreal(0.1, 3);
	describe(c, k); c.label(mode <= 1 ? "no interior nodes" : mode == 2 ? "reports and queries, bitwise" : "exports, model");
	int ng = c.range(1, 3); auto ids = some_ids(c, ng + 1); int unknown = ids.back(); ids.pop_back();
	std::vector<Path> p(ng); History h; int steps = mode <= 1 && c.chance(1, 16) ? c.range(12, 30) : c.range(1, mode <= 1 ? 7 : 3), obs = 0;
	auto observe = [&] {
		int n = c.range(0, 2);
		for (int i = 0; i < n; i++) {
			int w = c.range(0, 4); obs++;
			if (w == 0) h.push_back(op(INFO, true));
			else if (w == 1) h.push_back(op(QRY, true, c.chance(1, 4) ? unknown : ids[c.range(0, ng - 1)]));
			else if (w == 2) h.push_back(op(OUT, true, unknown, c.range(0, 9)));
			else if (mode != 2) h.push_back(op(OUT, true, ids[c.range(0, ng - 1)], c.range(0, 9)));
			else h.push_back(op(INFO, true));
		}
	};
	for (int q = 0; q < steps; q++) {
		for (int g = 0; g < ng; g++) { if (o.plastic) p[g].next(c, nv, y, mode <= 1 ? 8 : 3); else strain(c, nv, c.logreal(1e-5, 1e-2), p[g].e); h.push_back(set_op(ids[g], p[g].e, nv)); if (c.chance(1, 3)) observe(); }
		observe(); h.push_back(op(HOM)); observe();
		if (c.chance(1, 4)) for (int g = 0; g < ng; g++) if (c.chance(1, 2)) { // strains set but not evaluated before the commit
			double e[6]; strain(c, nv, y * c.logreal(0.1, mode <= 1 ? 8 : 3), e); h.push_back(set_op(ids[g], e, nv)); observe();
		}
		if (c.chance(3, 4)) { h.push_back(op(UPD)); observe(); }
	}
	for (int g = 0; g < ng; g++) { double e[6]; strain(c, nv, y * c.logreal(0.1, mode <= 1 ? 8 : 2), e); h.push_back(set_op(ids[g], e, nv)); }
	observe(); h.push_back(op(HOM));
	describe(c, h, nv);
	if (mode == 3) {
		Model m(k); P s(sut_new(&k, 0)); Follow F = follow(c, *s, m, h, !o.plastic, true);
		if (obs && (F.flows || !o.plastic)) c.nontrivial();
		return;
	}
	in_dir(c, "a"); P A(sut_new(&k, 0)); Answers ra = run_history(*A, h, ids, nv, false, true); A->update(); A->info(); auto va = last_int_vars(c); up(c);
	in_dir(c, "b"); P B(sut_new(&k, 0)); Answers rb = run_history(*B, h, ids, nv, true, true); B->update(); B->info(); auto vb = last_int_vars(c); auto ls = files::listing(); up(c);
	double emax = 0; for (auto &x : h) emax = std::max(emax, vmax(x.e, nv));
	double t0 = mode == 2 ? 0 : 1;
	same(c, "stress with and without observers", ra.stress, rb.stress, t0 * 1e-11 * smax(k) * emax);
	same(c, "tangent with and without observers", ra.ctan, rb.ctan, t0 * 1e-4 * smax(k));
	if (ra.flag != rb.flag) c.fail("flags differ with and without observers");
	if (va.size() != vb.size()) c.fail("internal-variable reports have %zu and %zu Gauss points", va.size(), vb.size());
	for (size_t i = 0; i < va.size(); i++) same(c, "committed internal variables", va[i], vb[i], t0 * (1e-5 * emax + 1e-14));
	std::string pre = "micropp_" + std::to_string(unknown) + "_";
	for (auto &f : ls) if (f.compare(0, pre.size(), pre) == 0) c.fail("exporting an unknown Gauss point wrote %s", f.c_str());
	bool flow = false; for (int f : ra.flag) flow |= f;
	if (flow) c.label("plastic flow");
	if (obs && (flow || !o.plastic)) c.nontrivial();
}
static pbt::Reg r11({"C11", c11, 1200, 50000, "histories of 1-3 Gauss points, 1-7 (rarely 12-30) steps, with exports (known and unknown ids), reports and queries inserted anywhere; answers are read after every call. Cells without interior nodes: with and without observers equal to 1e-11; cells with interior nodes: bitwise equal for reports, queries and exports of unknown ids, against the protocol model with exports. Non-trivial: observers inserted and plastic flow (or an elastic cell)",
	{"interior cells with exports: followed while undamped Newton converges within 8 steps in the reference"}});
