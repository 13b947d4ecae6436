// C01-C05: the cell problem itself, against the reference model.
#include "common.hpp"

// ---------------------------------------------------------------------------------- C01
static void c01(Ctx &c)
{
	Opt o; o.max_int3 = c.thor() ? 40 : 18; o.max_int2 = c.thor() ? 100 : 49;
	if (c.chance(1, 2)) o.Emin = 1e8;
	o.scale = 30; bool big = c.chance(1, 40); if (big) { o.max_int3 = 125; o.max_int2 = 196; c.label("large grid"); }
	Config k = config(c, o);
	int nv = k.nvoi();
	describe(c, k);
	Model m(k); label_cfg(c, k, m.cell);
	P s(sut_new(&k, 0));
	if (c.chance(1, 6)) { k.inv_tol = 4 * smax(k) * c.logreal(1e-6, 1e-1); describe(c, k); m.cell.c.inv_tol = k.inv_tol; s.reset(sut_new(&k, 0)); c.label("positive threshold"); }
	int ng = big ? 1 : c.chance(1, 10) ? c.range(3, 7) : c.range(1, 2), steps = m.cell.ndof <= 12 && c.chance(1, 20) ? c.range(8, 25) : c.range(1, ng > 2 ? 2 : 3);
	auto ids = some_ids(c, ng); std::vector<std::array<double, 6>> last(ng); for (auto &x : last) x.fill(0);
	bool nz = false; History h;
	for (int q = 0; q < steps; q++) {
		for (int g = 0; g < ng; g++) {
			if (q && c.chance(1, 3)) continue;
			double e[6]; strain(c, nv, c.chance(1, 16) ? 0.0 : c.chance(1, 6) ? c.logreal(1e-9, std::min(10.0, 1e8 / smax(k))) : c.logreal(1e-6, 1e-1), e);
			if (q && c.chance(1, 4)) { double f = c.logreal(1e-8, 1e-2); for (int i = 0; i < nv; i++) e[i] = last[g][i] * (1 + f * c.real(-1, 1)) + f * vmax(last[g].data(), nv) * c.real(-1, 1); } // close to the one before
			for (int i = 0; i < nv; i++) last[g][i] = e[i];
			if (vmax(e, nv) > 0) nz = true;
			h.push_back(set_op(ids[g], e, nv));
		}
		noise(c, h, ids, true); h.push_back(op(HOM)); noise(c, h, ids, true);
	}
	describe(c, h, nv);
	follow(c, *s, m, h, false, false);
	if (nz && m.cell.ndof && two_phase(m.cell)) c.nontrivial();
}
static pbt::Reg r01({"C01", c01, 7800, 60000, "random elastic cell (2D/3D, grid, lengths, geometry, rods and large grids included; material pair E 1e6..1e9, nu -0.7..0.49; 1-7 Gauss points; threshold zero, positive or infinite) and 1-3 (rarely 8-25) steps of macro strains of size 1e-9..10; macro stress compared with an independent FE solution. Non-trivial: both phases present, at least one interior node, non-zero strain",
	{"E between 1e6 and 1e9 and lengths within a factor of 30 of one: the solver tolerances of the library are absolute", "element centres closer than 1e-9 to the phase boundary are not generated here (see C15)"}});

// ---------------------------------------------------------------------------------- C02
static void c02(Ctx &c)
{
	Opt o; o.dim = 3; o.plastic = 2; o.Emin = 1e7; o.contrast = 100; o.max_int3 = c.thor() ? 18 : 8;
	Config k = config(c, o);
	describe(c, k);
	Model m(k); label_cfg(c, k, m.cell);
	P s(sut_new(&k, 0));
	double y = yield_strain(k);
	if (c.chance(1, 8)) { k.inv_tol = smax(k) * y * c.logreal(0.1, 1); describe(c, k); m.cell.c.inv_tol = k.inv_tol; s.reset(sut_new(&k, 0)); c.label("positive threshold"); }
	int ng = c.chance(1, 4) ? c.range(2, 3) : 1; auto ids = some_ids(c, ng); std::vector<Path> p(ng); History h;
	int steps = c.chance(1, 12) ? c.range(6, 14) : c.range(1, c.thor() ? 10 : 6);
	for (int q = 0; q < steps; q++) {
		int what = c.range(0, 4); // 0..2: evaluate and commit, 3: trial only, 4: evaluate again
		for (int g = 0; g < ng; g++) if (what != 4 && (q == 0 || g == 0 || c.chance(1, 2))) { p[g].next(c, 6, y, 6); if (g && c.chance(1, 5)) twin_strain(p[g], p[0]); }
		for (int g = 0; g < ng; g++) if (q == 0 || c.chance(7, 8)) h.push_back(set_op(ids[g], p[g].e, 6));
		h.push_back(op(HOM));
		if (c.chance(1, 3)) noise(c, h, ids, false);
		if (what != 3) { h.push_back(op(UPD)); if (c.chance(1, 3)) noise(c, h, ids, false); }
	}
	describe(c, h, 6);
	Follow F = follow(c, *s, m, h, false, false);
	if (F.flows) c.label("plastic flow"); if (F.elastic_after) c.label("elastic step after flow"); if (F.flows > 1) c.label("flow in several steps"); if (ng > 1) c.label("several Gauss points");
	if (F.flows && F.commits > 1) c.nontrivial();
}
static pbt::Reg r02({"C02", c02, 4000, 40000, "random 3D cell with at least one J2 phase; history of 1-6 (thorough 1-10) strain steps (loading, unloading, reversal, return to earlier strains, repeated and discarded evaluations, commits); every macro stress compared with the reference cell problem from the last committed state. Non-trivial: plastic flow occurred and at least two commits",
	{"histories are followed while undamped Newton (analytic and finite-difference tangent) converges within 8 steps in the reference; the rest is counted under excluded"}});

// ---------------------------------------------------------------------------------- C03
static void c03(Ctx &c)
{
	Opt o; o.Emin = c.chance(3, 4) ? 1e8 : 1e7; o.plastic = c.chance(2, 3) ? 2 : 0; o.contrast = 100; o.max_int3 = c.thor() ? 18 : 8;
	if (o.plastic == 2) o.dim = 3;
	if (!o.plastic && c.chance(1, 15)) { o.max_int3 = 64; o.max_int2 = 144; c.label("large grid"); }
	Config k = config(c, o);
	bool fast = c.chance(1, 5); if (fast) k.inv_tol = c.chance(1, 2) ? 1e30 : smax(k) * yield_strain(k) * c.logreal(0.1, 3);
	describe(c, k);
	Model m(k); label_cfg(c, k, m.cell); if (fast) c.label("fast path");
	P s(sut_new(&k, 0));
	int nv = k.nvoi();
	double y = yield_strain(k); int ng = c.chance(1, 4) ? c.range(2, 3) : 1; auto ids = some_ids(c, ng); std::vector<Path> p(ng);
	int steps = m.cell.ndof <= 3 && c.chance(1, 25) ? c.range(6, 12) : c.range(1, 4); int compared = 0; bool flow = false;
	for (int q = 0; q < steps; q++) {
		bool commit = c.chance(1, 2);
		for (int w = 0; w < ng; w++) {
			if (q && w && c.chance(1, 2)) continue;
			if (o.plastic) p[w].next(c, nv, y, 4); else strain(c, nv, c.logreal(1e-6, 1e-2), p[w].e);
			if (w && c.chance(1, 5)) twin_strain(p[w], p[0]);
			c.note("step %d: gp %d strain %s%s\n", q, ids[w], vec(p[w].e, nv).c_str(), commit ? " commit" : "");
			s->set_strain(ids[w], p[w].e); m.set_strain(ids[w], p[w].e);
		}
		if (c.chance(1, 8)) { int id = ids[c.range(0, ng - 1)]; ref::Solution S; c.note("export and report\n"); s->output(q, id); s->info(); if (!m.export_solve(*m.find(id), S)) { c.exclude(m.why); break; } }
		s->homogenize(); if (!m.homogenize(true)) { c.exclude(m.why); break; }
		for (auto &g : m.gps)
		if (g.hasC) {
			double C[36]; s->ctan(g.id, C);
			bool pl = !g.shortcut && g.sol.flow;
			double tol = m.tol_tangent(g.C, !g.shortcut && m.cell.needs_state() && g.nl);
			c.count(nv * nv); compared++;
			for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++) if (!(std::fabs(C[i * nv + j] - g.C[i * nv + j]) <= tol))
				c.fail("tangent entry (%d,%d) is %.10g, the derivative is %.10g (tolerance %.3g, largest entry %.4g)", i, j, C[i * nv + j], g.C[i * nv + j], tol, vmax(g.C, nv * nv));
			if (pl) { flow = true; c.label("plastic tangent"); } else if (g.nl) c.label("elastic tangent after flow");
		} else c.exclude("a material point is within 1e-6 of its yield surface: no unique derivative");
		if (commit) { s->update(); m.update(); }
	}
	if (compared && m.cell.ndof && (flow || two_phase(m.cell))) c.nontrivial();
}
static pbt::Reg r03({"C03", c03, 4800, 40000, "random elastic, fast-path and J2-plastic cells and strain histories; every macro tangent entry compared with the derivative of the reference stress (static condensation of the consistent tangent). Non-trivial: interior nodes and (plastic flow or two phases)",
	{"states with a material point within 1e-6 (strain) of its yield surface have no unique derivative and are counted under excluded"}});

// ---------------------------------------------------------------------------------- C04
static void jacobi_eig(std::vector<double> A, int n, double *w)
{
	for (int sweep = 0; sweep < 60; sweep++) {
		double off = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) off += A[i * n + j] * A[i * n + j];
		if (off == 0) break;
		for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) if (A[p * n + q] != 0) {
			double th = (A[q * n + q] - A[p * n + p]) / (2 * A[p * n + q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), cs = 1 / std::sqrt(t * t + 1), sn = t * cs;
			for (int i = 0; i < n; i++) { double a = A[i * n + p], b = A[i * n + q]; A[i * n + p] = cs * a - sn * b; A[i * n + q] = sn * a + cs * b; }
			for (int i = 0; i < n; i++) { double a = A[p * n + i], b = A[q * n + i]; A[p * n + i] = cs * a - sn * b; A[q * n + i] = sn * a + cs * b; }
		}
	}
	for (int i = 0; i < n; i++) w[i] = A[i * n + i];
}
static double min_eig(const std::vector<double> &A, int n) { double w[6]; jacobi_eig(A, n, w); return *std::min_element(w, w + n); }
static std::vector<double> inverse(std::vector<double> A, int n)
{
	std::vector<double> I(n * n, 0.0); for (int i = 0; i < n; i++) I[i * n + i] = 1;
	for (int k = 0; k < n; k++) {
		int p = k; for (int i = k; i < n; i++) if (std::fabs(A[i * n + k]) > std::fabs(A[p * n + k])) p = i;
		for (int j = 0; j < n; j++) { std::swap(A[k * n + j], A[p * n + j]); std::swap(I[k * n + j], I[p * n + j]); }
		double d = A[k * n + k]; for (int j = 0; j < n; j++) { A[k * n + j] /= d; I[k * n + j] /= d; }
		for (int i = 0; i < n; i++) if (i != k) { double f = A[i * n + k]; for (int j = 0; j < n; j++) { A[i * n + j] -= f * A[k * n + j]; I[i * n + j] -= f * I[k * n + j]; } }
	}
	return I;
}
static void c04(Ctx &c)
{
	Opt o; o.Emin = 1e7; o.Emax = 1e9; o.contrast = 100; o.max_int3 = c.chance(1, 8) ? 150 : 27; o.max_int2 = 120;
	Config k = config(c, o);
	bool hom = c.chance(1, 5);
	if (hom) { k.mat[1].E = k.mat[0].E; k.mat[1].nu = k.mat[0].nu; }
	bool fast = c.chance(1, 3); if (fast) k.inv_tol = 1e30;
	if (k.dim == 3 && c.chance(1, 10)) { int m = c.range(0, 1); k.mat[m].type = 1; k.mat[m].Sy = 1e3 * k.mat[m].E; c.label("plastic material far from yield"); }
	describe(c, k);
	int nv = k.nvoi();
	ref::Cell cell(k); label_cfg(c, k, cell); if (hom) c.label("homogeneous"); if (fast) c.label("fast path");
	P s(sut_new(&k, 0));
	int evals = cell.ndof < 100 && c.chance(1, 4) ? c.range(2, 4) : 1; auto ids = some_ids(c, evals);
	for (int q = 0; q < evals; q++) {
	double e[6]; strain(c, nv, c.logreal(1e-6, 1e-2), e); int id = q && c.chance(1, 2) ? ids[0] : ids[q];
	c.note("gp %d strain %s\n", id, vec(e, nv).c_str());
	s->set_strain(id, e); s->homogenize();
	if (c.chance(1, 8)) { s->output(q, id); s->update(); s->info(); }
	std::vector<double> C(nv * nv); s->ctan(id, C.data());
	double sig[6]; s->stress(id, sig);
	double f1 = 0; for (int p : cell.ph) f1 += p; f1 /= cell.ph.size();
	std::vector<double> C0(nv * nv), C1(nv * nv), V(nv * nv), S(nv * nv);
	for (int m = 0; m < 2; m++) {
		double C3[6][6], C2[3][3]; ref::elastic_C3(ref::lame(k.mat[m]), C3); ref::elastic_C2(ref::lame(k.mat[m]), C2);
		for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++) (m ? C1 : C0)[i * nv + j] = nv == 6 ? C3[i][j] : C2[i][j];
	}
	auto S0 = inverse(C0, nv), S1 = inverse(C1, nv);
	for (int i = 0; i < nv * nv; i++) { V[i] = (1 - f1) * C0[i] + f1 * C1[i]; S[i] = (1 - f1) * S0[i] + f1 * S1[i]; }
	auto R = inverse(S, nv);
	double L = std::max(k.L[0], std::max(k.L[1], k.dim == 3 ? k.L[2] : 0));
	double tol = 2e-6 * vmax(V.data(), nv * nv) + 2.5e3 * std::sqrt((double) cell.ndof) * L / k.vol();
	c.count(nv * nv + 3);
	for (double x : C) if (!std::isfinite(x)) c.fail("the tangent holds %g", x);
	for (int i = 0; i < nv; i++) for (int j = 0; j < i; j++) if (!(std::fabs(C[i * nv + j] - C[j * nv + i]) <= 2 * tol)) c.fail("tangent is not symmetric: (%d,%d) %.10g (%d,%d) %.10g, tolerance %.3g", i, j, C[i * nv + j], j, i, C[j * nv + i], 2 * tol);
	std::vector<double> A(nv * nv), B(nv * nv), Cs(nv * nv);
	for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++) { double x = (C[i * nv + j] + C[j * nv + i]) / 2; Cs[i * nv + j] = x; A[i * nv + j] = V[i * nv + j] - x; B[i * nv + j] = x - R[i * nv + j]; }
	double ev = min_eig(A, nv), er = min_eig(B, nv), ec = min_eig(Cs, nv);
	if (!(ec > -tol * nv)) c.fail("effective stiffness is not positive definite: smallest eigenvalue %.6g", ec);
	if (!(ev >= -tol * nv)) c.fail("stiffer than the Voigt bound: smallest eigenvalue of (Voigt - C) is %.6g, tolerance %.3g", ev, tol * nv);
	if (!(er >= -tol * nv)) c.fail("softer than the Reuss bound: smallest eigenvalue of (C - Reuss) is %.6g, tolerance %.3g", er, tol * nv);
	for (int i = 0; i < nv; i++) { double x = 0; for (int j = 0; j < nv; j++) x += C[i * nv + j] * e[j]; if (!(std::fabs(x - sig[i]) <= tol * nv * vmax(e, nv) + 1e-9 * vmax(sig, nv) + 2e-5 * std::sqrt((double) cell.ndof) * L / k.vol())) c.fail("stress component %d is %.10g but tangent times strain is %.10g", i, sig[i], x); }
	if (hom || f1 == 0 || f1 == 1) { auto &I = f1 == 1 ? C1 : C0; for (int i = 0; i < nv * nv; i++) if (!(std::fabs(C[i] - I[i]) <= tol)) c.fail("homogeneous cell: tangent entry (%d,%d) is %.10g, the material's is %.10g, tolerance %.3g", i / nv, i % nv, C[i], I[i], tol); c.label("isotropic comparison"); }
	if (f1 > 0 && f1 < 1 && cell.ndof) c.nontrivial();
	}
}
static pbt::Reg r04({"C04", c04, 12000, 60000, "random elastic cells up to 150 interior nodes (solved and fast path); symmetry, positive definiteness, Voigt and Reuss ordering by eigenvalues, stress = tangent x strain, homogeneous limit. Non-trivial: both phases present and interior nodes",
	{"phase fractions follow the centre rule of C15"}});

// ---------------------------------------------------------------------------------- C05
static void c05(Ctx &c)
{
	Opt o; o.plastic = 1; o.Emin = 1e7; o.contrast = 100; o.max_int3 = c.thor() ? 18 : 8;
	if (c.chance(1, 3)) { o.plastic = 2; o.dim = 3; }
	if (c.chance(1, 40)) { o.plastic = 0; o.max_int3 = 100; o.max_int2 = 144; c.label("large grid"); }
	Config k = config(c, o);
	if (c.chance(1, 5)) k.inv_tol = 1e30;
	describe(c, k);
	int nv = k.nvoi(), D = k.dim;
	Model m(k); label_cfg(c, k, m.cell);
	P s(sut_new(&k, 0));
	double y = yield_strain(k); Path p[2];
	int steps = m.cell.ndof <= 3 && c.chance(1, 20) ? c.range(6, 14) : c.range(1, 4), exports = 0; bool plast = false; auto ids = some_ids(c, 2);
	for (int q = 0; q < steps; q++) {
		int w = c.chance(1, 4) ? 1 : 0;
		if (m.cell.needs_state()) p[w].next(c, nv, y, 4); else strain(c, nv, c.logreal(1e-5, 1e-2), p[w].e);
		int act = c.range(0, 5); // 0: export only; 1-3: evaluate, commit, export; 4: evaluate, export; 5: evaluate, commit, new strain, export
		int id = ids[w];
		c.note("step %d: gp %d strain %s action %d\n", q, id, vec(p[w].e, nv).c_str(), act);
		s->set_strain(id, p[w].e); m.set_strain(id, p[w].e);
		if (act > 0) { s->homogenize(); if (!m.homogenize(false)) { c.exclude(m.why); return; } }
		if (act != 0 && act != 4) { s->update(); m.update(); }
		if (act == 5) { if (m.cell.needs_state()) p[w].next(c, nv, y, 3); s->set_strain(id, p[w].e); m.set_strain(id, p[w].e); c.note("  then strain %s\n", vec(p[w].e, nv).c_str()); }
		auto &g = *m.find(id);
		ref::Solution S; if (!m.export_solve(g, S)) { c.exclude(m.why); return; }
		int st = any_step(c); if (c.chance(1, 6)) { s->info(); c.note("  report\n"); }
		s->output(st, id);
		std::string t, fn = "micropp_" + std::to_string(id) + "_" + std::to_string(st) + ".vtu";
		if (!files::slurp(fn, t)) c.fail("no file %s", fn.c_str());
		files::Vtu V = files::parse_vtu(t);
		if (!V.err.empty()) c.fail("%s: %s", fn.c_str(), V.err.c_str());
		auto need = [&](const char *nm, size_t n) -> std::vector<double> & { if (V.a[nm].v.size() != n) c.fail("%s: array %s has %zu values, expected %zu", fn.c_str(), nm, V.a[nm].v.size(), n); return V.a[nm].v; };
		size_t NE = k.elems(), NN = k.nodes();
		auto &du = need("displ", NN * 3), &b = need("b", NN * 3), &es = need("strain", NE * nv), &ss = need("stress", NE * nv), &pl = need("plasticity", NE), &ha = need("hardening", NE);
		bool soft = m.cell.needs_state() && (S.flow || g.nl);
		double Em = std::min(k.mat[0].E, k.mat[1].E), Lm = std::max(k.L[0], std::max(k.L[1], D == 3 ? k.L[2] : 0)), hm = std::min(k.h(0), std::min(k.h(1), D == 3 ? k.h(2) : 1e9));
		double umax = vmax(S.u.data(), (int) S.u.size());
		// at a committed plastic state every flowing point sits on the kink of its law; Newton may stall
		// there at the level of the tangent's strain step (1e-8), which is still equilibrium to ~1e-5
		double bt = soft ? std::max(1.001e-5, 1e-8 * m.Emax() * Lm * Lm) : 1.001e-5;
		double ut = 6e-6 * umax + (m.cell.ndof ? (soft ? 1e-4 * umax : 0) + 1e-5 / (Em * hm) * 20 : 0) + 1e-30;
		double et = 6e-6 * vmax(S.ee.data(), (int) S.ee.size()) + (m.cell.ndof ? 2 * (ut - 6e-6 * umax) / hm + 1e-10 * umax / hm : 1e-12 * umax / hm) + 1e-30;
		double stt = 6e-6 * vmax(S.es.data(), (int) S.es.size()) + m.Emax() * 4 * (et - 6e-6 * vmax(S.ee.data(), (int) S.ee.size())) + 1e-30;
		c.count(NN * 6 + NE * (2 * nv + 2));
		for (int kk = 0; kk < (D == 3 ? k.n[2] : 1); kk++) for (int j = 0; j < k.n[1]; j++) for (int i = 0; i < k.n[0]; i++) {
			int n = k.node(i, j, kk); bool bd = k.boundary(i, j, kk);
			double x[3] = {i * k.h(0), j * k.h(1), D == 3 ? kk * k.h(2) : 0}, ua[3] = {0, 0, 0}; ref::Cell::affine(D, g.E, x, ua);
			double bb = 0;
			for (int d = 0; d < 3; d++) {
				double want = d < D ? S.u[(size_t) n * D + d] : 0, got = du[n * 3 + d];
				if (d < D && bd && !(std::fabs(got - ua[d]) <= 6e-6 * std::fabs(ua[d]) + 1e-14 * umax)) c.fail("%s: boundary node (%d,%d,%d) component %d is displaced %.8g, the affine displacement is %.8g", fn.c_str(), i, j, kk, d, got, ua[d]);
				if (!(std::fabs(got - want) <= ut)) c.fail("%s: node (%d,%d,%d) component %d is displaced %.8g, the equilibrium solution has %.8g (tolerance %.3g)", fn.c_str(), i, j, kk, d, got, want, ut);
				if (!std::isfinite(b[n * 3 + d]) || (bd && b[n * 3 + d] != 0)) c.fail("%s: residual of boundary node (%d,%d,%d) is %g", fn.c_str(), i, j, kk, b[n * 3 + d]);
				bb += b[n * 3 + d] * b[n * 3 + d];
			}
			if (!(std::sqrt(bb) <= bt)) c.fail("%s: the exported residual at node (%d,%d,%d) is %g, not in equilibrium", fn.c_str(), i, j, kk, std::sqrt(bb));
		}
		double ae[6] = {0}, as[6] = {0};
		for (size_t e = 0; e < NE; e++) {
			for (int v = 0; v < nv; v++) {
				ae[v] += es[e * nv + v] / NE; as[v] += ss[e * nv + v] / NE;
				if (!(std::fabs(es[e * nv + v] - S.ee[e * nv + v]) <= et)) c.fail("%s: element %zu strain component %d is %.8g, expected %.8g (tolerance %.3g)", fn.c_str(), e, v, es[e * nv + v], S.ee[e * nv + v], et);
				if (!(std::fabs(ss[e * nv + v] - S.es[e * nv + v]) <= stt)) c.fail("%s: element %zu stress component %d is %.8g, expected %.8g (tolerance %.3g)", fn.c_str(), e, v, ss[e * nv + v], S.es[e * nv + v], stt);
			}
			double pn = 0, al = 0;
			if (!g.n.empty()) for (int q2 = 0; q2 < m.cell.ng; q2++) { const double *z = g.n[e * m.cell.ng + q2].ep; pn += std::sqrt(z[0]*z[0] + z[1]*z[1] + z[2]*z[2] + 2 * (z[3]*z[3] + z[4]*z[4] + z[5]*z[5])) / 8; al += g.n[e * m.cell.ng + q2].alpha / 8; }
			double pt = 1e-5 * (pn + al) + (m.cell.ndof ? 4 * (et - 6e-6 * vmax(S.ee.data(), (int) S.ee.size())) : 1e-13);
			if (!(std::fabs(pl[e] - pn) <= pt)) c.fail("%s: element %zu plasticity is %.8g, the average norm of the committed plastic strain is %.8g", fn.c_str(), e, pl[e], pn);
			if (!(std::fabs(ha[e] - al) <= pt)) c.fail("%s: element %zu hardening is %.8g, the average of the committed variable is %.8g", fn.c_str(), e, ha[e], al);
			if (pn > 1e-5) plast = true;
		}
		double emax = vmax(es.data(), (int) es.size()), smax = vmax(ss.data(), (int) ss.size());
		for (int v = 0; v < nv; v++) {
			if (!(std::fabs(ae[v] - g.E[v]) <= 1e-5 * emax + 1e-30)) c.fail("%s: average strain component %d is %.8g, the macro strain is %.8g", fn.c_str(), v, ae[v], g.E[v]);
			if (!(std::fabs(as[v] - S.sig[v]) <= 1e-5 * smax + m.tol_stress(S.sig, g.E))) c.fail("%s: average stress component %d is %.8g, the stress from the committed state is %.8g", fn.c_str(), v, as[v], S.sig[v]);
		}
		double le[6], ls[6]; // the averages the class computes itself, of the state just exported
		if (s->ave_strain(le)) for (int v = 0; v < nv; v++) { c.count(1); if (!(std::fabs(le[v] - g.E[v]) <= 1e-9 * emax + 1e-30)) c.fail("calc_ave_strain: component %d is %.12g, the macro strain is %.12g", v, le[v], g.E[v]); }
		if (s->ave_stress(ls)) for (int v = 0; v < nv; v++) { c.count(1); if (!(std::fabs(ls[v] - S.sig[v]) <= 1e-9 * smax + m.tol_stress(S.sig, g.E))) c.fail("calc_ave_stress: component %d is %.12g, expected %.12g", v, ls[v], S.sig[v]); }
		if (act == 4 && !g.shortcut) { double sig[6]; s->stress(id, sig); for (int v = 0; v < nv; v++) if (!(std::fabs(as[v] - sig[v]) <= 1e-5 * smax + m.tol_stress(S.sig, g.E))) c.fail("%s: average stress component %d is %.8g, the macro stress is %.8g", fn.c_str(), v, as[v], sig[v]); c.label("export right after evaluation"); }
		exports++;
	}
	if (plast) c.label("committed plastic strain exported");
	if (exports && m.cell.ndof && two_phase(m.cell)) c.nontrivial();
}
static pbt::Reg r05({"C05", c05, 3200, 30000, "random cells and histories of 1-4 (rarely 6-14) steps with exports at various points; every exported array is parsed and compared with the reference fields (displacement, element strain and stress, plasticity, hardening), the boundary with the affine displacement, averages with macro strain and stress, the residual with zero. Non-trivial: interior nodes and both phases",
	{"printed precision is 6 digits", "histories are followed while undamped Newton converges within 8 steps in the reference"}});
