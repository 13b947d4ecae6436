// C22: what the convergence report says about the Newton solves, against the reference.
#include "common.hpp"
#include <unistd.h>

struct Rep { std::vector<double> its, err; };
// last line of the convergence report: per Gauss point flag, invariant, (iterations residual) x (1 + nv)
static std::vector<Rep> last_report(Ctx &c, int nv, size_t ngp)
{
	std::string t; if (!files::slurp("micropp_convergence.dat", t)) c.fail("no convergence report");
	files::Report R = files::parse_report(t); if (R.lines.empty() || R.lines.back().size() != ngp) c.fail("the convergence report has no line for %zu Gauss points", ngp);
	std::vector<Rep> out;
	for (auto &g : R.lines.back()) {
		Rep r; bool ok = true; std::vector<double> v; for (auto &x : g) v.push_back(files::num(x, ok));
		if (!ok || (int) v.size() != 2 + 2 * (1 + nv)) c.fail("the convergence report has a group of %zu values", v.size());
		for (int j = 0; j <= nv; j++) { r.its.push_back(v[2 + 2 * j]); r.err.push_back(v[3 + 2 * j]); }
		out.push_back(r);
	}
	return out;
}
// interior residual of the displacement `warm` moved to the boundary values of E
static double start_residual(const ref::Cell &cell, const ref::Vec &warm, const double *E, const ref::State &n)
{
	ref::Vec u, f; if (!cell.ndof) return 0;
	cell.newton_from(warm, E, n, 0, false, u, 1e300);
	cell.assemble(u, n, f, nullptr, nullptr);
	double r = 0; for (size_t q = 0; q < f.size(); q++) if (cell.dof[q] >= 0) r += f[q] * f[q];
	return std::sqrt(r);
}
static const double TOL = 1e-5;
// does Newton of the reference stay quick when its start is moved a little? (the library's linear
// solves are inexact; near the kinks of the material laws that can change the branch taken)
static bool robust(const ref::Cell &cell, const ref::Vec &warm, const double *E, const ref::State &n)
{
	double s = 0; for (double v : warm) s = std::max(s, std::fabs(v));
	unsigned long long x = 88172645463325252ull; ref::Vec u;
	for (int t = 0; t < 8; t++) {
		ref::Vec w = warm; double d = s * std::pow(10.0, -9 + t / 2);
		for (double &v : w) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; v += d * ((double) (x >> 11) / 4503599627370496.0 - 1); }
		int a = cell.newton_from(w, E, n, 10, t & 1, u); if (a < 0) return false;
	}
	return true;
}

static void c22(Ctx &c)
{
	bool elastic = c.chance(1, 3);
	Opt o; o.plastic = elastic ? 0 : 2; if (!elastic) o.dim = 3; o.Emin = 1e6; o.Emax = 1e8; o.contrast = 100; o.max_int3 = 8; o.max_int2 = 25;
	if (elastic && c.chance(1, 10)) { o.max_int3 = 125; o.max_int2 = 196; c.label("large grid"); }
	Config k = config(c, o); int nv = k.nvoi(); double y = yield_strain(k);
	if (c.chance(1, 4)) k.inv_tol = smax(k) * (elastic ? 1e-3 : y) * c.logreal(0.1, 3);
	describe(c, k); Model m(k); label_cfg(c, k, m.cell); c.label(elastic ? "elastic cell" : "plastic cell");
	P s(sut_new(&k, c.chance(1, 8) ? 1 : 0));
	int ng = c.range(1, 2), ids[2] = {4, -11}, steps = c.range(1, 5); Path p[2]; bool hard = false, flow = false, known_warm = false; int judged = 0;
	// the tangent of the construction leaves the solution of its last unit strain as start
	LinSim sim(m.cell);
	double last[6] = {0, 0, 0, 0, 0, 0}; last[nv - 1] = 1e-8; ref::Solution W = m.cell.solve(last, m.cell.zero_state()); ref::Vec warm = W.u; known_warm = W.converged;
	for (int q = 0; q < steps; q++) {
		for (int g = 0; g < ng; g++) {
			if (q && c.chance(1, 3)) continue;
			if (elastic && g == 0 && c.chance(1, 4)) { double d[6]; strain(c, nv, 1e-3, d); sim.near(d, c.logreal(1e-6, 1e-4), p[g].e); } else if (elastic) strain(c, nv, c.logreal(1e-6, 1e-2), p[g].e); else p[g].next(c, nv, y, c.chance(1, 4) ? 20 : 4);
			s->set_strain(ids[g], p[g].e); m.set_strain(ids[g], p[g].e);
			c.note("step %d: gp %d strain %s\n", q, ids[g], vec(p[g].e, nv).c_str());
		}
		s->homogenize(); s->info();
		auto R = last_report(c, nv, m.gps.size());
		for (size_t i = 0; i < m.gps.size(); i++) {
			auto &g = m.gps[i]; Rep &r = R[i];
			double inv = m.inv1(g.E); bool lib_nl = s->nl(g.id) == 1;
			for (int j = 0; j <= nv; j++) {
				c.count(3);
				if (r.its[j] != std::floor(r.its[j]) || r.its[j] < 0 || r.its[j] > 40) c.fail("gp %d: solve %d reports %g iterations", g.id, j, r.its[j]);
				if (!(r.err[j] >= 0) || !std::isfinite(r.err[j])) c.fail("gp %d: solve %d reports residual %g", g.id, j, r.err[j]);
				if (r.err[j] > TOL && r.its[j] < 40) c.fail("gp %d: solve %d stopped after %g iterations with residual %g", g.id, j, r.its[j], r.err[j]);
				if (!m.cell.ndof && (r.its[j] != 0 || r.err[j] != 0)) c.fail("gp %d: a cell without unknowns reports %g iterations, residual %g", g.id, r.its[j], r.err[j]);
			}
			if (k.inv_tol > 0 && !g.nl && std::fabs(std::fabs(inv) - k.inv_tol) < m.inv_err(g.E)) { c.exclude("invariant too close to the threshold"); return; }
			if (!g.nl && std::fabs(inv) < k.inv_tol) {
				for (int j = 0; j <= nv; j++) if (r.its[j] != 0 || r.err[j] != 0) c.fail("gp %d: answered by the linear shortcut, but solve %d reports %g iterations, residual %g", g.id, j, r.its[j], r.err[j]);
				c.label("shortcut"); continue;
			}
			if (elastic) { // one exact Newton step each; none if the start is already in equilibrium
				auto O = sim.evaluate(g.E);
				for (int j = 0; j <= nv; j++) { check_solve(c, g.id, j, O[j], r.its[j], r.err[j]); if (O[j].its >= 0) judged++; if (O[j].R0 > 2e-4) hard = true; if (O[j].its == 0 && O[j].R0 > 1e-7) c.label("start just below the tolerance"); }
				continue;
			}
			// plastic cells: a reported convergence means the equilibrium stress
			ref::Solution S = m.cell.solve(g.E, g.n);
			double sig[6]; s->stress(g.id, sig);
			double peak = r.err[0];
			if (S.converged && peak < TOL && m.cell.ndof) {
				double tol = m.tol_stress(S.sig, g.E) * 4 + 1e-4 * vmax(S.sig, nv); judged++;
				for (int v = 0; v < nv; v++) if (!(std::fabs(sig[v] - S.sig[v]) <= tol)) c.fail("gp %d: the report says converged (%g iterations, residual %g), but stress %d is %.8g and the equilibrium stress %.8g", g.id, r.its[0], r.err[0], v, sig[v], S.sig[v]);
			}
			m.warm = warm; ref::Solution T; bool quick = known_warm && S.converged && m.solve(g.E, g.n, T);
			if (quick && m.cell.ndof) {
				double stall = std::max(TOL, 1e-8 * m.Emax() * std::pow(std::max(k.L[0], std::max(k.L[1], k.L[2])), 2)); judged++; c.label("quick Newton in the reference");
				if ((r.err[0] > stall || (r.err[0] < TOL && r.its[0] > 2 * T.its + 12)) && !robust(m.cell, warm, g.E, g.n)) { c.exclude("Newton of the reference is not robust"); goto end; }
				if (r.err[0] > stall) c.fail("gp %d: exact Newton converges in %d steps, the library reports %g iterations and residual %g", g.id, T.its, r.its[0], r.err[0]);
				double R0 = start_residual(m.cell, warm, g.E, g.n);
				if (R0 > 1e-2 && R0 > 1e-6 * m.Emax() * vmax(g.E, nv)) { hard = true; if (r.its[0] < 1) c.fail("gp %d: the evaluation starts with residual %g but reports %g iterations", g.id, R0, r.its[0]); }
				if (r.err[0] < TOL && r.its[0] > 2 * T.its + 12) c.fail("gp %d: exact Newton converges in %d steps, the library took %g", g.id, T.its, r.its[0]);
				if (T.flow) flow = true;
			} else if (m.cell.ndof) { c.exclude(known_warm && S.converged ? m.why : "reference did not converge"); if (r.err[0] > TOL) c.label("library did not converge"); }
			if (!S.converged || (peak >= TOL && m.cell.ndof) || std::fabs(S.max_f) < 1e-7) { c.label("stopped early"); goto end; }
			if (S.flow) g.nl = true;
			if (g.nl) g.k = S.st;
			if (lib_nl != g.nl) { c.label("stopped early"); goto end; } // C10's business
			// the start of the next solve is the last perturbed solution
			double el[6]; for (int v = 0; v < nv; v++) el[v] = g.E[v] + (v == nv - 1 ? 1e-8 : 0);
			ref::Solution S2 = m.cell.solve(el, g.n, 1e-12, &S.u); warm = S2.u; known_warm = S2.converged;
		}
		if (c.chance(2, 3)) { s->update(); m.update(); c.note("update\n"); }
	}
end:
	if (flow) c.label("plastic flow judged");
	if (hard && judged) c.nontrivial();
}
static pbt::Reg r22({"C22", c22, 2200, 40000, "random elastic (1/3) and J2 cells, 1-2 Gauss points, histories of up to 5 evaluations with strains up to 20 yield strains; the convergence report is parsed after every evaluation. Checked: counts are integers within 0..40, a residual above 1e-5 only at the limit, zeros for shortcut answers and cells without unknowns; elastic cells: converged, at most 2 iterations, none exactly when the start (known from the previous solve) is in equilibrium; J2 cells: reported convergence implies the stress of the independently solved equilibrium, and where undamped Newton of the reference converges within 8 steps the library converges too in about as many. Non-trivial: a solve whose start residual is clearly above the tolerance was judged",
	{"at a committed plastic state every flowing point sits on the kink of its law; there Newton may stall at 1e-8*E*L^2, accepted as converged", "moduli 1e6..1e8: the absolute tolerance 1e-5 is small"}});

// ---------------------------------------------------------------- known findings
// Undamped Newton of the library cycles between two branches of the law for 40 iterations and the
// evaluation ends with a residual nine decades above the tolerance; the stress is returned anyway.
static void k22(Ctx &c)
{
	Config k; k.dim = 3; k.n[0] = k.n[1] = k.n[2] = 4; k.L[0] = k.L[1] = k.L[2] = 1; k.micro_type = 0; k.width = 0.1; k.inv_tol = 0;
	k.mat[0].type = 0; k.mat[0].E = 1e7; k.mat[0].nu = 0.3; k.mat[0].Sy = 1e4; k.mat[0].Ka = 0;
	k.mat[1].type = 1; k.mat[1].E = 124803205.04788466; k.mat[1].nu = -0.38258457183837891; k.mat[1].Sy = 62401.602523942332; k.mat[1].Ka = 17408898.517561816;
	double a = 0.00011679635036322476, b = -0.00042757937435312704;
	double e[3][6] = {{a, -0.00025271473592553429, b, b, b, 0.00038319752782546064}, {a, -0.0022955249325229739, b, b, b, 0.0014509263459639384}, {0, 0, 0, 0, 0, 1.5e-4}};
	P s(sut_new(&k, 0));
	for (int q = 0; q < 3; q++) { s->set_strain(1, e[q]); s->homogenize(); if (q < 2) s->update(); }
	s->info(); auto R = last_report(c, 6, 1);
	if (R[0].its[0] >= 40 && R[0].err[0] > 1e-5) c.fail("40 iterations, residual %g", R[0].err[0]);
}
static pbt::RegK kf22({"C22", "n=4x4x4 sphere 0.1, stiff plastic sphere (nu=-0.38), third committed strain (0,0,0,0,0,1.5e-4) after two plastic steps: Newton does not converge within 40 iterations and the unconverged stress is returned", k22});
