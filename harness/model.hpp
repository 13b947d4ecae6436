// Model of the Gauss-point protocol on top of the reference cell.
#pragma once
#include "gen.hpp"

struct Tol {
	double stress, tangent;
};

inline double vmax(const double *a, int n) { double m = 0; for (int i = 0; i < n; i++) m = std::max(m, std::fabs(a[i])); return m; }

struct Model {
	struct Gp {
		int id; double E[6]; bool evaluated = false, nl = false, shortcut = false, hasC = false;
		double sig[6] = {0}, C[36] = {0}, inv = 0;
		ref::State n, k;
		ref::Solution sol;
	};
	ref::Cell cell; int nv;
	std::vector<Gp> gps;
	double Clin[36];
	ref::Vec warm;
	const char *why = "";
	int maxit = 8;
	double undecided = 1e-7;     // distance (strain) to yield below which no claim is made about first flow

	explicit Model(const ref::Config &c) : cell(c), nv(c.nvoi())
	{
		double z[6] = {0, 0, 0, 0, 0, 0};
		ref::Solution s = cell.solve(z, cell.zero_state());
		cell.tangent_exact(s, cell.zero_state(), Clin);
		warm = s.u;
	}
	Gp *find(int id) { for (auto &g : gps) if (g.id == id) return &g; return nullptr; }
	void set_strain(int id, const double *e)
	{
		Gp *g = find(id);
		if (!g) { gps.emplace_back(); g = &gps.back(); g->id = id; g->n = g->k = cell.zero_state(); }
		for (int i = 0; i < nv; i++) g->E[i] = e[i];
	}
	void lin(const double *e, double *s) const { for (int i = 0; i < nv; i++) { s[i] = 0; for (int j = 0; j < nv; j++) s[i] += Clin[i * nv + j] * e[j]; } }
	double inv1(const double *e) const { double s[6]; lin(e, s); return s[0] + s[1] + (nv == 6 ? s[2] : 0); }

	// Solve from state n at strain e. false: undamped Newton from the warm start is not known to
	// converge quickly, so no claim is made (why).
	bool solve(const double *e, const ref::State &n, ref::Solution &S)
	{
		if (!cell.needs_state()) { S = cell.solve(e, n); warm = S.u; if (!S.converged) { why = "reference did not converge"; return false; } return true; }
		ref::Vec u1, u2;
		int a = cell.newton_from(warm, e, n, maxit, false, u1), b = cell.newton_from(warm, e, n, maxit, true, u2);
		if (a < 0 || b < 0) { why = "undamped Newton slow or divergent"; return false; }
		if (a > 0) { // a start on the kink of the material law: the first Newton step is decided by rounding
			ref::Vec u0, f; ref::Solution S0; cell.newton_from(warm, e, n, 0, false, u0, 1e300);
			cell.assemble(u0, n, f, nullptr, &S0);
			if (S0.min_abs_f < 1e-6) { why = "Newton starts on the yield surface"; return false; }
		}
		S = cell.solve(e, n, 1e-12, &u1);
		if (!S.converged) { why = "reference did not converge"; return false; }
		S.its = a;
		warm = S.u;
		return true;
	}
	// false: stop the case (no claim beyond this point)
	bool homogenize(bool tangents = true)
	{
		for (auto &g : gps) {
			g.inv = inv1(g.E);
			double tol = cell.c.inv_tol;
			if (!g.nl && tol > 0 && std::fabs(std::fabs(g.inv) - tol) < inv_err(g.E)) { why = "invariant too close to the threshold"; return false; }
			g.evaluated = true; g.hasC = false;
			if (!g.nl && std::fabs(g.inv) < tol) {
				g.shortcut = true; lin(g.E, g.sig);
				for (int i = 0; i < nv * nv; i++) g.C[i] = Clin[i];
				g.hasC = true;
				continue;
			}
			g.shortcut = false;
			if (!solve(g.E, g.n, g.sol)) return false;
			if (!g.nl && std::fabs(g.sol.max_f) < undecided) { why = "yield undecided"; return false; }
			for (int i = 0; i < nv; i++) g.sig[i] = g.sol.sig[i];
			if (g.sol.flow) g.nl = true;
			if (g.nl) g.k = g.sol.st;
			if (tangents && g.sol.min_abs_f > 1e-6) g.hasC = cell.tangent_exact(g.sol, g.n, g.C);
		}
		return true;
	}
	void update() { for (auto &g : gps) if (g.nl) g.n = g.k; }
	// what an export of this Gauss point computes (and leaves as warm start)
	bool export_solve(Gp &g, ref::Solution &S) { return solve(g.E, g.n, S); }

	// ---- tolerances ----
	double Emax() const { double r = 0; for (auto &m : cell.c.mat) r = std::max(r, m.E * std::max(1.0, std::max(0.1 / (1 - 2 * m.nu), 0.6 / (1 + m.nu)))); return r; }
	double resid() const { const ref::Config &c = cell.c; double L = std::max(c.L[0], std::max(c.L[1], c.dim == 3 ? c.L[2] : 0)); return 1e-5 * std::sqrt((double) cell.ndof) * L / c.vol(); }
	double tol_stress(const double *sig, const double *e) const
	{
		double t = 1e-6 * vmax(sig, nv) + 1e-9 * Emax() * vmax(e, nv) + 2 * resid();
		if (cell.needs_state()) t += 1e-5 * vmax(sig, nv) + 10 * resid();
		return t;
	}
	double tol_tangent(const double *C, bool plastic) const
	{
		double m = vmax(C, nv * nv);
		double t = 2e-6 * m + 2.5 * resid() / 1e-8;
		if (plastic) t += 5e-3 * Emax();
		return t;
	}
	double inv_err(const double *e) const { return 4 * (2e-6 * vmax(Clin, nv * nv) + 2.5 * resid() / 1e-8) * vmax(e, nv) + 1e-300; }
};
