// Shared by the property files.
#pragma once
#include "model.hpp"
#include "sut.hpp"
#include "files.hpp"
#include <algorithm>
#include <memory>
using pbt::Ctx;
using namespace gen;

typedef std::unique_ptr<Sut> P;

inline void fail_vec(Ctx &c, const char *what, const double *got, const double *want, int n, double tol)
{
	int w = 0; for (int i = 0; i < n; i++) if (!(std::fabs(got[i] - want[i]) <= std::fabs(got[w] - want[w]))) w = i;
	c.fail("%s: component %d is %.12g, expected %.12g (tolerance %.3g); all: got %s expected %s", what, w, got[w], want[w], tol, vec(got, std::min(n, 6)).c_str(), vec(want, std::min(n, 6)).c_str());
}
inline void cmp(Ctx &c, const char *what, const double *got, const double *want, int n, double tol)
{
	c.count(n);
	for (int i = 0; i < n; i++) if (!(std::fabs(got[i] - want[i]) <= tol)) fail_vec(c, what, got, want, n, tol);
}
inline bool two_phase(const ref::Cell &c) { bool a = false, b = false; for (int p : c.ph) (p ? a : b) = true; return a && b; }

inline void label_cfg(Ctx &c, const ref::Config &k, const ref::Cell &cell)
{
	c.label(k.dim == 2 ? "2D" : "3D");
	c.label(cell.ndof ? "interior nodes" : "no interior nodes");
	c.label(two_phase(cell) ? "two phases" : "one phase");
	if (k.n[0] != k.n[1] || (k.dim == 3 && k.n[1] != k.n[2])) c.label("unequal grid");
	if (k.L[0] != k.L[1] || (k.dim == 3 && k.L[1] != k.L[2])) c.label("unequal lengths");
	c.label(k.micro_type ? "layer" : "sphere");
}

struct Path { // random strain path
	double e[6] = {0, 0, 0, 0, 0, 0}, peak[6] = {0, 0, 0, 0, 0, 0};
	void next(Ctx &c, int nv, double y, double big, bool tiny = false)
	{
		if (tiny && c.chance(1, 8)) { double d[6]; strain(c, nv, y * c.logreal(1e-8, 1e-2), d); for (int i = 0; i < nv; i++) e[i] += d[i]; return; } // a very small step
		int kind = c.range(0, 6);
		if (kind == 0) { double d[6]; strain(c, nv, y * c.logreal(0.3, big), d); for (int i = 0; i < nv; i++) e[i] += d[i]; }
		else if (kind == 1) { double f = c.real(-1.0, 0.8); for (int i = 0; i < nv; i++) e[i] *= f; }         // unload / reverse
		else if (kind == 2) { double f = c.real(1.0, 1.6); for (int i = 0; i < nv; i++) e[i] *= f; }          // load on
		else if (kind == 3) { strain(c, nv, y * c.logreal(0.3, big), e); }                                     // anything
		else if (kind == 4) { for (int i = 0; i < nv; i++) e[i] = peak[i]; }                                   // back to an old strain
		else if (kind == 5) { double d[6]; strain(c, nv, y * c.logreal(0.01, 0.3), d); for (int i = 0; i < nv; i++) e[i] += d[i]; }
		else { for (int i = 0; i < nv; i++) peak[i] = e[i]; double d[6]; strain(c, nv, y * c.logreal(0.3, big), d); for (int i = 0; i < nv; i++) e[i] += d[i]; }
	}
};


inline void twin_strain(Path &a, const Path &b) { for (int i = 0; i < 6; i++) a.e[i] = b.e[i]; } // the strain another Gauss point has

// ---- operation histories ----
enum OpKind { SET, HOM, UPD, OUT, INFO, QRY };
struct Op { OpKind kind; int gp; double e[6]; int step; bool noise; };
typedef std::vector<Op> History;
inline Op op(OpKind k, bool noise = false, int gp = 0, int step = 0) { Op o; o.kind = k; o.gp = gp; o.step = step; o.noise = noise; for (double &x : o.e) x = 0; return o; }
inline Op set_op(int gp, const double *e, int nv, bool noise = false) { Op o = op(SET, noise, gp); for (int i = 0; i < nv; i++) o.e[i] = e[i]; return o; }
inline void describe(Ctx &c, const History &h, int nv)
{
	static const char *nm[] = {"set", "homogenize", "update", "output", "info", "query"};
	for (auto &o : h) { c.note("  %s%s", o.noise ? "[extra] " : "", nm[o.kind]); if (o.kind == SET) c.note(" gp=%d %s", o.gp, vec(o.e, nv).c_str()); if (o.kind == OUT || o.kind == QRY) c.note(" gp=%d", o.gp); if (o.kind == OUT) c.note(" step=%d", o.step); c.note("\n"); }
}
// Runs a history; after every non-noise homogenize (every: after every non-noise operation) the answers of all `ids` are appended.
struct Answers { std::vector<double> stress, ctan; std::vector<int> flag; };
inline Answers run_history(Sut &s, const History &h, const std::vector<int> &ids, int nv, bool with_noise, bool every = false)
{
	Answers A;
	auto ask = [&] { for (int id : ids) {
		double x[6], C[36]; for (double &v : x) v = -3e33; for (double &v : C) v = -4e44;
		s.stress(id, x); s.ctan(id, C); A.stress.insert(A.stress.end(), x, x + nv); A.ctan.insert(A.ctan.end(), C, C + nv * nv); A.flag.push_back(s.nl(id));
	} };
	for (auto &o : h) {
		if (o.noise && !with_noise) continue;
		switch (o.kind) {
		case SET: s.set_strain(o.gp, o.e); break;
		case HOM: s.homogenize(); break;
		case UPD: s.update(); break;
		case OUT: s.output(o.step, o.gp); break;
		case INFO: s.info(); break;
		case QRY: { double x[6], C[36]; for (double &v : x) v = 1; for (double &v : C) v = 2; s.stress(o.gp, x); s.ctan(o.gp, C); s.nl(o.gp); } break;
		}
		if (!o.noise && (every || o.kind == HOM)) ask();
	}
	return A;
}

inline std::vector<int> some_ids(Ctx &c, int n)
{
	std::vector<int> v; int twin = c.chance(1, 4) ? c.pick<int>({256, 65536, 1024, 1000, 10, 32, 1 << 30}) : 0; // ids that agree in their low digits
	while ((int) v.size() < n) { int x = twin && !v.empty() && c.chance(1, 2) ? (int) ((unsigned) v[c.below(v.size())] + (unsigned) twin) : gp_id(c); while (std::find(v.begin(), v.end(), x) != v.end()) x = x == 2147483647 ? 0 : x + 1; v.push_back(x); }
	return v;
}
inline double smax(const Config &k) { return std::max(ref::stiff(k.mat[0]), ref::stiff(k.mat[1])); }
inline int any_step(Ctx &c) { return c.chance(3, 4) ? c.range(0, 12) : c.pick<int>({1000, 999999, 1000000, 12345678, 2147483647, -1, -5, -2147483647 - 1}); }
// now and then: reports, queries, exports, of known and unknown ids
inline void noise(Ctx &c, History &h, const std::vector<int> &ids, bool commits)
{
	if (!c.chance(1, 4)) return;
	int n = c.range(1, 2);
	for (int i = 0; i < n; i++) {
		int id = c.chance(1, 6) ? 12345 : ids[c.below(ids.size())];
		switch (c.range(0, commits ? 3 : 2)) {
		case 0: h.push_back(op(INFO)); break;
		case 1: h.push_back(op(QRY, false, id)); break;
		case 2: h.push_back(op(OUT, false, id, any_step(c))); break;
		default: h.push_back(op(UPD));
		}
	}
}

// Stateful comparison of a history with the model, on any cell. Returns false if it stopped early.
struct Follow { int evals = 0, flows = 0, shortcuts = 0, commits = 0, compared = 0, tangents = 0; int elastic_after = 0; bool stopped = false; };
inline Follow follow(Ctx &c, Sut &s, Model &m, const History &h, bool tangents, bool flags)
{
	Follow F; int nv = m.nv;
	struct Ans { double s[6], C[36]; long f; }; std::vector<Ans> last; // answers of the last evaluation, which stay until the next one
	auto ask = [&](int id) { Ans a; memset(&a, 0, sizeof a); s.stress(id, a.s); s.ctan(id, a.C); a.f = s.nl(id); return a; };
	for (auto &o : h) {
		static const char *nm[] = {"setting a strain", "", "a commit", "an export", "a report", "a query"};
		switch (o.kind) {
		case SET: s.set_strain(o.gp, o.e); m.set_strain(o.gp, o.e); break;
		case HOM:
			s.homogenize(); if (!m.homogenize(tangents)) { c.exclude(m.why); F.stopped = true; return F; }
			F.evals++;
			for (auto &g : m.gps) {
				double x[6], C[36]; s.stress(g.id, x);
				double tol = m.tol_stress(g.sig, g.E); if (g.shortcut) tol += m.inv_err(g.E);
				char w[80]; snprintf(w, 80, "stress of gp %d after evaluation %d", g.id, F.evals);
				cmp(c, w, x, g.sig, nv, tol); F.compared++;
				if (tangents && g.hasC) { s.ctan(g.id, C); snprintf(w, 80, "tangent of gp %d after evaluation %d", g.id, F.evals); cmp(c, w, C, g.C, nv * nv, m.tol_tangent(g.C, g.nl && !g.shortcut)); F.tangents++; }
				if (flags) { c.count(1); int f = s.nl(g.id); if (f != (int) g.nl) c.fail("flag of gp %d after evaluation %d is %d, expected %d", g.id, F.evals, f, (int) g.nl); }
				if (g.shortcut) F.shortcuts++; else if (g.sol.flow) F.flows++; else if (g.nl && F.commits) F.elastic_after++;
			}
			break;
		case UPD: s.update(); m.update(); F.commits++; break;
		case OUT: { s.output(o.step, o.gp); Model::Gp *g = m.find(o.gp); ref::Solution S; if (g && !m.export_solve(*g, S)) { c.exclude(m.why); F.stopped = true; return F; } } break;
		case INFO: s.info(); break;
		case QRY: { double x[6], C[36]; s.stress(o.gp, x); s.ctan(o.gp, C); s.nl(o.gp); } break;
		}
		if (o.kind == HOM) { last.clear(); for (auto &g : m.gps) last.push_back(ask(g.id)); }
		else for (size_t i = 0; i < last.size(); i++) { Ans a = ask(m.gps[i].id); c.count(1); if (memcmp(&a, &last[i], sizeof a)) c.fail("%s changes the answers of gp %d before any new evaluation: stress %s, was %s; flag %ld, was %ld", nm[o.kind], m.gps[i].id, vec(a.s, nv).c_str(), vec(last[i].s, nv).c_str(), a.f, last[i].f); }
	}
	return F;
}

// Elastic cells: which solves iterate, and what residual they start from. A solve that starts below
// the tolerance 1e-5 is left alone, otherwise one linear solve makes the residual negligible.
struct LinSim {
	const ref::Cell &cell; ref::Vec u; double E[6] = {0, 0, 0, 0, 0, 0}; bool ok = true, lost = false; ref::State none; // ok: u is known; lost: not even roughly
	struct Out { double R0; int its; };                 // its: 0, 1 (at least one), -1 (not known)
	explicit LinSim(const ref::Cell &c_) : cell(c_), u((size_t) c_.c.nodes() * c_.c.dim, 0.0)
	{
		for (int i = 0; i < cell.nv; i++) { double e[6] = {0, 0, 0, 0, 0, 0}; e[i] = 1e-8; step(e); }
	}
	double residual(const double *e, ref::Vec &v) const
	{
		ref::Vec f; cell.newton_from(u, e, none, 0, false, v, 1e300); cell.assemble(v, none, f, nullptr, nullptr);
		double r = 0; for (size_t q = 0; q < f.size(); q++) if (cell.dof[q] >= 0) r += f[q] * f[q];
		return std::sqrt(r);
	}
	Out step(const double *e)
	{
		for (int i = 0; i < cell.nv; i++) E[i] = e[i];
		if (!cell.ndof) return {0, 0};
		if (lost) { lost = ok = false; u = cell.solve(e, none).u; return {0, -1}; }
		ref::Vec v; double R = residual(e, v); Out o = {R, -1};
		if (ok && R < 0.8e-5) { o.its = 0; u = v; return o; }
		if (R > 2e-4 || (ok && R > 1.3e-5)) { o.its = 1; ok = true; } else ok = false;
		u = cell.solve(e, none).u;
		return o;
	}
	std::vector<Out> evaluate(const double *e)          // the solve and the perturbed ones of the tangent
	{
		std::vector<Out> o; o.push_back(step(e));
		for (int j = 0; j < cell.nv; j++) { double p[6]; for (int v = 0; v < cell.nv; v++) p[v] = e[v] + (v == j ? 1e-8 : 0); o.push_back(step(p)); }
		return o;
	}
	// a strain so close to the last one that its solve starts with about this residual
	void near(const double *dir, double target, double *e) const
	{
		double f[6]; for (int v = 0; v < cell.nv; v++) f[v] = E[v] + dir[v];
		LinSim t(*this); t.u = cell.solve(E, none).u; ref::Vec w; double R1 = t.residual(f, w);
		for (int v = 0; v < cell.nv; v++) e[v] = E[v] + (R1 > 0 ? target / R1 * dir[v] : 0);
	}
};
// one pair (iterations, residual) of the convergence report against the prediction
inline void check_solve(Ctx &c, int gp, int j, const LinSim::Out &o, double its, double err)
{
	c.count(2);
	if (o.its == 0) {
		if (its != 0) c.fail("gp %d: solve %d starts with residual %g, below the tolerance, but reports %g iterations", gp, j, o.R0, its);
		if (!(std::fabs(err - o.R0) <= 1e-6)) c.fail("gp %d: solve %d starts and ends with residual %g, but reports %g", gp, j, o.R0, err);
	} else if (o.its > 0) {
		if (its < 1) c.fail("gp %d: solve %d starts with residual %g but reports %g iterations", gp, j, o.R0, its);
	}
	if (its > 2) c.fail("gp %d: solve %d of a linear cell took %g iterations", gp, j, its);
	if (!(err <= 1.0001e-5)) c.fail("gp %d: solve %d of a linear cell ended with residual %g", gp, j, err);
}

// anything a caller may do, in any order
inline History random_history(Ctx &c, const Config &k, std::vector<int> &ids, int steps)
{
	int nv = k.nvoi(); double y = yield_strain(k); int ng = c.range(1, 3); History h;
	bool inner = k.n[0] > 2 && k.n[1] > 2 && (k.dim == 2 || k.n[2] > 2), cheap = !inner || (k.elems() <= 64 && !k.plastic(0) && !k.plastic(1)); // many plastic solves take long
	if (cheap && c.chance(1, 6)) { ng = c.range(4, 20); steps = std::min(steps, 5); }
	else if (!inner && k.elems() <= 12 && c.chance(1, 16)) { if (c.chance(1, 2)) { ng = c.range(30, 150); steps = std::min(steps, 4); } else steps = c.range(20, 60); }
	std::vector<Path> p(ng); ids = some_ids(c, ng);
	if (ng > 3) for (int g = 0; g < ng; g++) { p[g].next(c, nv, y, 4); h.push_back(set_op(ids[g], p[g].e, nv)); }
	for (int q = 0; q < steps; q++) {
		int g = c.range(0, (int) ids.size() - 1);
		switch (c.range(0, 8)) {
		case 0: case 1: case 2: p[g].next(c, nv, y, 4); h.push_back(set_op(ids[g], p[g].e, nv)); break;
		case 3: case 4: h.push_back(op(HOM)); break;
		case 5: h.push_back(op(UPD)); break;
		case 6: h.push_back(op(OUT, false, c.chance(1, 5) ? 12345 : ids[g], any_step(c))); break;
		case 7: h.push_back(op(INFO)); break;
		default: h.push_back(op(QRY, false, ids[g])); p[g].next(c, nv, y, 4); h.push_back(set_op(ids[g], p[g].e, nv)); h.push_back(op(HOM)); break;
		}
	}
	h.push_back(op(HOM)); h.push_back(op(INFO));
	return h;
}
