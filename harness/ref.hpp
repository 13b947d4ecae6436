// Reference model, written from the property statements and the manual, not from the
// library's code: a small-strain finite-element cell problem on a structured grid of
// bilinear/trilinear elements with full 2-point Gauss integration, affine displacements on
// the whole boundary, linear elasticity or J2 plasticity with linear isotropic hardening
// (radial return, Simo & Hughes Box 3.1), solved by Newton's method with the analytic
// consistent tangent, a dense Cholesky factorisation and a line search.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <string>
#include <vector>

namespace ref {

typedef std::vector<double> Vec;

struct Mat { int type = 0; double E = 1, nu = 0.3, Sy = 1e300, Ka = 0; };

struct Config {
	int dim = 3;
	int n[3] = {2, 2, 2};
	int micro_type = 0;
	double L[3] = {1, 1, 1};
	double width = 0.3;
	double inv_tol = 0;
	int junk = 2;                // what a 2D caller passes for the third direction
	Mat mat[2];
	int nvoi() const { return dim == 2 ? 3 : 6; }
	int nodes() const { return n[0] * n[1] * (dim == 3 ? n[2] : 1); }
	int ne(int d) const { return d == 2 && dim == 2 ? 1 : n[d] - 1; }
	int elems() const { return ne(0) * ne(1) * ne(2); }
	double h(int d) const { return L[d] / (n[d] - 1); }
	double vol() const { return dim == 2 ? L[0] * L[1] : L[0] * L[1] * L[2]; }
	int gpe() const { return dim == 2 ? 4 : 8; }
	bool plastic(int m) const { return dim == 3 && mat[m].type == 1; }
	int node(int i, int j, int k) const { return (k * n[1] + j) * n[0] + i; }
	int elem(int i, int j, int k) const { return (k * ne(1) + j) * ne(0) + i; }
	bool boundary(int i, int j, int k) const {
		return i == 0 || j == 0 || i == n[0] - 1 || j == n[1] - 1 ||
		       (dim == 3 && (k == 0 || k == n[2] - 1));
	}
	// signed distance-like margin of the element centre to the phase boundary; <0: phase 1
	double phase_margin(int i, int j, int k) const {
		double c[3] = {(i + 0.5) * h(0), (j + 0.5) * h(1), dim == 3 ? (k + 0.5) * h(2) : 0};
		if (micro_type == 1) return c[1] - width;
		double r2 = 0;
		for (int d = 0; d < dim; d++) r2 += (c[d] - L[d] / 2) * (c[d] - L[d] / 2);
		return std::sqrt(r2) - width;
	}
	int phase(int i, int j, int k) const { return phase_margin(i, j, k) < 0 ? 1 : 0; }
	// is any element centre so close to the phase boundary that rounding decides?
	bool phase_ambiguous(double tol = 1e-9) const {
		for (int k = 0; k < ne(2); k++) for (int j = 0; j < ne(1); j++) for (int i = 0; i < ne(0); i++)
			if (std::fabs(phase_margin(i, j, k)) < tol) return true;
		return false;
	}
};

struct Lame { double lam, mu, k; };
inline Lame lame(const Mat &m)
{
	return {m.nu * m.E / ((1 + m.nu) * (1 - 2 * m.nu)), m.E / (2 * (1 + m.nu)),
	        m.E / (3 * (1 - 2 * m.nu))};
}

// largest elastic modulus of any kind
inline double stiff(const Mat &m) { return m.E * std::max(1 / (1 - 2 * m.nu), 1 / (1 + m.nu)); }

// ---- material point -------------------------------------------------------------------
struct PState { double ep[6] = {0, 0, 0, 0, 0, 0}; double alpha = 0; }; // ep: tensor components

struct PResult { double s[6]; PState st; double C[6][6]; bool flow; double ftrial; };

inline void elastic_C3(const Lame &l, double C[6][6])
{
	for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++)
		C[i][j] = (i < 3 && j < 3 ? l.lam : 0) + (i == j ? (i < 3 ? 2 * l.mu : l.mu) : 0);
}

// eps: xx yy zz xy xz yz with engineering shears
inline void point3(const Mat &m, bool plastic, const double *eps, const PState &old, PResult &r)
{
	Lame l = lame(m);
	r.st = old; r.flow = false; r.ftrial = -1;
	if (!plastic) {
		elastic_C3(l, r.C);
		for (int i = 0; i < 6; i++) { r.s[i] = 0; for (int j = 0; j < 6; j++) r.s[i] += r.C[i][j] * eps[j]; }
		return;
	}
	double tr = eps[0] + eps[1] + eps[2], trp = old.ep[0] + old.ep[1] + old.ep[2];
	double s[6];
	for (int i = 0; i < 3; i++) s[i] = 2 * l.mu * ((eps[i] - tr / 3) - (old.ep[i] - trp / 3));
	for (int i = 3; i < 6; i++) s[i] = 2 * l.mu * (eps[i] / 2 - old.ep[i]);
	double nrm = std::sqrt(s[0]*s[0] + s[1]*s[1] + s[2]*s[2] + 2 * (s[3]*s[3] + s[4]*s[4] + s[5]*s[5]));
	const double q = std::sqrt(2.0 / 3.0);
	double f = nrm - q * (m.Sy + m.Ka * old.alpha);
	r.ftrial = f;
	if (f <= 0) {
		for (int i = 0; i < 6; i++) r.s[i] = s[i] + (i < 3 ? l.k * tr : 0);
		elastic_C3(l, r.C);
		return;
	}
	r.flow = true;
	double nn[6];
	for (int i = 0; i < 6; i++) nn[i] = s[i] / nrm;
	double dg = f / (2 * l.mu + 2.0 / 3.0 * m.Ka);
	for (int i = 0; i < 6; i++) r.st.ep[i] = old.ep[i] + dg * nn[i];
	r.st.alpha = old.alpha + q * dg;
	for (int i = 0; i < 6; i++) r.s[i] = s[i] - 2 * l.mu * dg * nn[i] + (i < 3 ? l.k * tr : 0);
	double th = 1 - 2 * l.mu * dg / nrm, thb = 1 / (1 + m.Ka / (3 * l.mu)) - (1 - th);
	for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
		double v = -2 * l.mu * thb * nn[i] * nn[j];
		if (i < 3 && j < 3) v += l.k - 2 * l.mu * th / 3;
		if (i == j) v += i < 3 ? 2 * l.mu * th : l.mu * th;
		r.C[i][j] = v;
	}
}

inline void elastic_C2(const Lame &l, double C[3][3]) // plane strain
{
	C[0][0] = C[1][1] = l.lam + 2 * l.mu; C[0][1] = C[1][0] = l.lam;
	C[2][2] = l.mu; C[0][2] = C[2][0] = C[1][2] = C[2][1] = 0;
}

// ---- dense SPD solve --------------------------------------------------------------------
struct Chol {
	int n = 0; Vec a;
	bool factor(const Vec &A, int n_, double shift = 0) {
		n = n_; a = A;
		for (int j = 0; j < n; j++) {
			double *aj = &a[(size_t) j * n];
			aj[j] += shift;
			double d = aj[j];
			for (int k = 0; k < j; k++) d -= aj[k] * aj[k];
			if (!(d > 0)) return false;
			d = std::sqrt(d); aj[j] = d;
			for (int i = j + 1; i < n; i++) {
				double *ai = &a[(size_t) i * n], v = ai[j];
				for (int k = 0; k < j; k++) v -= ai[k] * aj[k];
				ai[j] = v / d;
			}
		}
		return true;
	}
	void solve(Vec &b) const {
		for (int i = 0; i < n; i++) { double v = b[i]; for (int k = 0; k < i; k++) v -= a[(size_t) i * n + k] * b[k]; b[i] = v / a[(size_t) i * n + i]; }
		for (int i = n - 1; i >= 0; i--) { double v = b[i]; for (int k = i + 1; k < n; k++) v -= a[(size_t) k * n + i] * b[k]; b[i] = v / a[(size_t) i * n + i]; }
	}
};

// ---- cell problem -----------------------------------------------------------------------
typedef std::vector<PState> State; // elems * gpe, Gauss point by bit pattern (x fastest)

struct Solution {
	bool converged = false, flow = false;
	double sig[6] = {0}, eps_avg[6] = {0};
	double max_f = -1e300;        // largest trial yield function / mu
	double min_abs_f = 1e300;     // distance of the closest material point to its yield surface / Sy-scale
	int its = 0;
	Vec u;                        // nodal displacements
	Vec es, ee;                   // element-averaged stress, strain (elems*nvoi)
	State st;
};

struct Cell {
	Config c;
	int nv, ng, npe;
	std::vector<int> dof;        // dof number of interior (node,d) or -1
	int ndof = 0;
	std::vector<int> ph;         // phase per element
	// B[g][v][corner*dim+d]
	std::vector<std::array<std::array<double, 24>, 6>> B;
	double wg;

	explicit Cell(const Config &cc) : c(cc)
	{
		nv = c.nvoi(); ng = c.gpe(); npe = ng;
		dof.assign((size_t) c.nodes() * c.dim, -1);
		for (int k = 0; k < (c.dim == 3 ? c.n[2] : 1); k++) for (int j = 0; j < c.n[1]; j++) for (int i = 0; i < c.n[0]; i++)
			if (!c.boundary(i, j, k)) for (int d = 0; d < c.dim; d++) dof[(size_t) c.node(i, j, k) * c.dim + d] = ndof++;
		ph.resize(c.elems());
		for (int k = 0; k < c.ne(2); k++) for (int j = 0; j < c.ne(1); j++) for (int i = 0; i < c.ne(0); i++)
			ph[c.elem(i, j, k)] = c.phase(i, j, k);
		B.resize(ng);
		wg = c.h(0) * c.h(1) / 4; if (c.dim == 3) wg *= c.h(2) / 2;
		const double gpos = 1 / std::sqrt(3.0);
		for (int g = 0; g < ng; g++) {
			double xi[3];
			for (int d = 0; d < 3; d++) xi[d] = (g >> d & 1) ? gpos : -gpos;
			for (auto &row : B[g]) row.fill(0);
			for (int a = 0; a < npe; a++) {
				double dN[3] = {0, 0, 0};
				for (int d = 0; d < c.dim; d++) {
					double v = (a >> d & 1 ? 1 : -1) / 2.0 * (2 / c.h(d));
					for (int e = 0; e < c.dim; e++) if (e != d) v *= (1 + (a >> e & 1 ? 1 : -1) * xi[e]) / 2;
					dN[d] = v;
				}
				int o = a * c.dim;
				if (c.dim == 2) {
					B[g][0][o] = dN[0]; B[g][1][o + 1] = dN[1];
					B[g][2][o] = dN[1]; B[g][2][o + 1] = dN[0];
				} else {
					B[g][0][o] = dN[0]; B[g][1][o + 1] = dN[1]; B[g][2][o + 2] = dN[2];
					B[g][3][o] = dN[1]; B[g][3][o + 1] = dN[0];
					B[g][4][o] = dN[2]; B[g][4][o + 2] = dN[0];
					B[g][5][o + 1] = dN[2]; B[g][5][o + 2] = dN[1];
				}
			}
		}
	}
	void corners(int i, int j, int k, int *nd) const
	{
		for (int a = 0; a < npe; a++) nd[a] = c.node(i + (a & 1), j + (a >> 1 & 1), k + (a >> 2 & 1));
	}
	static void affine(int dim, const double *E, const double *x, double *u)
	{
		if (dim == 2) {
			u[0] = E[0] * x[0] + E[2] / 2 * x[1];
			u[1] = E[2] / 2 * x[0] + E[1] * x[1];
		} else {
			u[0] = E[0] * x[0] + E[3] / 2 * x[1] + E[4] / 2 * x[2];
			u[1] = E[3] / 2 * x[0] + E[1] * x[1] + E[5] / 2 * x[2];
			u[2] = E[4] / 2 * x[0] + E[5] / 2 * x[1] + E[2] * x[2];
		}
	}
	void point(int e, const double *eps, const PState *old, PResult &r) const
	{
		const Mat &m = c.mat[ph[e]];
		if (c.dim == 3) { point3(m, c.plastic(ph[e]), eps, old ? *old : PState(), r); return; }
		double C[3][3]; elastic_C2(lame(m), C);
		r.flow = false; r.ftrial = -1; r.st = PState();
		for (int i = 0; i < 3; i++) { r.s[i] = 0; for (int j = 0; j < 3; j++) { r.C[i][j] = C[i][j]; r.s[i] += C[i][j] * eps[j]; } }
	}
	// internal forces at u (all dofs, reactions included), optionally the tangent of the interior dofs
	void assemble(const Vec &u, const State &old, Vec &f, Vec *K, Solution *out) const
	{
		f.assign(u.size(), 0.0);
		if (K) K->assign((size_t) ndof * ndof, 0.0);
		if (out) { out->st.assign(old.size(), PState()); out->es.assign((size_t) c.elems() * nv, 0); out->ee = out->es; out->flow = false; out->min_abs_f = 1e300; out->max_f = -1e300;
			for (int v = 0; v < 6; v++) out->sig[v] = out->eps_avg[v] = 0; }
		const int nd = npe * c.dim;
		for (int k = 0; k < c.ne(2); k++) for (int j = 0; j < c.ne(1); j++) for (int i = 0; i < c.ne(0); i++) {
			int e = c.elem(i, j, k), cn[8]; corners(i, j, k, cn);
			double ue[24]; int de[24];
			for (int a = 0; a < npe; a++) for (int d = 0; d < c.dim; d++) { ue[a * c.dim + d] = u[(size_t) cn[a] * c.dim + d]; de[a * c.dim + d] = dof[(size_t) cn[a] * c.dim + d]; }
			double Ke[24][24]; if (K) for (int a = 0; a < nd; a++) for (int b = 0; b < nd; b++) Ke[a][b] = 0;
			for (int g = 0; g < ng; g++) {
				double eps[6] = {0, 0, 0, 0, 0, 0};
				for (int v = 0; v < nv; v++) for (int a = 0; a < nd; a++) eps[v] += B[g][v][a] * ue[a];
				PResult r; if (fd) point_fd(e, eps, old.empty() ? nullptr : &old[(size_t) e * ng + g], r); else point(e, eps, old.empty() ? nullptr : &old[(size_t) e * ng + g], r);
				for (int a = 0; a < nd; a++) { double s = 0; for (int v = 0; v < nv; v++) s += B[g][v][a] * r.s[v]; f[(size_t) cn[a / c.dim] * c.dim + a % c.dim] += s * wg; }
				if (K) for (int b = 0; b < nd; b++) {
					double cb[6];
					for (int v = 0; v < nv; v++) { cb[v] = 0; for (int w = 0; w < nv; w++) cb[v] += r.C[v][w] * B[g][w][b]; }
					for (int a = 0; a < nd; a++) { double s = 0; for (int v = 0; v < nv; v++) s += B[g][v][a] * cb[v]; Ke[a][b] += s * wg; }
				}
				if (out) {
					if (!old.empty()) out->st[(size_t) e * ng + g] = r.st;
					if (r.flow) out->flow = true;
					if (c.plastic(ph[e])) out->max_f = std::max(out->max_f, r.ftrial / lame(c.mat[ph[e]]).mu), out->min_abs_f = std::min(out->min_abs_f, std::fabs(r.ftrial) / lame(c.mat[ph[e]]).mu);
					for (int v = 0; v < nv; v++) { out->es[(size_t) e * nv + v] += r.s[v] / ng; out->ee[(size_t) e * nv + v] += eps[v] / ng;
						out->sig[v] += r.s[v] * wg / c.vol(); out->eps_avg[v] += eps[v] * wg / c.vol(); }
				}
			}
			if (K) for (int a = 0; a < nd; a++) if (de[a] >= 0) for (int b = 0; b < nd; b++) if (de[b] >= 0) (*K)[(size_t) de[a] * ndof + de[b]] += Ke[a][b];
		}
	}
	bool needs_state() const { return c.plastic(0) || c.plastic(1); }
	State zero_state() const { return needs_state() ? State((size_t) c.elems() * ng) : State(); }

	Solution solve(const double *E, const State &old, double rtol = 1e-12, const Vec *start = nullptr) const
	{
		Solution S; S.u.assign((size_t) c.nodes() * c.dim, 0);
		for (int k = 0; k < (c.dim == 3 ? c.n[2] : 1); k++) for (int j = 0; j < c.n[1]; j++) for (int i = 0; i < c.n[0]; i++) {
			double x[3] = {i * c.h(0), j * c.h(1), c.dim == 3 ? k * c.h(2) : 0};
			affine(c.dim, E, x, &S.u[(size_t) c.node(i, j, k) * c.dim]);
			if (start && !c.boundary(i, j, k)) for (int d = 0; d < c.dim; d++) S.u[(size_t) c.node(i, j, k) * c.dim + d] = (*start)[(size_t) c.node(i, j, k) * c.dim + d];
		}
		Vec f, K; Chol ch;
		double best = 1e300;
		for (int it = 0; it < 200; it++) {
			assemble(S.u, old, f, &K, &S);
			S.its = it;
			double rn = 0, fn = 0;
			Vec r(ndof);
			for (size_t q = 0; q < f.size(); q++) { fn += f[q] * f[q]; if (dof[q] >= 0) { r[dof[q]] = -f[q]; rn += f[q] * f[q]; } }
			rn = std::sqrt(rn); fn = std::sqrt(fn);
			if (rn <= rtol * fn || ndof == 0 || fn == 0) { S.converged = true; break; }
			if (it > 60 && rn <= 1e-9 * fn && rn >= best) { S.converged = true; break; }
			best = std::min(best, rn);
			double tr = 0; for (int q = 0; q < ndof; q++) tr += K[(size_t) q * ndof + q];
			double shift = 0;
			while (!ch.factor(K, ndof, shift)) shift = shift == 0 ? 1e-12 * tr / ndof : shift * 10;
			Vec dx = r; ch.solve(dx);
			// line search on the residual along the direction (the step problem is convex)
			double g0 = 0; for (int q = 0; q < ndof; q++) g0 += r[q] * dx[q];
			double t = 1; Vec un;
			for (int ls = 0; ls < 12; ls++) {
				un = S.u;
				for (size_t q = 0; q < un.size(); q++) if (dof[q] >= 0) un[q] += t * dx[dof[q]];
				Vec f2; assemble(un, old, f2, nullptr, nullptr);
				double g = 0, r2 = 0; for (size_t q = 0; q < f2.size(); q++) if (dof[q] >= 0) { g -= f2[q] * dx[dof[q]]; r2 += f2[q] * f2[q]; }
				if (std::fabs(g) <= 0.5 * std::fabs(g0) || std::sqrt(r2) <= 0.5 * rn) break;
				t *= 0.5;
			}
			S.u = un;
		}
		return S;
	}
	// one-sided tangent by the manual's algorithm: column i from strain perturbed in component i
	bool tangent(const double *E, const State &old, double d, double *C, const Solution &S0) const
	{
		bool ok = true;
		for (int i = 0; i < nv; i++) {
			double E1[6]; for (int v = 0; v < nv; v++) E1[v] = E[v];
			E1[i] += d;
			Solution S = solve(E1, old, 1e-13);
			ok = ok && S.converged;
			for (int v = 0; v < nv; v++) C[v * nv + i] = (S.sig[v] - S0.sig[v]) / d;
		}
		return ok;
	}
	// forward-difference tangent of one material point (the textbook alternative to the analytic one)
	void point_fd(int e, const double *eps, const PState *old, PResult &r) const
	{
		point(e, eps, old, r);
		if (!c.plastic(ph[e])) return;
		for (int j = 0; j < nv; j++) {
			double e1[6]; for (int v = 0; v < nv; v++) e1[v] = eps[v];
			e1[j] += 1e-8;
			PResult q; point(e, e1, old, q);
			for (int v = 0; v < nv; v++) r.C[v][j] = (q.s[v] - r.s[v]) / 1e-8;
		}
	}
	mutable bool fd = false;      // use point_fd in assemble (no analytic tangent)
	// Undamped Newton from a given start for the interior nodes. Returns the number of steps, -1 if
	// it needs more than maxit.
	int newton_from(const Vec &start, const double *E, const State &old, int maxit, bool use_fd, Vec &u, double rtol = 1e-10) const
	{
		u = start;
		for (int k = 0; k < (c.dim == 3 ? c.n[2] : 1); k++) for (int j = 0; j < c.n[1]; j++) for (int i = 0; i < c.n[0]; i++) if (c.boundary(i, j, k)) {
			double x[3] = {i * c.h(0), j * c.h(1), c.dim == 3 ? k * c.h(2) : 0};
			affine(c.dim, E, x, &u[(size_t) c.node(i, j, k) * c.dim]);
		}
		if (ndof == 0) return 0;
		Vec f, K;
		for (int it = 0; it <= maxit; it++) {
			fd = use_fd;
			assemble(u, old, f, &K, nullptr);
			fd = false;
			double rn = 0, fn = 0; Vec r(ndof);
			for (size_t q = 0; q < f.size(); q++) { fn += f[q] * f[q]; if (dof[q] >= 0) { r[dof[q]] = -f[q]; rn += f[q] * f[q]; } }
			if (!(rn < 1e200)) return -1;
			if (std::sqrt(rn) <= rtol * std::sqrt(fn) + 1e-13 || fn == 0) return it;
			for (int a = 0; a < ndof; a++) for (int b = 0; b < a; b++) { double m = (K[(size_t) a * ndof + b] + K[(size_t) b * ndof + a]) / 2; K[(size_t) a * ndof + b] = K[(size_t) b * ndof + a] = m; }
			Chol ch; if (!ch.factor(K, ndof)) return -1;
			ch.solve(r);
			for (size_t q = 0; q < u.size(); q++) if (dof[q] >= 0) u[q] += r[dof[q]];
		}
		return -1;
	}
	// exact consistent tangent by static condensation of the current tangent operator
	// dsig/dE = (1/V) int C (B du/dE), K du_i = -K_ib * affine(e_v)
	bool tangent_exact(const Solution &S, const State &old, double *C) const
	{
		const int nd = npe * c.dim;
		Vec f, K; Chol ch;
		assemble(S.u, old, f, &K, nullptr);
		if (ndof) { double tr = 0; for (int q = 0; q < ndof; q++) tr += K[(size_t) q * ndof + q];
			if (!ch.factor(K, ndof, 1e-15 * tr / ndof)) return false; }
		for (int v0 = 0; v0 < nv; v0++) {
			double E[6] = {0, 0, 0, 0, 0, 0}; E[v0] = 1;
			Vec ua((size_t) c.nodes() * c.dim), rhs(ndof, 0.0);
			for (int k = 0; k < (c.dim == 3 ? c.n[2] : 1); k++) for (int j = 0; j < c.n[1]; j++) for (int i = 0; i < c.n[0]; i++) {
				double x[3] = {i * c.h(0), j * c.h(1), c.dim == 3 ? k * c.h(2) : 0};
				affine(c.dim, E, x, &ua[(size_t) c.node(i, j, k) * c.dim]);
			}
			for (int pass = 0; pass < 2; pass++) {
				double sig[6] = {0, 0, 0, 0, 0, 0};
				for (int k = 0; k < c.ne(2); k++) for (int j = 0; j < c.ne(1); j++) for (int i = 0; i < c.ne(0); i++) {
					int e = c.elem(i, j, k), cn[8]; corners(i, j, k, cn);
					for (int g = 0; g < ng; g++) {
						double eps[6] = {0,0,0,0,0,0}, de[6] = {0,0,0,0,0,0}, ds[6];
						for (int v = 0; v < nv; v++) for (int a = 0; a < nd; a++) {
							size_t q = (size_t) cn[a / c.dim] * c.dim + a % c.dim;
							eps[v] += B[g][v][a] * S.u[q]; de[v] += B[g][v][a] * ua[q];
						}
						PResult r; point(e, eps, old.empty() ? nullptr : &old[(size_t) e * ng + g], r);
						for (int v = 0; v < nv; v++) { ds[v] = 0; for (int w = 0; w < nv; w++) ds[v] += r.C[v][w] * de[w]; sig[v] += ds[v] * wg / c.vol(); }
						if (pass == 0) for (int a = 0; a < nd; a++) { int q = dof[(size_t) cn[a / c.dim] * c.dim + a % c.dim]; if (q >= 0) { double s = 0; for (int v = 0; v < nv; v++) s += B[g][v][a] * ds[v]; rhs[q] -= s * wg; } }
					}
				}
				if (pass == 0 && ndof) { ch.solve(rhs); for (size_t q = 0; q < ua.size(); q++) if (dof[q] >= 0) ua[q] += rhs[dof[q]]; }
				if (pass == 1 || !ndof) for (int v = 0; v < nv; v++) C[v * nv + v0] = sig[v];
			}
		}
		return true;
	}
};

} // namespace ref
