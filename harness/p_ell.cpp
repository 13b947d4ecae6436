// C16 assembly and product, C17 boundary conditions, C18 linear solvers of the ELL layer.
// The routines are called directly; the oracle scatters the same element matrices itself.
#include "pbt.hpp"
#include "ell.hpp"
#include <algorithm>
#include <cstdlib>
#include <memory>
using pbt::Ctx;
typedef std::vector<double> V;

namespace {

struct Grid {
	int dim, nf, n[3];
	int nn() const { return n[0] * n[1] * n[2]; }
	int nd() const { return nn() * nf; }
	int npe() const { return dim == 2 ? 4 : 8; }
	int ne() const { return (n[0] - 1) * (n[1] - 1) * (dim == 3 ? n[2] - 1 : 1); }
	void elem(int e, int *x) const { x[0] = e % (n[0] - 1); e /= n[0] - 1; x[1] = e % (n[1] - 1); x[2] = e / (n[1] - 1); }
	// nodes of an element: counter-clockwise in the bottom face, then the top face
	void nodes(int e, int *o) const
	{
		static const int dx[4] = {0, 1, 1, 0}, dy[4] = {0, 0, 1, 1};
		int x[3]; elem(e, x);
		for (int k = 0; k < npe(); k++) o[k] = ((dim == 3 ? x[2] + k / 4 : 0) * n[1] + x[1] + dy[k % 4]) * n[0] + x[0] + dx[k % 4];
	}
	bool boundary(int node) const
	{
		int x = node % n[0], y = node / n[0] % n[1], z = node / (n[0] * n[1]);
		return x == 0 || x == n[0] - 1 || y == 0 || y == n[1] - 1 || (dim == 3 && (z == 0 || z == n[2] - 1));
	}
};

struct M { // library matrix
	ell_matrix m; Grid g;
	explicit M(const Grid &g) : g(g) { if (g.dim == 2) ell_init_2D(&m, g.nf, g.n[0], g.n[1]); else ell_init_3D(&m, g.nf, g.n[0], g.n[1], g.n[2]); }
	~M() { ell_free(&m); }
	M(const M &) = delete;
	void zero() { ell_set_zero_mat(&m); }
	void add(int e, V &A)
	{
		int x[3]; g.elem(e, x);
		if (g.dim == 2) ell_add_struct2D(&m, x[0], x[1], A.data(), g.nf, g.n[0], g.n[1]);
		else ell_add_struct3D(&m, x[0], x[1], x[2], A.data(), g.nf, g.n[0], g.n[1], g.n[2]);
	}
	void bc() { if (g.dim == 2) ell_set_bc_2D(&m, g.nf, g.n[0], g.n[1]); else ell_set_bc_3D(&m, g.nf, g.n[0], g.n[1], g.n[2]); }
	V mul(V x) { V y(g.nd(), 1e33); ell_mvp_2D(&m, x.data(), y.data()); return y; }
	V dense()
	{
		int N = g.nd(); V D((size_t) N * N), e(N, 0), y(N);
		for (int j = 0; j < N; j++) { e[j] = 1; ell_mvp_2D(&m, e.data(), y.data()); e[j] = 0; for (int i = 0; i < N; i++) D[(size_t) i * N + j] = y[i]; }
		return D;
	}
};

Grid gen_grid(Ctx &c, int cap2, int cap3, int dim = 0)
{
	Grid g;
	g.dim = dim ? dim : 2 + (int) c.below(2);
	g.nf = c.range(1, 3); g.n[2] = 1;
	int cap = g.dim == 2 ? cap2 : cap3;
	if (c.chance(1, 3)) { // thin grids
		for (int d = 0; d < g.dim; d++) g.n[d] = c.range(2, 4);
		int d = c.range(0, g.dim - 1); g.n[d] = c.range(2, std::min(g.dim == 2 ? cap : 10, 30));
	} else for (int d = 0; d < g.dim; d++) g.n[d] = c.range(2, g.dim == 2 ? 9 : 6);
	if (c.chance(1, 60)) { // a long rod
		for (int d = 0; d < g.dim; d++) g.n[d] = c.range(2, 3);
		g.n[c.range(0, g.dim - 1)] = c.range(30, g.dim == 2 ? 140 : 70); g.nf = 1; c.label("rod");
	} else while (g.nn() > cap) { int d = 0; for (int k = 1; k < g.dim; k++) if (g.n[k] > g.n[d]) d = k; g.n[d]--; }
	c.note("dim=%d fields=%d n=(%d,%d,%d)\n", g.dim, g.nf, g.n[0], g.n[1], g.n[2]);
	c.label(g.dim == 2 ? "2D" : "3D");
	char b[32]; snprintf(b, 32, "%d fields", g.nf); c.label(b);
	if (g.n[0] == 2 || g.n[1] == 2 || (g.dim == 3 && g.n[2] == 2)) c.label("2 nodes in a direction");
	if (g.n[0] != g.n[1] || (g.dim == 3 && g.n[1] != g.n[2])) c.label("unequal grid");
	return g;
}

struct Rng { uint64_t s; double operator()() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (double) (s >> 11) / (double) (1ull << 53) * 2 - 1; } };
Rng sub(Ctx &c) { return Rng{c.below(1u << 30) * 2654435761u + 88172645463325252ull}; }

V random_elem(Rng &r, int k, int kind)
{
	V A(k * k);
	if (kind == 0) for (int i = 0; i < k * k; i++) A[i] = 1 + i;                 // all entries distinct
	else if (kind == 1) for (double &x : A) x = r();
	else if (kind == 2) { for (double &x : A) x = 0; int i = (int) ((r() + 1) / 2 * k * k); A[std::min(i, k * k - 1)] = 1; }
	else for (double &x : A) x = r() * std::pow(10.0, 4 * r());
	return A;
}

struct Adds { std::vector<std::pair<int, V>> v; };

void scatter(const Grid &g, const Adds &a, const V &x, V &y, V &mag)
{
	int nd[8], k = g.npe() * g.nf;
	y.assign(g.nd(), 0); mag.assign(g.nd(), 0);
	for (auto &p : a.v) {
		g.nodes(p.first, nd);
		for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) {
			double t = p.second[i * k + j] * x[nd[j / g.nf] * g.nf + j % g.nf];
			y[nd[i / g.nf] * g.nf + i % g.nf] += t; mag[nd[i / g.nf] * g.nf + i % g.nf] += std::fabs(t);
		}
	}
}

void check_product(Ctx &c, const Grid &g, M &m, const Adds &a, const V &x, const char *when)
{
	V y = m.mul(x), z, mag; scatter(g, a, x, z, mag);
	c.count(g.nd());
	for (int i = 0; i < g.nd(); i++)
		if (!(std::fabs(y[i] - z[i]) <= 1e-12 * mag[i])) c.fail("%s: product row %d (node %d field %d) is %.15g, the sum of the element matrices gives %.15g", when, i, i / g.nf, i % g.nf, y[i], z[i]);
}

// ---------------- C16 ----------------
void c16(Ctx &c)
{
	bool large = c.chance(1, 600);
	Grid g = gen_grid(c, 220, 220);
	if (large) { // row numbers beyond 16 bits
		g.nf = g.dim == 2 ? 2 : 3; int a = g.dim == 2 ? 190 : 29; for (int d = 0; d < g.dim; d++) g.n[d] = a - 2 * d; c.note("large: n=(%d,%d,%d)\n", g.n[0], g.n[1], g.n[2]); c.label("more than 65536 rows");
	}
	Rng r = sub(c);
	int k = g.npe() * g.nf, rounds = c.range(1, 3);
	M m(g);
	std::unique_ptr<M> other;
	for (int rd = 0; rd < rounds; rd++) {
		m.zero(); Adds a;
		int kind = c.range(0, 3), how = large ? c.range(3, 4) : c.range(0, 4);
		c.note("round %d: element matrices kind %d, elements %d\n", rd, kind, how);
		if (how == 0) { int e = (int) c.below(g.ne()); V A = random_elem(r, k, kind); a.v.push_back({e, A}); m.add(e, A); c.note("  element %d\n", e); }
		else if (how == 1) for (int e = 0; e < g.ne(); e++) { V A = random_elem(r, k, kind); a.v.push_back({e, A}); m.add(e, A); }
		else if (how == 2) { V A = random_elem(r, k, kind); for (int e = g.ne() - 1; e >= 0; e--) { a.v.push_back({e, A}); m.add(e, A); } }
		else {
			int q = c.range(1, 40);
			for (int i = 0; i < q; i++) { int e = large && i % 2 ? g.ne() - 1 - (int) c.below(g.ne() / 8) : (int) c.below(g.ne()); V A = random_elem(r, k, kind); a.v.push_back({e, A}); m.add(e, A); if (i == q / 2) { V x(g.nd()); for (double &t : x) t = r(); check_product(c, g, m, a, x, "between additions"); } }
		}
		if (c.chance(1, 4)) { other.reset(new M(g)); other->zero(); V A = random_elem(r, k, 1); other->add(0, A); c.label("second matrix alive"); }
		V x(g.nd()); for (double &t : x) t = r(); check_product(c, g, m, a, x, "random vector");
		for (double &t : x) t = 1; check_product(c, g, m, a, x, "vector of ones");
		for (int q = 0; q < 3; q++) { std::fill(x.begin(), x.end(), 0.0); x[c.below(g.nd())] = 1; check_product(c, g, m, a, x, "unit vector"); }
		if (a.v.size() > 1) c.label("several elements");
	}
	if (rounds > 1) c.label("zeroed and assembled again");
	c.nontrivial();
}

// ---------------- C17 ----------------
void c17(Ctx &c)
{
	Grid g = gen_grid(c, 80, 110);
	while (g.nd() > 240) g.nf--;
	Rng r = sub(c);
	int N = g.nd(), k = g.npe() * g.nf;
	bool sym = c.chance(1, 3), part = c.chance(1, 4);
	M m(g); m.zero();
	int kind = c.range(0, 1) ? 3 : 1;
	for (int e = 0; e < g.ne(); e++) {
		if (part && c.chance(1, 3)) continue;
		V A = random_elem(r, k, kind);
		if (sym) for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) A[i * k + j] = A[j * k + i];
		m.add(e, A);
	}
	V B = m.dense(); m.bc(); V D = m.dense(); m.bc(); V D2 = m.dense();
	int inside = 0;
	for (int i = 0; i < g.nn(); i++) inside += !g.boundary(i);
	c.label(inside ? "interior nodes" : "no interior nodes"); if (inside > 1) c.label("several interior nodes");
	if (sym) c.label("symmetric");
	c.count((uint64_t) N * N * 2);
	for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
		bool bi = g.boundary(i / g.nf), bj = g.boundary(j / g.nf);
		double want = bi ? (i == j) : bj ? 0.0 : B[(size_t) i * N + j], got = D[(size_t) i * N + j];
		if (got != want) c.fail("after the boundary conditions entry (%d,%d) [node %d field %d %s, node %d field %d %s] is %.15g, expected %.15g", i, j, i / g.nf, i % g.nf, bi ? "boundary" : "interior", j / g.nf, j % g.nf, bj ? "boundary" : "interior", got, want);
		if (D2[(size_t) i * N + j] != got) c.fail("applying the boundary conditions a second time changes entry (%d,%d) from %.15g to %.15g", i, j, got, D2[(size_t) i * N + j]);
		if (sym && std::fabs(D[(size_t) i * N + j] - D[(size_t) j * N + i]) > 1e-12 * std::fabs(D[(size_t) i * N + j])) c.fail("a symmetric matrix is not symmetric after the boundary conditions: (%d,%d)", i, j);
	}
	if (N) c.nontrivial();
}

// ---------------- C18 ----------------
double norm(const V &v) { double s = 0; for (double x : v) s += x * x; return std::sqrt(s); }
double dot(const V &a, const V &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }

void c18(Ctx &c)
{
	int which = c.range(0, 3); // 0: cgpd_struct 3D 1: cgpd_struct 2D 2: cgpd_2D 3: jacobi
	static const char *nm[] = {"cgpd_struct(3)", "cgpd_struct(2)", "cgpd_2D", "jacobi_2D"};
	c.note("%s ", nm[which]); c.label(nm[which]);
	Grid g = gen_grid(c, 150, 150, which == 0 ? 3 : 2);
	Rng r = sub(c);
	int N = g.nd(), k = g.npe() * g.nf;
	int kind = which == 3 ? 0 : c.range(0, 2); // element matrices: 0 random, 1 Laplacian, 2 springs between neighbours of strongly varying stiffness
	double spread = kind ? c.real(0, 4) : c.real(0, 2), shift = which == 3 ? 0 : c.logreal(0.05, 1), unit = c.chance(1, 2) ? 1 : c.chance(1, 4) ? c.logreal(1e-14, 1e14) : c.logreal(1e-4, 1e6);
	M m(g); m.zero();
	bool bc = c.chance(2, 3);
	for (int e = 0; e < g.ne(); e++) {
		V B(k * k), A(k * k, 0.0);
		for (double &x : B) x = r();
		double s = unit * std::pow(10.0, spread * r());
		if (which == 3) { // strictly diagonally dominant
			for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) A[i * k + j] = A[j * k + i] = s * B[i * k + j];
			for (int i = 0; i < k; i++) { double q = 0; for (int j = 0; j < k; j++) q += std::fabs(A[i * k + j]); A[i * k + i] = 1.25 * q + 0.1 * s; }
		} else if (kind) {
			double sh = s * 1e-3 * shift;
			for (int i = 0; i < k; i++) A[i * k + i] += sh;
			for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) if (i % g.nf == j % g.nf) { double w = kind == 1 ? s : s * (0.05 + std::fabs(B[i * k + j])); A[i * k + j] -= w; A[j * k + i] -= w; A[i * k + i] += w; A[j * k + j] += w; }
		} else {
			for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { double q = 0; for (int l = 0; l < k; l++) q += B[i * k + l] * B[j * k + l]; A[i * k + j] = s * (q / k + (i == j ? shift : 0)); }
			for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) A[i * k + j] = A[j * k + i];
		}
		m.add(e, A);
	}
	if (bc) { m.bc(); c.label("boundary conditions applied"); }
	V x(N), b(N);
	for (double &t : x) t = r();
	int kb = c.range(0, 3);
	V xs = x; // a solution
	if (kb == 0) b = m.mul(xs);
	else for (int i = 0; i < N; i++) b[i] = unit * (kb == 2 && r() < 0.9 ? 0 : r());
	if (norm(b) == 0) b[0] = unit;
	int ks = c.range(0, 3);
	if (ks == 0) std::fill(x.begin(), x.end(), 0.0);
	else if (ks == 1) { for (double &t : x) t = r(); }
	else if (ks == 2) { x = xs; if (kb != 0) { } }                      // the exact solution when kb == 0
	else for (double &t : x) t = 1e3 * r();
	V x0 = x, b0 = b;
	ell_solver s; s.min_tol = norm(b) * c.logreal(kind ? 1e-7 : 1e-9, 0.5); s.its = -5; s.err = -5;
	bool generous = c.chance(2, 3);
	s.max_its = generous ? (which == 3 ? 4000 : 20 * N + 2000) : c.range(1, 12);
	int max_its = s.max_its; double tol = s.min_tol;
	c.note("bc=%d rhs kind %d start kind %d tol=%.17g max_its=%d unit=%.6g spread=%.4g shift=%.4g kind=%d\n", bc, kb, ks, tol, max_its, unit, spread, shift, kind);
	size_t nz = (size_t) m.m.nrow * m.m.nnz;
	V vals(m.m.vals, m.m.vals + nz); std::vector<int> cols(m.m.cols, m.m.cols + nz);
	auto res = [&](const V &v) { V y = m.mul(v); for (int i = 0; i < N; i++) y[i] -= b0[i]; return norm(y); };
	auto absmul = [&](const V &v) { double q = 0; for (int i = 0; i < m.m.nrow; i++) { double t = 0; for (int j = 0; j < m.m.nnz; j++) t += std::fabs(vals[(size_t) i * m.m.nnz + j] * v[cols[(size_t) i * m.m.nnz + j]]); q += t * t; } return std::sqrt(q); };
	auto energy = [&](const V &v) { V y = m.mul(v); return 0.5 * dot(v, y) - dot(b0, v); };
	double r0 = res(x0), slack = 1e-11 * (norm(b0) + absmul(x0)), E0 = energy(x0);
	int rc;
	if (which == 3) rc = ell_solve_jacobi_2D(&s, &m.m, g.nf, g.n[0], g.n[1], b.data(), x.data());
	else if (which == 2) rc = ell_solve_cgpd_2D(&s, &m.m, g.nf, g.n[0], g.n[1], b.data(), x.data());
	else rc = ell_solve_cgpd_struct(&s, &m.m, g.nf, which == 1 ? 2 : 3, g.nn(), b.data(), x.data());
	if (rc != 0) c.fail("solver returned %d", rc);
	c.count(8);
	if (b != b0) c.fail("the right-hand side was modified");
	if (s.max_its != max_its || s.min_tol != tol) c.fail("the requested limit or tolerance was modified");
	for (size_t i = 0; i < nz; i++) if (vals[i] != m.m.vals[i] || cols[i] != m.m.cols[i]) c.fail("the matrix was modified");
	for (double t : x) if (!std::isfinite(t)) c.fail("the result is not finite");
	slack += 1e-10 * (norm(b0) + absmul(x));
	double rt = res(x);
	if (s.its < 0 || s.its > max_its) c.fail("reported %d iterations with a limit of %d", s.its, max_its);
	if (!std::isfinite(s.err) || s.err < 0) c.fail("reported error %g", s.err);
	if (s.err < tol) {
		c.label("converged");
		if (std::fabs(rt - s.err) > slack) c.fail("reported error %.12g, the true residual norm is %.12g (tolerance requested %.6g)", s.err, rt, tol);
	} else {
		c.label("limit reached");
		if (s.its != max_its) c.fail("stopped after %d of %d iterations with reported error %.6g above the tolerance %.6g", s.its, max_its, s.err, tol);
		if (rt > s.err + slack && which == 3) c.fail("reported error %.12g, the true residual norm is %.12g", s.err, rt);
	}
	if (generous && s.err >= tol) c.fail("no convergence within %d iterations: reported error %.6g, tolerance %.6g", max_its, s.err, tol);
	if (which != 3) {
		if (r0 < 0.999 * tol - slack) {
			c.label("start satisfies the tolerance");
			if (s.its != 0) c.fail("the start vector satisfies the tolerance (residual %.6g < %.6g) but %d iterations were made", r0, tol, s.its);
			if (x != x0) c.fail("the start vector satisfies the tolerance but was changed");
		} else if (r0 > 1.001 * tol + slack && s.its == 0) c.fail("zero iterations although the start residual %.6g is above the tolerance %.6g", r0, tol);
	}
	double E1 = energy(x), es = 1e-9 * (std::fabs(E0) + std::fabs(E1) + norm(b0) * (norm(x) + norm(x0)));
	if (E1 > E0 + es) c.fail("the result is farther from the solution (energy %.12g) than the start (%.12g)", E1, E0);
	if (r0 > tol) c.nontrivial();
}

pbt::Reg r16({"C16", c16, 100000, 1200000, "2D and 3D grids of up to 220 nodes (thin ones, rods of up to 140 nodes and 2 nodes per direction included), 1-3 fields; up to three rounds of zeroing and adding element matrices (distinct integers, random, single entry, widely scaled) at one, all or randomly repeated elements; products with random, constant and unit vectors are compared row by row with the scattered element matrices. Every case counts as non-trivial: at least one element matrix is added.", {"entries are finite", "element nodes are numbered counter-clockwise per face, bottom face first, as the library's own assembly uses them"}});
pbt::Reg r17({"C17", c17, 60000, 700000, "grids as for C16 (up to 240 unknowns), random non-symmetric or symmetric matrices, some elements left out; the dense matrix is read through products with unit vectors before, after one and after two applications and every entry is compared exactly. Non-trivial: every case (at least the boundary rows are replaced).", {"the matrix is read through ell_mvp_2D, whose correctness is C16"}});
pbt::Reg r18({"C18", c18, 200000, 1200000, "random SPD systems (element-wise B B^T + shift, spread over up to four decades, in units of 1e-14..1e14, Laplacian- and spring-like ones over up to eight; strictly diagonally dominant ones for Jacobi), with and without boundary conditions; random, sparse and consistent right-hand sides; zero, random, exact and far start vectors; tolerances from 1e-9 to 0.5 of |b|; generous and tight (1-12) limits. Checked: true residual against the reported error, limit, zero-iteration start, energy not above the start, matrix and right-hand side untouched. Non-trivial: the start residual is above the tolerance.", {"iteration limit at least 1, positive tolerance", "error at the iteration limit is the residual before the last update for CG, so only an error reported below the tolerance is compared with the true residual"}});
} // namespace
