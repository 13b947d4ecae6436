// C12-C15: exports, reports, Fortran interface, phase geometry.
#include "common.hpp"
#include <sys/stat.h>
#include <unistd.h>

static void in_dir(Ctx &c, const char *d) { mkdir(d, 0755); if (chdir(d)) c.discard("scratch"); }
static void up(Ctx &c) { if (chdir("..")) c.discard("scratch"); }


static void check_vtu(Ctx &c, const Config &k, const std::string &fn, const std::string &t)
{
	files::Vtu V = files::parse_vtu(t);
	if (!V.err.empty()) c.fail("%s is not well-formed: %s", fn.c_str(), V.err.c_str());
	size_t NN = k.nodes(), NE = k.elems(); int D = k.dim, nv = k.nvoi(); size_t npe = D == 2 ? 4 : 8;
	if (V.filetype != "UnstructuredGrid") c.fail("%s: file type is '%s'", fn.c_str(), V.filetype.c_str());
	for (const char *e : {"VTKFile", "UnstructuredGrid", "Piece", "Points", "Cells", "PointData", "CellData"}) if (V.elems[e] != 1) c.fail("%s: %d elements <%s>", fn.c_str(), V.elems[e], e);
	struct { const char *e, *in; } nest[] = {{"VTKFile", ""}, {"UnstructuredGrid", "VTKFile"}, {"Piece", "UnstructuredGrid"}, {"Points", "Piece"}, {"Cells", "Piece"}, {"PointData", "Piece"}, {"CellData", "Piece"}};
	for (auto &q : nest) if (V.parent[q.e] != q.in) c.fail("%s: <%s> is inside <%s>", fn.c_str(), q.e, V.parent[q.e].c_str());
	if (V.npts != (int) NN || V.ncells != (int) NE) c.fail("%s: says %d points and %d cells, the grid has %zu and %zu", fn.c_str(), V.npts, V.ncells, NN, NE);
	struct Need { const char *name, *parent; size_t n; int nc; } need[] = {
		{"Position", "Points", NN * 3, 3}, {"connectivity", "Cells", NE * npe, 1}, {"offsets", "Cells", NE, 1}, {"types", "Cells", NE, 1},
		{"displ", "PointData", NN * 3, 3}, {"b", "PointData", NN * 3, 3}, {"strain", "CellData", NE * nv, nv}, {"stress", "CellData", NE * nv, nv},
		{"elem_type", "CellData", NE, 1}, {"plasticity", "CellData", NE, 1}, {"hardening", "CellData", NE, 1}};
	for (auto &n : need) {
		if (!V.a.count(n.name)) c.fail("%s: no data array %s", fn.c_str(), n.name);
		files::Array &A = V.a[n.name];
		if (A.parent != n.parent) c.fail("%s: array %s is inside <%s>", fn.c_str(), n.name, A.parent.c_str());
		if (A.v.size() != n.n || A.ncomp != n.nc) c.fail("%s: array %s has %zu values of %d components, expected %zu of %d", fn.c_str(), n.name, A.v.size(), A.ncomp, n.n, n.nc);
		if (A.format != "ascii") c.fail("%s: array %s has format '%s'", fn.c_str(), n.name, A.format.c_str());
		for (double x : A.v) if (!std::isfinite(x)) c.fail("%s: array %s holds %g", fn.c_str(), n.name, x);
		bool integer = A.type.find("Int") != std::string::npos;
		if ((n.parent == std::string("Cells") || n.name == std::string("elem_type")) != integer) c.fail("%s: array %s is declared %s", fn.c_str(), n.name, A.type.c_str());
	}
	c.count(11);
	for (auto &x : V.a) { size_t n = x.second.parent == "PointData" ? NN : x.second.parent == "CellData" ? NE : 0; if (n && x.second.v.size() != n * x.second.ncomp) c.fail("%s: array %s has %zu values for %zu entries", fn.c_str(), x.first.c_str(), x.second.v.size(), n); }
	auto &X = V.a["Position"].v, &C = V.a["connectivity"].v, &O = V.a["offsets"].v, &T = V.a["types"].v;
	for (int kk = 0; kk < (D == 3 ? k.n[2] : 1); kk++) for (int j = 0; j < k.n[1]; j++) for (int i = 0; i < k.n[0]; i++) {
		int n = k.node(i, j, kk); double want[3] = {i * k.h(0), j * k.h(1), D == 3 ? kk * k.h(2) : 0};
		for (int d = 0; d < 3; d++) if (!(std::fabs(X[n * 3 + d] - want[d]) <= 6e-6 * std::fabs(want[d]) + 1e-14)) c.fail("%s: point %d coordinate %d is %.8g, expected %.8g", fn.c_str(), n, d, X[n * 3 + d], want[d]);
	}
	double vol = 0, hx[3] = {k.h(0), k.h(1), D == 3 ? k.h(2) : 0}; std::set<std::vector<long>> seen;
	for (size_t e = 0; e < NE; e++) {
		if (O[e] != (double) (npe * (e + 1))) c.fail("%s: offset %zu is %g", fn.c_str(), e, O[e]);
		if (T[e] != (D == 2 ? 9 : 12)) c.fail("%s: cell type %zu is %g", fn.c_str(), e, T[e]);
		double p[8][3]; std::set<int> nodes;
		for (size_t a = 0; a < npe; a++) { double id = C[e * npe + a]; if (!(id >= 0 && id < (double) NN) || id != std::floor(id)) c.fail("%s: cell %zu refers to point %g", fn.c_str(), e, id); nodes.insert((int) id); for (int d = 0; d < 3; d++) p[a][d] = X[(size_t) id * 3 + d]; }
		if (nodes.size() != npe) c.fail("%s: cell %zu repeats a point", fn.c_str(), e);
		double a[3], b[3], g[3] = {0, 0, 1}; for (int d = 0; d < 3; d++) { a[d] = p[1][d] - p[0][d]; b[d] = p[3][d] - p[0][d]; if (D == 3) g[d] = p[4][d] - p[0][d]; }
		for (int d = 0; d < 3; d++) {
			double tol = 2e-5 * k.L[d] ;
			if (std::fabs(p[2][d] - (p[0][d] + a[d] + b[d])) > tol) c.fail("%s: cell %zu is not a parallelogram in VTK order", fn.c_str(), e);
			if (D == 3) for (int q = 5; q < 8; q++) if (std::fabs(p[q][d] - (p[q - 4][d] + g[d])) > tol) c.fail("%s: cell %zu is not a hexahedron in VTK order", fn.c_str(), e);
		}
		double det = a[0] * (b[1] * g[2] - b[2] * g[1]) - a[1] * (b[0] * g[2] - b[2] * g[0]) + a[2] * (b[0] * g[1] - b[1] * g[0]);
		if (!(det > 0)) c.fail("%s: cell %zu is turned inside out (volume %g)", fn.c_str(), e, det);
		vol += det;
		std::vector<long> key; for (int d = 0; d < D; d++) { double lo = 1e300; for (size_t q = 0; q < npe; q++) lo = std::min(lo, p[q][d]); key.push_back(std::lround(lo / hx[d])); }
		if (!seen.insert(key).second) c.fail("%s: two cells cover the same grid cell", fn.c_str());
		// data of cell e belong to this place
		int ph = k.phase((int) key[0], (int) key[1], D == 3 ? (int) key[2] : 0);
		if (V.a["elem_type"].v[e] != ph) c.fail("%s: cell %zu at (%ld,%ld) has elem_type %g, its phase is %d", fn.c_str(), e, key[0], key[1], V.a["elem_type"].v[e], ph);
	}
	if (!(std::fabs(vol - k.vol()) <= 1e-4 * k.vol())) c.fail("%s: cells cover %.8g of %.8g", fn.c_str(), vol, k.vol());
	c.count(NN * 3 + NE * 4);
}

// ---------------------------------------------------------------------------------- C12
static void c12(Ctx &c)
{
	Opt o; o.plastic = 1; o.Emin = 1e6; o.max_int3 = c.chance(1, 6) ? 80 : 12; o.max_int2 = 100;
	Config k = config(c, o); int nv = k.nvoi(); double y = yield_strain(k);
	bool huge = c.chance(1, 30);
	if (huge) { // more than a thousand points or cells
		for (int m = 0; m < 2; m++) k.mat[m].type = 0;
		int d = c.range(0, 2); k.dim = d == 2 ? 3 : 2;
		if (d == 0) { k.n[0] = c.range(20, 60); k.n[1] = 2100 / k.n[0] - c.range(0, 30); k.n[2] = 2; }
		else if (d == 1) { k.n[0] = k.n[1] = 2; k.n[2] = 2; k.n[c.range(0, 1)] = c.range(600, 1200); }
		else { for (int q = 0; q < 3; q++) k.n[q] = c.range(9, 13); k.n[c.range(0, 2)] = c.range(9, 40); k.n[c.range(0, 2)] = 2; }
		nv = k.nvoi(); while (k.phase_ambiguous()) k.width = k.width * (1 + 1e-6) + 1e-8; k.inv_tol = 1e30; c.label("more than a thousand points");
	}
	if (c.chance(1, 5)) k.inv_tol = 1e30;
	describe(c, k); c.label(k.dim == 2 ? "2D" : "3D");
	int kind = c.chance(1, 5) ? 1 : 0; P s(sut_new(&k, kind)); if (kind) c.label("Fortran interface");
	auto before = files::listing(); int ng = c.range(1, 3), exports = 0; std::vector<int> ids; Path p;
	int steps = c.range(1, huge ? 2 : 5), oid = 0, ost = 0;
	for (int q = 0; q < steps; q++) {
		int id = gp_id(c), st = any_step(c); if (exports && c.chance(1, 4)) { id = oid; st = ost; c.label("exported again under the same name"); } bool known = std::find(ids.begin(), ids.end(), id) != ids.end();
		if (!known && c.chance(1, 4)) {
			c.note("export of unknown gp %d step %d\n", id, st); s->output(st, id); c.count(1); c.label("unknown id");
			auto now = files::listing(); if (now != before) c.fail("exporting an unknown Gauss point changed the files in the directory");
			continue;
		}
		if ((int) ids.size() >= ng && !known) id = ids[0];
		p.next(c, nv, y, 3); s->set_strain(id, p.e); if (std::find(ids.begin(), ids.end(), id) == ids.end()) ids.push_back(id);
		if (c.chance(2, 3)) { s->homogenize(); if (c.chance(1, 2)) s->update(); }
		c.note("export gp %d step %d strain %s\n", id, st, vec(p.e, nv).c_str());
		if (c.chance(1, 12)) { std::ofstream f("micropp_" + std::to_string(id) + "_" + std::to_string(st) + ".vtu"); int m = c.range(1, 4000); for (int i = 0; i < m; i++) f << "left over " << i << "\n"; f.close(); c.note("a file of that name exists already\n"); c.label("old file of the same name"); }
		s->output(st, id); exports++; oid = id; ost = st;
		std::string fn = "micropp_" + std::to_string(id) + "_" + std::to_string(st) + ".vtu", t;
		auto now = files::listing(); auto want = before; want.insert(fn);
		if (now != want) { std::string l; for (auto &f : now) if (!before.count(f)) l += f + " "; c.fail("expected exactly the new file %s, found: %s", fn.c_str(), l.c_str()); }
		before = now;
		files::slurp(fn, t); check_vtu(c, k, fn, t);
	}
	if (exports) c.nontrivial();
}
static pbt::Reg r12({"C12", c12, 1200, 50000, "random cells (2D/3D, up to 80/100 interior nodes, rarely more than a thousand points), ids and step numbers including negative and huge ones; every export is parsed as XML and its structure, points, connectivity geometry (orientation, tiling), offsets, types and array lengths checked, re-exports and files left over under the same name included; the directory listing compared before and after. Non-trivial: at least one export of a known Gauss point",
	{}});

// ---------------------------------------------------------------------------------- C13
static bool close6(double printed, double value, double rel = 1.5e-6) { return std::fabs(printed - value) <= rel * std::fabs(value) + 1e-300; }
static void c13(Ctx &c)
{
	Opt o; o.plastic = c.chance(2, 3) ? 2 : 1; if (o.plastic == 2) o.dim = 3; o.Emin = 1e8; o.contrast = 30; o.max_int3 = 6; o.max_int2 = 16;
	Config k = config(c, o); int nv = k.nvoi(); double y = yield_strain(k);
	if (c.chance(1, 3)) k.inv_tol = smax(k) * y * c.logreal(0.1, 3);
	describe(c, k); c.label(k.dim == 2 ? "2D" : "3D");
	static const char *F[3] = {"micropp_convergence.dat", "micropp_eps_sig_ctan.dat", "micropp_int_vars_n.dat"};
	if (c.chance(1, 2)) for (const char *f : F) { std::ofstream g(f); g << "0 1 2 3 left over from an earlier run | \n"; c.label("files left over"); }
	int kind = c.chance(1, 6) ? 1 : 0; P s(sut_new(&k, kind));
	std::string t[3], old[3];
	for (int f = 0; f < 3; f++) { if (!files::slurp(F[f], t[f])) c.fail("%s does not exist after construction", F[f]); if (!t[f].empty()) c.fail("%s is not empty after construction", F[f]); }
	{ std::string m; if (!files::slurp("micropp_materials.dat", m)) c.fail("no material echo"); std::vector<double> v; if (!files::numbers(m, v) || v.size() != 8) c.fail("material echo has %zu numbers", v.size());
	  for (int q = 0; q < 2; q++) { double w[4] = {k.mat[q].E, k.mat[q].nu, k.mat[q].Sy, k.mat[q].Ka}; for (int i = 0; i < 4; i++) if (!close6(v[q * 4 + i], w[i])) c.fail("material echo: parameter %d of material %d is %.8g, given %.8g", i, q, v[q * 4 + i], w[i]); } }
	Model m(k); ref::Cell &cell = m.cell; bool exact = cell.ndof == 0;
	std::vector<int> ids; std::vector<Path> p; std::vector<ref::PState> dummy;
	struct G { double e[6]; bool ev = false, was_nl = false; double eval_e[6]; std::vector<LinSim::Out> out; }; std::vector<G> G_;
	bool linear = !cell.needs_state(); LinSim sim(cell);
	int steps = exact && k.elems() <= 4 && c.chance(1, 8) ? c.range(12, 40) : c.range(1, 6), reports = 0, datalines = 0; bool flow = false; bool model_ok = true;
	for (int q = 0; q < steps; q++) {
		int act = c.range(0, 5);
		if (act <= 2 || ids.empty()) {
			if (ids.empty() && c.chance(1, 8)) { s->info(); reports++; c.note("report without Gauss points\n"); for (int f = 0; f < 3; f++) files::slurp(F[f], old[f]); }
			int nnew = c.chance(1, 15) ? c.range(3, 9) : c.range(ids.empty() ? 1 : 0, 2);
			for (int i = 0; i < nnew; i++) { int id = gp_id(c); if (std::find(ids.begin(), ids.end(), id) != ids.end()) continue; ids.push_back(id); p.push_back(Path()); G_.push_back(G()); p.back().next(c, nv, y, exact ? 6 : 3); s->set_strain(id, p.back().e); m.set_strain(id, p.back().e); for (int v = 0; v < 6; v++) G_.back().e[v] = v < nv ? p.back().e[v] : 0; c.note("new gp %d strain %s\n", id, vec(p.back().e, nv).c_str()); }
			for (size_t i = 0; i < ids.size(); i++) if (c.chance(1, 2)) { if (i == 0 && linear && !exact && c.chance(1, 2)) { double d[6]; strain(c, nv, 1e-3, d); sim.near(d, c.logreal(1e-6, 1e-4), p[i].e); c.label("strain within the tolerance of the last solve"); } else p[i].next(c, nv, y, exact ? 6 : 3); s->set_strain(ids[i], p[i].e); m.set_strain(ids[i], p[i].e); for (int v = 0; v < nv; v++) G_[i].e[v] = p[i].e[v]; c.note("gp %d strain %s\n", ids[i], vec(p[i].e, nv).c_str()); }
		}
		if (c.chance(3, 4)) {
			c.note("homogenize\n");
			for (size_t i = 0; i < ids.size(); i++) {
				auto &g = G_[i]; g.was_nl = s->nl(ids[i]) == 1; g.ev = true; for (int v = 0; v < 6; v++) g.eval_e[v] = g.e[v];
				g.out.clear();
				if (!linear || exact) continue;
				double inv = std::fabs(m.inv1(g.e)); if (k.inv_tol > 0 && std::fabs(inv - k.inv_tol) < m.inv_err(g.e)) { sim.lost = true; continue; }
				if (inv < k.inv_tol) continue;
				g.out = sim.evaluate(g.e);
			}
			s->homogenize(); if (model_ok && !m.homogenize(false)) { model_ok = false; c.exclude(m.why); }
			if (c.chance(2, 3)) { c.note("update\n"); s->update(); m.update(); }
		}
		if (c.chance(1, 8)) { size_t i = c.below(ids.size()); c.note("export gp %d\n", ids[i]); s->output(q, ids[i]); ref::Solution S; if (model_ok && !m.export_solve(*m.find(ids[i]), S)) model_ok = false; if (linear) sim.step(G_[i].e); }
		int nrep = c.range(1, 2);
		std::string prev[3];
		for (int r = 0; r < nrep; r++) {
			c.note("report\n"); s->info(); reports++; datalines++;
			for (int f = 0; f < 3; f++) { files::slurp(F[f], t[f]); if (t[f].compare(0, old[f].size(), old[f]) != 0 || t[f].size() <= old[f].size()) c.fail("%s: the report did not append", F[f]); if (t[f].back() != '\n') c.fail("%s: the report does not end with a line end", F[f]);
				std::string line = t[f].substr(t[f].rfind('\n', t[f].size() - 2) + 1); if (r && line != prev[f]) c.fail("%s: two reports in a row differ: '%.200s' and '%.200s'", F[f], prev[f].c_str(), line.c_str()); prev[f] = line; old[f] = t[f]; }
			files::Report R[3]; for (int f = 0; f < 3; f++) { R[f] = files::parse_report(t[f]); if ((int) R[f].lines.size() != datalines) c.fail("%s has %zu lines after %d reports", F[f], R[f].lines.size(), datalines); if (R[f].lines.back().size() != ids.size()) c.fail("%s: %zu groups for %zu Gauss points", F[f], R[f].lines.back().size(), ids.size()); }
			for (size_t i = 0; i < ids.size(); i++) {
				auto nums = [&](int f, size_t n) { std::vector<double> v; bool ok = true; for (auto &x : R[f].lines.back()[i]) v.push_back(files::num(x, ok)); if (!ok || v.size() != n) c.fail("%s: group %zu has %zu values (expected %zu)%s", F[f], i, v.size(), n, ok ? "" : ", not all numbers"); for (double x : v) if (!std::isfinite(x)) c.fail("%s: group %zu holds %g", F[f], i, x); c.count(n); return v; };
				auto cv = nums(0, 2 + 2 * (1 + nv)), es = nums(1, 6 + 6 + 36), iv = nums(2, (size_t) k.elems() * 56);
				int nl = s->nl(ids[i]); if (nl) flow = true;
				if (cv[0] != nl) c.fail("gp %d: reported flag %g, queried %d", ids[i], cv[0], nl);
				bool unsure = k.inv_tol > 0 && G_[i].ev && std::fabs(std::fabs(m.inv1(G_[i].eval_e)) - k.inv_tol) < m.inv_err(G_[i].eval_e);
				bool shortcut = G_[i].ev && !G_[i].was_nl && !unsure && std::fabs(m.inv1(G_[i].eval_e)) < k.inv_tol;
				for (int j = 0; j < 1 + nv; j++) {
					double its = cv[2 + 2 * j], err = cv[3 + 2 * j];
					if (its != std::floor(its) || its < 0 || its > 40 || err < 0) c.fail("gp %d: iterations %g residual %g", ids[i], its, err);
					if (!G_[i].ev && (its != 0 || err != 0)) c.fail("gp %d: never evaluated, but reported iterations %g and residual %g", ids[i], its, err);
					if ((shortcut || exact) && (its != 0 || err != 0)) c.fail("gp %d: nothing to solve, but reported iterations %g and residual %g", ids[i], its, err);
					if (err > 1e-5 && its < 40) c.fail("gp %d: solve %d stopped after %g iterations with residual %g", ids[i], j, its, err);
				}
				if (linear && !exact && G_[i].ev && !shortcut && !unsure && !G_[i].out.empty()) { for (int j = 0; j <= nv; j++) check_solve(c, ids[i], j, G_[i].out[j], cv[2 + 2 * j], cv[3 + 2 * j]); c.label("iterations of a linear cell predicted"); }
				if (G_[i].ev) { double inv = std::fabs(m.inv1(G_[i].eval_e)); if (!(std::fabs(cv[1] - inv) <= 2e-6 * inv + m.inv_err(G_[i].eval_e))) c.fail("gp %d: reported invariant %.8g, expected %.8g", ids[i], cv[1], inv); }
				double sg[6] = {0}, C[36] = {0}; s->stress(ids[i], sg); s->ctan(ids[i], C);
				for (int v = 0; v < 6; v++) {
					if (!close6(es[v], G_[i].e[v])) c.fail("gp %d: reported strain %d is %.8g, set %.8g", ids[i], v, es[v], G_[i].e[v]);
					if (!close6(es[6 + v], v < nv ? sg[v] : 0)) c.fail("gp %d: reported stress %d is %.8g, queried %.8g", ids[i], v, es[6 + v], v < nv ? sg[v] : 0.0);
				}
				for (int v = 0; v < 36; v++) { double w = v < nv * nv ? C[v] : 0; if (!close6(es[12 + v], w)) c.fail("gp %d: reported tangent %d is %.8g, queried %.8g", ids[i], v, es[12 + v], w); }
				if (!G_[i].ev) for (int v = 0; v < 42; v++) if (es[6 + v] != 0) c.fail("gp %d: never evaluated, but stress or tangent %d is reported as %g", ids[i], v, es[6 + v]);
				if (!nl) for (double x : iv) if (x != 0) c.fail("gp %d: linear, but an internal variable is reported as %g", ids[i], x);
				if (model_ok && !m.gps[i].n.empty()) {
					static const int bit[8] = {0, 1, 3, 2, 4, 5, 7, 6}; // counter-clockwise order of the points in the report
					double em = 0; for (auto &z : m.gps[i].n) em = std::max(em, vmax(z.ep, 6));
					double tol = 3e-6 * em + (exact ? 1e-14 : 1e-4 * em + 1e-9);
					for (int e = 0; e < k.elems(); e++) for (int g = 0; g < 8; g++) { auto &z = m.gps[i].n[(size_t) e * 8 + bit[g]]; for (int v = 0; v < 7; v++) { double w = v < 6 ? z.ep[v] : z.alpha; if (!(std::fabs(iv[(size_t) e * 56 + g * 7 + v] - w) <= tol + 3e-6 * std::fabs(w))) c.fail("gp %d: reported committed variable %d of element %d point %d is %.8g, expected %.8g", ids[i], v, e, g, iv[(size_t) e * 56 + g * 7 + v], w); } }
				}
			}
		}
	}
	if (flow) c.label("plastic"); if (ids.size() > 1) c.label("several Gauss points"); if (exact) c.label("no interior nodes");
	if (reports > 1 && !ids.empty()) c.nontrivial();
}
static pbt::Reg r13({"C13", c13, 1200, 40000, "histories with reports in arbitrary places (before any evaluation, repeated, without Gauss points, with left-over files of an earlier run); every line of the three report files and the material echo parsed and compared with queries, set strains, the model's invariant and committed internal variables. Non-trivial: at least two reports and one Gauss point",
	{"the invariant of a Gauss point never evaluated is not compared", "printed precision is 7 significant digits"}});

// ---------------------------------------------------------------------------------- C14
static void c14(Ctx &c)
{
	Opt o; o.plastic = 1; if (c.chance(2, 3)) { o.dim = 3; o.plastic = 2; } o.max_int3 = 8; o.max_int2 = 25;
	Config k = config(c, o); int nv = k.nvoi();
	if (c.chance(1, 3)) k.inv_tol = smax(k) * yield_strain(k) * c.logreal(0.1, 3);
	describe(c, k); std::vector<int> ids; History h = random_history(c, k, ids, c.range(2, 10)); describe(c, h, nv);
	int prior = c.range(0, 2); // cells constructed earlier through the interface
	for (int q = 0; q < prior; q++) {
		Config k0 = config(c, o); std::vector<int> i0; History h0 = random_history(c, k0, i0, c.range(0, 5)); c.note("earlier cell %d:\n", q); describe(c, k0); describe(c, h0, k0.nvoi());
		in_dir(c, q ? "p1" : "p0"); P w(sut_new(&k0, 1)); run_history(*w, h0, i0, k0.nvoi(), true); up(c);
	}
	ids.push_back(424242); // never set
	bool alive = c.chance(1, 3); Config kx = k; kx.mat[0].E *= 2; P x; if (alive) { in_dir(c, "x"); x.reset(sut_new(&kx, 0)); double e[6] = {1e-3, 2e-3, 0, 0, 0, 0}; x->set_strain(ids[0], e); x->homogenize(); up(c); c.label("another object alive"); }
	in_dir(c, "a"); P A(sut_new(&k, 0)); Answers ra = run_history(*A, h, ids, nv, true, true); auto la = files::listing(); up(c);
	in_dir(c, "b"); P B(sut_new(&k, 1)); Answers rb = run_history(*B, h, ids, nv, true, true); auto lb = files::listing(); up(c);
	auto bits = [&](const char *w, const std::vector<double> &u, const std::vector<double> &v) { if (u.size() != v.size()) c.fail("%s: sizes differ", w); c.count(u.size()); for (size_t i = 0; i < u.size(); i++) if (memcmp(&u[i], &v[i], 8)) c.fail("%s: value %zu is %.17g from the class and %.17g from the Fortran interface", w, i, u[i], v[i]); };
	bits("stress", ra.stress, rb.stress); bits("tangent", ra.ctan, rb.ctan); if (ra.flag != rb.flag) c.fail("flags differ between class and Fortran interface");
	if (la != lb) c.fail("class and Fortran interface leave different files");
	for (auto &f : la) { std::string u, v; files::slurp("a/" + f, u); files::slurp("b/" + f, v); c.count(1); if (u != v) c.fail("%s differs between class and Fortran interface", f.c_str()); }
	bool flow = false; for (int f : ra.flag) flow |= f; if (flow) c.label("plastic flow"); if (prior) c.label("constructed before"); c.label(k.dim == 2 ? "2D" : "3D");
	int homs = 0; for (auto &q : h) homs += q.kind == HOM; if (homs > 1) c.nontrivial();
}
static pbt::Reg r14({"C14", c14, 1000, 40000, "random histories (sets, evaluations, commits, exports, reports, queries, unknown ids) run on a C++ object and through the Fortran-callable functions, the latter after 0-2 earlier constructions with their own histories; answers bitwise, directory listing and file contents equal. Non-trivial: at least two evaluations",
	{}});

// ---------------------------------------------------------------------------------- C15
static void c15(Ctx &c)
{
	Config k; Opt o; o.max_int3 = c.chance(1, 10) ? 200 : 40; o.max_int2 = 150; o.Emin = 1e7; o.contrast = 10;
	bool dyadic = c.chance(1, 2), hit = false;
	if (dyadic) {
		k.dim = c.chance(1, 2) ? 2 : 3;
		for (int d = 0; d < k.dim; d++) { k.n[d] = c.pick({3, 5, 2, 9, 3, 5}); if (k.dim == 3 && k.n[d] == 9 && c.chance(1, 2)) k.n[d] = 3; k.L[d] = c.pick({1.0, 0.5, 2.0, 1.0}); }
		// odd numbers of elements keep the centre plane inside elements; lengths make h dyadic
		for (int d = 0; d < k.dim; d++) if (c.chance(1, 2)) { int ne = c.pick({1, 3, 5}); if (k.dim == 3 && ne == 5) ne = 3; k.n[d] = ne + 1; k.L[d] = ne * c.pick({0.5, 0.25, 1.0}); if (k.L[d] > 2) k.L[d] = ne * 0.25; if (k.L[d] < 0.5) k.L[d] = ne * 0.5; }
		k.micro_type = c.range(0, 1);
		std::vector<double> exact; // distances that are exactly representable
		for (int z = 0; z < k.ne(2); z++) for (int y = 0; y < k.ne(1); y++) for (int x = 0; x < k.ne(0); x++) {
			if (k.micro_type == 1) exact.push_back((y + 0.5) * k.h(1));
			else { long double r2 = 0; int i[3] = {x, y, z}; for (int d = 0; d < k.dim; d++) { long double t = (i[d] + 0.5L) * k.h(d) - k.L[d] / 2.0L; r2 += t * t; } double w = std::sqrt((double) r2); if (w > 0 && (long double) w * w == r2) exact.push_back(w); }
		}
		if (!exact.empty()) { k.width = exact[c.below(exact.size())]; hit = true; if (c.chance(1, 4)) { k.width = std::nextafter(k.width, c.chance(1, 2) ? 1e9 : -1e9); k.width = k.width * (c.chance(1, 2) ? 1 + 1e-9 : 1 - 1e-9); hit = false; } } else k.width = 0.3;
		materials(c, k, o); k.inv_tol = 0;
		if (!hit && k.phase_ambiguous(1e-12)) k.width *= 1.0001;
		c.label(hit ? "element centre exactly on the boundary" : "dyadic grid");
	} else k = config(c, o);
	if (k.mat[1].E == k.mat[0].E || c.chance(1, 2)) { k.mat[1].E = k.mat[0].E * 3.7; k.mat[1].nu = 0.21; }
	for (int m = 0; m < 2; m++) if (k.mat[m].type == 1) k.mat[m].type = 0;
	// exactly representable geometry: strict comparison in exact arithmetic
	std::vector<int> ph; int n1 = 0;
	for (int z = 0; z < k.ne(2); z++) for (int y = 0; y < k.ne(1); y++) for (int x = 0; x < k.ne(0); x++) {
		int i[3] = {x, y, z}, q;
		if (k.micro_type == 1) q = (y + 0.5L) * (long double) k.L[1] / (k.n[1] - 1) < (long double) k.width;
		else { long double r2 = 0; for (int d = 0; d < k.dim; d++) { long double t = (i[d] + 0.5L) * (long double) k.L[d] / (k.n[d] - 1) - k.L[d] / 2.0L; r2 += t * t; } q = r2 < (long double) k.width * k.width; }
		ph.push_back(q); n1 += q;
	}
	describe(c, k); int nv = k.nvoi(), D = k.dim;
	P s(sut_new(&k, c.chance(1, 8) ? 1 : 0));
	double e[6]; for (int i = 0; i < nv; i++) e[i] = 1e-3 * c.real(0.2, 1); for (int i = 0; i < D; i++) e[i] += 1e-3;
	s->set_strain(3, e); if (c.chance(1, 2)) s->homogenize(); s->output(1, 3);
	std::string t; if (!files::slurp("micropp_3_1.vtu", t)) c.fail("no export"); files::Vtu V = files::parse_vtu(t); if (!V.err.empty()) c.fail("%s", V.err.c_str());
	auto &ty = V.a["elem_type"].v, &es = V.a["strain"].v, &ss = V.a["stress"].v; size_t NE = k.elems();
	if (ty.size() != NE || es.size() != NE * nv || ss.size() != NE * nv) c.fail("array sizes");
	c.count(NE * 2);
	for (size_t q = 0; q < NE; q++) {
		if (ty[q] != ph[q]) c.fail("element %zu has exported type %g, geometry says %d", q, ty[q], ph[q]);
		const ref::Mat &M = k.mat[ph[q]]; ref::Lame l = ref::lame(M); const double *b = &es[q * nv], *a = &ss[q * nv];
		double tr = b[0] + b[1] + (D == 3 ? b[2] : 0), tol = 2e-5 * ref::stiff(M) * vmax(b, nv);
		for (int i = 0; i < nv; i++) { double w = i < D ? l.lam * tr + 2 * l.mu * b[i] : l.mu * b[i]; if (!(std::fabs(w - a[i]) <= tol)) c.fail("element %zu (phase %d): stress %d is %.8g, its material gives %.8g", q, ph[q], i, a[i], w); }
	}
	c.label(k.micro_type ? "layer" : "sphere"); c.label(D == 2 ? "2D" : "3D"); c.label(n1 == 0 ? "no second phase" : n1 == (int) NE ? "only second phase" : "both phases");
	if (n1 && n1 < (int) NE) c.nontrivial();
}
static pbt::Reg r15({"C15", c15, 10000, 60000, "random and exactly representable (dyadic) grids, half of the latter with a radius or height for which element centres lie exactly on the boundary; exported element type against exact geometry, and the exported stress of every element against the law of its phase. Non-trivial: both phases present",
	{"off the exactly representable cases, element centres are at least 1e-9 away from the phase boundary"}});
