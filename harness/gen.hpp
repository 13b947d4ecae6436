// Generators of cells, strains and ids.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"

namespace gen {
using pbt::Ctx;
using ref::Config;

enum Grid { ANY, INTERIOR, NOINTERIOR };
struct Opt {
	int dim = 0;               // 0: any
	Grid grid = ANY;
	int plastic = 0;           // 0: no plastic material, 1: maybe, 2: at least one phase (3D)
	double Emin = 1e6, Emax = 1e9;
	int max_int3 = 12, max_int2 = 36; // interior nodes
	bool damage = true;        // type 2 allowed
	double contrast = 1e3;
	bool unit = false;         // unit cell lengths only
	double scale = 1;          // all lengths within [1/scale, scale] of the usual ones
};

inline void describe(Ctx &c, const Config &k)
{
	c.note("dim=%d n=(%d,%d,%d) L=(%.17g,%.17g,%.17g) micro_type=%d width=%.17g inv_tol=%.17g junk=%d\n", k.dim, k.n[0], k.n[1], k.n[2], k.L[0], k.L[1], k.L[2], k.micro_type, k.width, k.inv_tol, k.junk);
	for (int m = 0; m < 2; m++) c.note("  mat%d type=%d E=%.17g nu=%.17g Sy=%.17g Ka=%.17g\n", m, k.mat[m].type, k.mat[m].E, k.mat[m].nu, k.mat[m].Sy, k.mat[m].Ka);
}

inline void grid(Ctx &c, Config &k, const Opt &o)
{
	k.dim = o.dim ? o.dim : (c.chance(1, 3) ? 2 : 3);
	Grid g = o.grid;
	if (g == ANY) g = c.chance(1, 5) ? NOINTERIOR : INTERIOR;
	int D = k.dim;
	k.n[2] = 2;
	if (g == NOINTERIOR) {
		for (int d = 0; d < D; d++) k.n[d] = c.range(2, D == 3 ? 5 : 7);
		if (c.chance(1, 16)) { for (int d = 0; d < D; d++) k.n[d] = c.range(2, 3); k.n[c.range(0, D - 1)] = c.range(8, 40); } // a rod
		k.n[c.range(0, D - 1)] = 2;
	} else {
		int cap = D == 3 ? o.max_int3 : o.max_int2, kind = c.range(0, 3);
		if (!o.plastic && cap > 10 && c.chance(1, 24)) { for (int d = 0; d < D; d++) k.n[d] = 3; k.n[c.range(0, D - 1)] = c.range(8, 40); } // a rod
		else if (kind == 0) { int top = 3; while (std::pow(top - 1, D) <= cap) top++; int n = c.range(3, top); for (int d = 0; d < D; d++) k.n[d] = n; }
		else {
			long prod = 1; int start = c.range(0, D - 1);
			for (int q = 0; q < D; q++) {
				int d = (start + q) % D;
				int top = (int) (cap / prod); if (kind == 1 && D == 3) top = std::min(top, 3); if (kind == 2) top = std::min(top, D == 3 ? 4 : 6);
				if (top > 14) top = 14;
				int in = c.range(1, std::max(1, top)); prod *= in; k.n[d] = in + 2;
			}
		}
	}
	for (int d = 0; d < 3; d++) k.L[d] = 1;
	if (D == 2 && c.chance(1, 4)) k.junk = c.pick<int>({0, 1, -1, 7, 3, 100});
	if (!o.unit && c.chance(1, 2)) for (int d = 0; d < D; d++) k.L[d] = c.chance(2, 3) ? c.real(0.5, 2.0) : c.pick({1.0, 2.0, 0.5, 1.25});
	else if (!o.unit && c.chance(1, 10)) k.L[c.range(0, D - 1)] = c.logreal(0.2, 5);
	if (o.scale > 1 && c.chance(1, 4)) { double f = c.logreal(1 / o.scale, o.scale); for (int d = 0; d < 3; d++) k.L[d] *= f; }
}

inline void geometry(Ctx &c, Config &k)
{
	k.micro_type = c.range(0, 1);
	double m = k.micro_type == 1 ? k.L[1] : std::min(k.L[0], k.L[1]);
	if (k.dim == 3 && k.micro_type == 0) m = std::min(m, k.L[2]);
	switch (c.range(0, 5)) {
	case 0: k.width = 0.37 * m; break;
	case 1: case 2: k.width = c.real(0.1, 0.6) * m; break;
	case 3: k.width = c.real(0.05, 1.1) * m; break;
	case 4: k.width = c.chance(1, 2) ? 10.0 : 0.0; break;
	default: k.width = c.pick({0.2, 0.3, 0.25, 0.5, 0.4}) * m;
	}
	while (k.phase_ambiguous()) k.width = k.width * (1 + 1e-6) + 1e-8;
}

inline void material(Ctx &c, ref::Mat &m, int type, double E)
{
	m.type = type; m.E = E;
	m.nu = c.chance(1, 3) ? 0.3 : c.chance(1, 3) ? c.pick({0.25, 0.0, 0.45, -0.4, 0.2}) : c.chance(1, 6) ? c.pick({0.49, 0.47, -0.7, 0.485, -0.5}) : c.real(-0.4, 0.45);
	m.Sy = E * (c.chance(1, 3) ? 1e-3 : c.logreal(5e-4, 2e-2));
	m.Ka = c.chance(1, 3) ? 0.0 : E * c.logreal(1e-3, 1.0);
}

inline void materials(Ctx &c, Config &k, const Opt &o)
{
	double E = c.chance(1, 3) ? std::min(std::max(1e7, o.Emin), o.Emax) : c.logreal(o.Emin, o.Emax);
	double r = c.chance(1, 8) ? 1.0 : c.logreal(1.0 / o.contrast, o.contrast);
	double E2 = std::min(std::max(E * r, o.Emin), o.Emax);
	int t[2];
	for (int m = 0; m < 2; m++) t[m] = o.damage && c.chance(1, 6) ? 2 : 0;
	if (k.dim == 2) { if (o.plastic) for (int m = 0; m < 2; m++) if (c.chance(1, 3)) t[m] = 1; }
	else if (o.plastic) {
		int w = c.range(0, o.plastic == 2 ? 2 : 3);
		if (w == 0 || w == 2) t[0] = 1;
		if (w == 1 || w == 2) t[1] = 1;
	}
	material(c, k.mat[0], t[0], E);
	material(c, k.mat[1], t[1], E2);
	if (o.plastic == 2 && k.dim == 3) { // make sure some element is of a plastic phase
		bool any = false;
		for (int z = 0; z < k.ne(2); z++) for (int y = 0; y < k.ne(1); y++) for (int x = 0; x < k.ne(0); x++) if (k.mat[k.phase(x, y, z)].type == 1) any = true;
		if (!any) k.mat[0].type = k.mat[1].type = 1;
	}
}

inline bool mixed(const Config &k)
{
	bool has[2] = {false, false};
	for (int z = 0; z < k.ne(2); z++) for (int q = 0; q < k.ne(1); q++) for (int x = 0; x < k.ne(0); x++) has[k.phase(x, q, z)] = true;
	return has[0] && has[1];
}

inline Config config(Ctx &c, const Opt &o)
{
	Config k;
	grid(c, k, o);
	if (c.chance(1, 6)) geometry(c, k);
	else for (int t = 0; t < 4; t++) { geometry(c, k); if (mixed(k)) break; } materials(c, k, o);
	k.inv_tol = c.chance(1, 4) ? -1.0 : 0.0;
	return k;
}

// strain of the given magnitude: one, some or all components
inline void strain(Ctx &c, int nv, double mag, double *e)
{
	for (int i = 0; i < nv; i++) e[i] = 0;
	int kind = c.range(0, 3);
	if (kind == 0) { int i = c.range(0, nv - 1); e[i] = c.chance(1, 2) ? -mag : mag; }
	else if (kind == 1) { int i = c.range(0, nv - 1), j = c.range(0, nv - 1); e[i] = mag * c.real(-1, 1); e[j] += mag * c.real(-1, 1); }
	else for (int i = 0; i < nv; i++) e[i] = mag * c.real(-1, 1);
}

// characteristic yield strain of the plastic phases present
inline double yield_strain(const Config &k)
{
	double y = 1e300;
	bool has[2] = {false, false};
	for (int z = 0; z < k.ne(2); z++) for (int q = 0; q < k.ne(1); q++) for (int x = 0; x < k.ne(0); x++) has[k.phase(x, q, z)] = true;
	for (int m = 0; m < 2; m++) if (k.mat[m].type == 1 && has[m]) y = std::min(y, k.mat[m].Sy / k.mat[m].E);
	return y > 1e200 || y <= 0 ? 1e-3 : y;
}

inline int gp_id(Ctx &c)
{
	if (c.chance(3, 4)) return c.range(0, 40);
	return c.pick<int>({-1, -7, 2147483647, -2147483647 - 1, 1000000, 65536, 100});
}

inline std::string vec(const double *e, int n)
{
	std::string s = "("; char b[40];
	for (int i = 0; i < n; i++) { snprintf(b, 40, "%s%.17g", i ? "," : "", e[i]); s += b; }
	return s + ")";
}

} // namespace gen
