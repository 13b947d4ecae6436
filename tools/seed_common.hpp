// helpers of the demonstrations
#include "micro.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <cstring>
struct Mt { int type; double E, nu, Sy, Ka; };
static micropp_t *mk(int dim, int nx, int ny, int nz, int type, double lx, double ly, double lz, double w, double tol, Mt a, Mt b)
{
	int size[3] = {nx, ny, nz}; double mp[5] = {lx, ly, lz, w, tol}; int t[2] = {a.type, b.type};
	double par[2 * MAX_MAT_PARAM] = {0}; Mt *q[2] = {&a, &b};
	for (int i = 0; i < 2; i++) { double *p = par + i * MAX_MAT_PARAM; p[0] = q[i]->E; p[1] = q[i]->nu; p[2] = q[i]->Sy; p[3] = q[i]->Ka; }
	return new micropp_t(dim, size, type, mp, t, par);
}
struct V6 { double v[36]; double &operator[](int i) { return v[i]; } };
static V6 stress(micropp_t *m, int gp) { V6 s; memset(&s, 0, sizeof s); m->get_macro_stress(gp, s.v); return s; }
static V6 ctan(micropp_t *m, int gp) { V6 s; memset(&s, 0, sizeof s); m->get_macro_ctan(gp, s.v); return s; }
static V6 eval(micropp_t *m, int gp, const double *e) { m->set_macro_strain(gp, e); m->homogenize(); return stress(m, gp); }
static void expect(bool ok, const char *what) { if (!ok) { printf("FAILED: %s\n", what); exit(1); } }
static bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
static double big(V6 s, int n) { double m = 0; for (int i = 0; i < n; i++) m = std::max(m, std::fabs(s[i])); return m; }
static std::string slurp(const char *f) { std::ifstream in(f); std::stringstream s; s << in.rdbuf(); return s.str(); }
