#include "sut.hpp"
#include <cstdlib>
#include <cstring>
#include "micro.hpp"

extern "C" {
void micropp_construct_(int *dim, int size[3], int *micro_type, double *micro_params, int *mat_types, double *params);
void micropp_output_(int *tstep, int *gp_id);
void micropp_get_non_linear_flag_(int *gp_id, int *non_linear);
void micropp_set_macro_strain_(int *gp_id, double *macro_strain);
void micropp_homogenize_(void);
void micropp_get_macro_stress_(int *gp_id, double *macro_stress);
void micropp_get_macro_ctan_(int *gp_id, double *macro_ctan);
void micropp_update_internal_variables_(void);
void micropp_write_convergence_file_(void);
}

namespace {

// argument buffers of exact size, scribbled over and freed after the call
template <class T> struct Arg {
	T *p; size_t n;
	explicit Arg(size_t n_) : p((T *) malloc(n_ * sizeof(T))), n(n_) { memset(p, 0, n * sizeof(T)); }
	~Arg() { memset((void *) p, 0xA5, n * sizeof(T)); free(p); }
	Arg(const Arg &) = delete;
};

struct Args {
	Arg<int> size, types; Arg<double> mp, par;
	explicit Args(const ref::Config &c) : size(3), types(2), mp(5), par(2 * MAX_MAT_PARAM)
	{
		for (int d = 0; d < 3; d++) { size.p[d] = c.n[d]; mp.p[d] = c.L[d]; }
		if (c.dim == 2) { size.p[2] = c.junk; mp.p[2] = c.junk * 0.5 - 1; } // not used in 2D
		mp.p[3] = c.width; mp.p[4] = c.inv_tol;
		for (size_t i = 0; i < par.n; i++) par.p[i] = -1e30; // parameters nobody defined
		for (int m = 0; m < 2; m++) {
			types.p[m] = c.mat[m].type;
			double *q = par.p + m * MAX_MAT_PARAM;
			q[0] = c.mat[m].E; q[1] = c.mat[m].nu; q[2] = c.mat[m].Sy; q[3] = c.mat[m].Ka;
		}
	}
};

__attribute__((noinline)) void dirty(int byte)
{
	if (byte < 0) return;
	volatile char buf[96 * 1024];
	for (size_t i = 0; i < sizeof buf; i++) buf[i] = (char) byte;
	asm volatile("" : : "r"(buf) : "memory");
}
int dirty_byte = -1;

// members beyond the documented interface, used only if they exist
template <class M> auto q_lin(M *m, const double *e, int) -> decltype((int) m->is_linear(e)) { return m->is_linear(e) ? 1 : 0; }
template <class M> int q_lin(M *, const double *, long) { return -1; }
template <class M> auto q_ee(M *m, double *e, int) -> decltype(m->calc_ave_strain(e), true) { m->calc_ave_strain(e); return true; }
template <class M> bool q_ee(M *, double *, long) { return false; }
template <class M> auto q_ss(M *m, double *e, int) -> decltype(m->calc_ave_stress(e), true) { m->calc_ave_stress(e); return true; }
template <class M> bool q_ss(M *, double *, long) { return false; }

struct ClassSut : Sut {
	micropp_t *m; int nv;
	explicit ClassSut(const ref::Config &c) : nv(c.nvoi()) { Args a(c); dirty(dirty_byte); m = new micropp_t(c.dim, a.size.p, c.micro_type, a.mp.p, a.types.p, a.par.p); }
	~ClassSut() override { dirty(dirty_byte); delete m; }
	void set_strain(int gp, const double *e) override { Arg<double> a(nv); memcpy(a.p, e, nv * sizeof(double)); dirty(dirty_byte); m->set_macro_strain(gp, a.p); }
	void homogenize() override { dirty(dirty_byte); m->homogenize(); }
	void update() override { dirty(dirty_byte); m->update_vars(); }
	void stress(int gp, double *s) override { Arg<double> a(nv); memcpy(a.p, s, nv * sizeof(double)); dirty(dirty_byte); m->get_macro_stress(gp, a.p); memcpy(s, a.p, nv * sizeof(double)); }
	void ctan(int gp, double *s) override { Arg<double> a(nv * nv); memcpy(a.p, s, nv * nv * sizeof(double)); dirty(dirty_byte); m->get_macro_ctan(gp, a.p); memcpy(s, a.p, nv * nv * sizeof(double)); }
	int nl(int gp) override { int f = -77; dirty(dirty_byte); m->get_nl_flag(gp, &f); return f; }
	void output(int step, int gp) override { dirty(dirty_byte); m->output(step, gp); }
	void info() override { dirty(dirty_byte); m->write_info_files(); }
	int is_linear(const double *e) override { Arg<double> a(nv); memcpy(a.p, e, nv * sizeof(double)); dirty(dirty_byte); return q_lin(m, a.p, 0); }
	bool ave_strain(double *e) override { dirty(dirty_byte); return q_ee(m, e, 0); }
	bool ave_stress(double *e) override { dirty(dirty_byte); return q_ss(m, e, 0); }
};

struct WrapSut : Sut {
	int nv;
	explicit WrapSut(const ref::Config &c) : nv(c.nvoi())
	{
		Args a(c); int dim = c.dim, mt = c.micro_type; dirty(dirty_byte);
		micropp_construct_(&dim, a.size.p, &mt, a.mp.p, a.types.p, a.par.p);
	}
	void set_strain(int gp, const double *e) override { Arg<double> a(nv); memcpy(a.p, e, nv * sizeof(double)); dirty(dirty_byte); micropp_set_macro_strain_(&gp, a.p); }
	void homogenize() override { dirty(dirty_byte); micropp_homogenize_(); }
	void update() override { dirty(dirty_byte); micropp_update_internal_variables_(); }
	void stress(int gp, double *s) override { Arg<double> a(nv); memcpy(a.p, s, nv * sizeof(double)); dirty(dirty_byte); micropp_get_macro_stress_(&gp, a.p); memcpy(s, a.p, nv * sizeof(double)); }
	void ctan(int gp, double *s) override { Arg<double> a(nv * nv); memcpy(a.p, s, nv * nv * sizeof(double)); dirty(dirty_byte); micropp_get_macro_ctan_(&gp, a.p); memcpy(s, a.p, nv * nv * sizeof(double)); }
	int nl(int gp) override { int f = -77; dirty(dirty_byte); micropp_get_non_linear_flag_(&gp, &f); return f; }
	void output(int step, int gp) override { dirty(dirty_byte); micropp_output_(&step, &gp); }
	void info() override { dirty(dirty_byte); micropp_write_convergence_file_(); }
};

}

extern "C" Sut *sut_new(const ref::Config *c, int kind) { return kind ? (Sut *) new WrapSut(*c) : (Sut *) new ClassSut(*c); }
extern "C" void sut_dirty_stack(int byte) { dirty_byte = byte; }
