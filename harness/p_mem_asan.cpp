// C19: every call of the library under AddressSanitizer and UBSan; live heap bytes over repeated cycles.
#include "common.hpp"
#include "ell.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

extern "C" const char *__asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=66:malloc_fill_byte=203:max_malloc_fill_size=1048576:allocator_may_return_null=1"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

static size_t live() { return __sanitizer_get_current_allocated_bytes(); }


static void ell_cycle(int dim, int nf, const int *n, unsigned seed, int what)
{
	ell_matrix m; int npe = dim == 2 ? 4 : 8, k = npe * nf, nn = n[0] * n[1] * (dim == 3 ? n[2] : 1);
	if (dim == 2) ell_init_2D(&m, nf, n[0], n[1]); else ell_init_3D(&m, nf, n[0], n[1], n[2]);
	ell_set_zero_mat(&m);
	std::unique_ptr<double[]> A(new double[k * k]);
	for (int i = 0; i < k * k; i++) A[i] = i % (k + 1) == 0 ? 2.0 * k : 1.0 / (1 + (i / k + i % k + seed) % 7);
	for (int z = 0; z < (dim == 3 ? n[2] - 1 : 1); z++) for (int y = 0; y < n[1] - 1; y++) for (int x = 0; x < n[0] - 1; x++)
		if (dim == 2) ell_add_struct2D(&m, x, y, A.get(), nf, n[0], n[1]); else ell_add_struct3D(&m, x, y, z, A.get(), nf, n[0], n[1], n[2]);
	if (what & 1) { if (dim == 2) ell_set_bc_2D(&m, nf, n[0], n[1]); else ell_set_bc_3D(&m, nf, n[0], n[1], n[2]); }
	std::unique_ptr<double[]> b(new double[nn * nf]), x(new double[nn * nf]), y(new double[nn * nf]);
	for (int i = 0; i < nn * nf; i++) { b[i] = 1 + (i * 7 + seed) % 5; x[i] = 0; }
	ell_mvp_2D(&m, b.get(), y.get());
	ell_solver s; s.max_its = (what & 2) ? 3 : 500; s.min_tol = 1e-6;
	if (dim == 2) { ell_solve_cgpd_2D(&s, &m, nf, n[0], n[1], b.get(), x.get()); ell_solve_jacobi_2D(&s, &m, nf, n[0], n[1], b.get(), x.get()); }
	ell_solve_cgpd_struct(&s, &m, nf, dim, nn, b.get(), x.get());
	if (what & 4) ell_print(&m);
	ell_free(&m);
}

static void c19(Ctx &c)
{
	int mode = c.range(0, 5);
	if (mode == 5) { // matrix layer
		int dim = 2 + (int) c.below(2), nf = c.range(1, 3), n[3] = {c.range(2, dim == 2 ? 12 : 6), c.range(2, dim == 2 ? 12 : 6), c.range(2, 6)};
		int what = (int) c.below(8); unsigned seed = (unsigned) c.below(100);
		c.note("matrix layer: dim=%d fields=%d n=(%d,%d,%d) what=%d\n", dim, nf, n[0], n[1], n[2], what); c.label("matrix layer");
		size_t at[3];
		for (int q = 0; q < 3; q++) { ell_cycle(dim, nf, n, seed, what); at[q] = live(); }
		c.count(3);
		if (at[2] > at[1]) c.fail("each cycle of creating, solving and freeing a matrix leaves %zu bytes allocated", at[2] - at[1]);
		c.nontrivial(); return;
	}
	int kind = mode == 4 ? 1 : 0;
	Opt o; o.plastic = 1; if (c.chance(1, 2)) { o.dim = 3; o.plastic = 2; } o.max_int3 = c.chance(1, 6) ? 6 : 1; o.max_int2 = 9; if (c.chance(1, 40)) { o.plastic = 0; o.max_int3 = 30; o.max_int2 = 60; } o.contrast = 10; o.Emin = 1e7; o.Emax = 1e8;
	Config k = config(c, o); int nv = k.nvoi();
	if (c.chance(1, 3)) k.inv_tol = smax(k) * yield_strain(k) * c.logreal(0.1, 3);
	describe(c, k); std::vector<int> ids; History h = random_history(c, k, ids, c.range(0, 7)); describe(c, h, nv);
	c.label(kind ? "Fortran interface" : "C++ class"); label_cfg(c, k, ref::Cell(k));
	ids.push_back(-999); // never set
	bool flow = false;
	size_t at[3];
	{
		for (int q = 0; q < 3; q++) {
			{ P s(sut_new(&k, kind)); Answers a = run_history(*s, h, ids, nv, true); for (int f : a.flag) flow |= f == 1; if (!kind) { double z[6] = {0, 0, 0, 0, 0, 0}; s->is_linear(z); } }
			at[q] = live();
		}
		c.count(3);
		if (at[2] > at[1]) c.fail("each cycle of constructing, using and %s a cell leaves %zu bytes allocated", kind ? "constructing again over" : "destroying", at[2] - at[1]);
	}
	if (!kind && c.chance(1, 3)) { // several objects at once, destroyed in another order
		Config k2 = config(c, o); P a(sut_new(&k, 0)), b(sut_new(&k2, 0)); double e[6] = {1e-3, 0, 0, 0, 0, 0};
		a->set_strain(1, e); b->set_strain(1, e); a->homogenize(); a.reset(); b->homogenize(); b->info(); c.label("several cells alive");
	}
	if (flow) c.label("plastic flow");
	if (h.size() > 3) c.nontrivial();
}
static pbt::Reg r19({"C19", c19, 1200, 60000, "random histories (sets, evaluations, commits, exports, reports, queries, unknown ids, any order, several Gauss points) on random cells including 2-node grids, on the class and through the Fortran functions, plus create/assemble/solve/free cycles of the matrix layer, all compiled with AddressSanitizer and UBSan (bounds included) and with argument arrays of exactly the documented size; each cycle is run three times and the live heap bytes after the second and third are compared. Non-trivial: more than three operations, or a matrix cycle",
	{"configurations are admissible (at least 2 nodes per direction, valid material and geometry types)", "a leak is memory that grows with each cycle; a cache filled once is not one"}, 120});
