# Planted bugs: (file, old text, new text) edits against /repo's HEAD, with a demonstration each.
EL = 'Mt{0, 1e7, 0.3, 1e4, 0}'
PRE = '''
static const Mt soft = {0, 1e7, 0.3, 1e4, 0}, hard = {0, 5e7, 0.2, 1e4, 0};
static const Mt pl = {1, 1e7, 0.3, 1e4, 1e5};
'''
S = SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, **kw):
    S.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo, **kw))

A = 'src/assembly.cpp'; Hh = 'src/homogenize.cpp'; M = 'src/micro.cpp'; O = 'src/output.cpp'; L = 'src/ell.cpp'; W = 'src/wrapper.cpp'; N = 'src/solve.cpp'

seed('c01-edge-spacing', 'C01', [(A, '''			double xcoor = lx;
			double ycoor = (i + 1) * dy;
			double dux''', '''			double xcoor = lx;
			double ycoor = (i + 1) * dx;
			double dux''')],
    'a 2D cell whose node spacings in x and y differ', 'the nodes of the edge x=lx get the affine displacement of another height, so stresses are not those of the affine boundary problem',
'''
int main() { // a homogeneous cell: the stress is C:E exactly
	micropp_t *m = mk(2, 4, 6, 1, 0, 1, 1, 1, 0.2, 0, soft, soft); double e[3] = {0, 1e-3, 5e-4}; V6 s = eval(m, 1, e);
	double f = 1e7 / (1.3 * 0.4); expect(close(s[0], f * 0.3 * 1e-3, 1e-2) && close(s[1], f * 0.7 * 1e-3, 1e-2) && close(s[2], 1e7 / 2.6 * 5e-4, 1e-2), "stress of a homogeneous cell"); delete m; }
''')

seed('c01-face-height', 'C01', [(A, '''				double ycoor = j * dy;
				double zcoor = lz;''', '''				double ycoor = j * dy;
				double zcoor = lx;''')],
    'a 3D cell with lz different from lx', 'the face z=lz is displaced as if it were at height lx',
'''
int main() {
	micropp_t *m = mk(3, 4, 4, 4, 0, 1, 1, 2, 0.2, 0, soft, soft); double e[6] = {0, 0, 1e-3, 0, 0, 0}; V6 s = eval(m, 1, e);
	double f = 1e7 / (1.3 * 0.4); expect(close(s[0], f * 0.3e-3, 1e-2) && close(s[2], f * 0.7e-3, 1e-2), "stress of a homogeneous cell"); delete m; }
''')

seed('c02-hardening-point', 'C02', [(A, 'alpha_old = vars_old[intvar_ix(e, gp, 6)];', 'alpha_old = vars_old[intvar_ix(e, 0, 6)];')],
    'a hardening material, a non-uniform plastic strain inside one element, a commit and further loading', 'every integration point continues from the hardening of the first point of its element, so stresses after the first commit are wrong',
'''
// reload to the committed strain: nothing may flow again, the stress stays
int main() {
	micropp_t *m = mk(3, 3, 3, 3, 1, 1, 1, 1, 0.4, 0, Mt{1, 1e7, 0.3, 1e4, 5e6}, hard);
	double e[6] = {4e-3, -1e-3, 0, 3e-3, 0, 1e-3}; V6 a = eval(m, 1, e); m->update_vars(); V6 b = eval(m, 1, e);
	for (int i = 0; i < 6; i++) expect(close(a[i], b[i], 1e-4 * big(a, 6)), "a committed state evaluated again at the same strain"); delete m; }
''')

seed('c02-commit-order', 'C02', [(Hh, '''	for (auto const &gp:gauss_list)
		if (gp.int_vars_n != NULL)
			for (int i = 0; i < num_int_vars; ++i)''', '''	for (auto const &gp:gauss_list)
		if (gp.int_vars_n != NULL)
			for (int i = 0; i < nelem * npe * 6; ++i)''')],
    'a hardening material in the last elements of the grid, and a commit', 'the internal variables of the last elements are not committed (6 of 7 variables per point are counted), so later steps continue from stale plastic strains',
'''
int main() {
	micropp_t *m = mk(3, 3, 3, 3, 0, 1, 1, 1, 0.1, 0, pl, soft);
	double e[6] = {0, 0, 0, 2.5e-3, 0, 0}, z[6] = {0, 0, 0, 0, 0, 0}; eval(m, 1, e); m->update_vars(); V6 s = eval(m, 1, z);
	// uniform plastic flow: after unloading the stress is uniform, -mu * 2 eps_p
	double mu = 1e7 / 2.6, tr = mu * 2.5e-3, y = 1e4 / sqrt(3.0), g = (tr * sqrt(2.0) - sqrt(2.0 / 3) * 1e4) / (2 * mu * (1 + 1e5 / 3 / mu)); (void) y;
	expect(close(s[3], -2 * mu * g / sqrt(2.0), 1), "residual stress after unloading"); delete m; }
''')

seed('c03-tangent-state', 'C03', [(Hh, '''			for (int v = 0; v < nvoi; ++v)
				sig_0[v] = gp.macro_stress[v];
''', '''			for (int v = 0; v < nvoi; ++v)
				sig_0[v] = gp.macro_stress[v];
			if (nl_flag)
				for (int i = 0; i < num_int_vars; ++i)
					vars_old[i] = vars_new[i];
''')],
    'an evaluation with plastic flow', 'the tangent columns are differentiated from the trial state instead of the committed one, giving a different (continuum, not algorithmic) tangent',
'''
int main() {
	micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 0, pl, soft), *n = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 0, pl, soft);
	double e[6] = {8e-3, 0, 0, 4e-3, 0, 2e-3}; V6 s = eval(m, 1, e), C = ctan(m, 1);
	for (int j = 0; j < 6; j++) { double p[6]; memcpy(p, e, sizeof p); p[j] += 1e-6; V6 t = eval(n, 1, p);
		for (int i = 0; i < 6; i++) expect(close(C[i * 6 + j], (t[i] - s[i]) / 1e-6, 2e-3 * 1e7), "tangent against finite differences of the stress"); }
	delete m; delete n; }
''')

seed('c03-column-scale', 'C03', [(Hh, '''				eps_1[i] += dEps;

				set_displ(eps_1);
				newton_raphson(&nl_flag, &nr_its, &nr_err);
				calc_ave_stress(sig_1);''', '''				eps_1[i] += (gp.macro_strain[i] < 0.0) ? -dEps : dEps;

				set_displ(eps_1);
				newton_raphson(&nl_flag, &nr_its, &nr_err);
				calc_ave_stress(sig_1);''')],
    'an evaluated (not shortcut) strain with a negative component', 'the columns of negative strain components are perturbed backwards but divided by the forward step, so they have the wrong sign',
'''
int main() {
	micropp_t *m = mk(3, 3, 3, 3, 0, 1, 1, 1, 0.3, 0, soft, hard); double e[6] = {1e-3, -1e-3, 0, 0, 0, -1e-3}; eval(m, 1, e); V6 C = ctan(m, 1);
	for (int i = 0; i < 6; i++) expect(C[i * 6 + i] > 0, "positive diagonal of the elastic tangent"); delete m; }
''')

seed('c04-auxetic', 'C04', [(M, '''		material_list[i].lambda = (material_list[i].nu * material_list[i].E) /''', '''		material_list[i].lambda = (fabs(material_list[i].nu) * material_list[i].E) /'''), (M, '#include <cassert>\n', '#include <cassert>\n#include <cmath>\n')],
    'a 3D elastic material with negative Poisson ratio', 'the effective stiffness of a homogeneous cell is not the isotropic stiffness of its material and exceeds the Voigt bound',
'''
int main() {
	Mt a = {0, 1e7, -0.3, 1e4, 0}; micropp_t *m = mk(3, 3, 3, 3, 0, 1, 1, 1, 0.3, 0, a, a); double e[6] = {1e-3, 0, 0, 0, 0, 0}; eval(m, 1, e); V6 C = ctan(m, 1);
	double lam = -0.3 * 1e7 / (0.7 * 1.6); expect(close(C[1], lam, 1e3), "lambda of an auxetic material"); delete m; }
''')

seed('c05-export-trial', 'C05', [(O, '''					vars_old[i] = gp.int_vars_n[i];''', '''					vars_old[i] = gp.int_vars_k[i];''')],
    'an export between a plastic trial evaluation and the commit (or after a discarded trial)', 'the exported fields are those of a step from the trial state, and plasticity/hardening show uncommitted values',
'''
int main() {
	micropp_t *m = mk(3, 3, 3, 3, 0, 1, 1, 1, 0.1, 0, pl, soft); double e[6] = {0, 0, 0, 6e-3, 0, 0}; eval(m, 1, e); m->output(3, 1);
	std::string t = slurp("micropp_1_3.vtu"); size_t i = t.find("\\"hardening\\""); expect(i != std::string::npos, "hardening field"); i = t.find('>', i);
	std::stringstream s(t.substr(i + 1)); for (int q = 0; q < 8; q++) { double v = -1; s >> v; expect(v == 0, "hardening field before any commit"); } delete m; }
''')

seed('c05-volume-field', 'C05', [(A, '''					double vol = dx * dy * dz;
					int e = glo_elem3D(ex, ey, ez);
					for (int v = 0; v < nvoi; v++) {
						elem_strain[e * nvoi + v] = strain_aux[v] / vol;''', '''					double vol = dx * dy * dz;
					int e = glo_elem3D(ex, ey, ez);
					for (int v = 0; v < nvoi; v++) {
						elem_strain[e * nvoi + v] = strain_aux[v] * nelem / (lx * ly * lx);''')],
    'an export of a 3D cell with lz different from lx', 'exported element strains are scaled by lz/lx: they do not average to the macro strain',
'''
int main() {
	micropp_t *m = mk(3, 3, 3, 3, 0, 1, 1, 2, 0.3, 0, soft, hard); double e[6] = {1e-3, 0, 0, 0, 0, 0}; m->set_macro_strain(1, e); m->output(0, 1);
	std::string t = slurp("micropp_1_0.vtu"); size_t i = t.find("\\"strain\\""); i = t.find('>', i);
	std::stringstream s(t.substr(i + 1)); double a = 0; for (int q = 0; q < 48; q++) { double v; s >> v; if (q % 6 == 0) a += v / 8; } expect(close(a, 1e-3, 1e-7), "average exported strain"); delete m; }
''')

seed('c06-norm', 'C06', [(A, '''	                          2 * sig_dev_trial[5] * sig_dev_trial[5]);''', '''	                          sig_dev_trial[5] * sig_dev_trial[5]);''')],
    'plastic loading with a yz shear component', 'yz shear counts once in the norm, so the stress may exceed the yield surface',
'''
int main() {
	micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 0, Mt{1, 1e7, 0.3, 1e4, 0}, soft); double e[6] = {0, 0, 0, 0, 0, 1e-2}; V6 s = eval(m, 1, e);
	expect(close(s[5], 1e4 / sqrt(3.0), 1), "shear yield stress"); delete m; }
''')

seed('c06-alpha', 'C06', [(A, '''		*alpha_new = alpha_old + sqrt(2.0 / 3) * dl;''', '''		*alpha_new = alpha_old + sqrt(2 / 3.0) * dl * (dl > 0.01 ? 0.5 : 1.0);''')],
    'one very large plastic step (multiplier above 0.01) of a hardening material', 'the hardening variable of large steps is too small: the committed state lies outside its own yield surface',
'''
int main() {
	micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 0, Mt{1, 1e7, 0.3, 1e4, 2e6}, soft); double e[6] = {0, 0, 0, 6e-2, 0, 0}; V6 a = eval(m, 1, e); m->update_vars(); V6 b = eval(m, 1, e);
	expect(close(a[3], b[3], 1e-6 * fabs(a[3])), "a committed state evaluated again"); delete m; }
''')

seed('c07-swap', 'C07', [(Hh, '''	for (auto const &gp:gauss_list)
		if (gp.int_vars_n != NULL)
			for (int i = 0; i < num_int_vars; ++i)
				gp.int_vars_n[i] = gp.int_vars_k[i];''', '''	for (auto &gp:gauss_list)
		if (gp.int_vars_n != NULL) {
			double *aux = gp.int_vars_n;
			gp.int_vars_n = gp.int_vars_k;
			gp.int_vars_k = aux;
		}''')],
    'two commits without an evaluation in between', 'the second commit brings back the state before the first',
'''
int main() {
	micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 0, pl, soft); double e[6] = {0, 0, 0, 6e-3, 0, 0}, z[6] = {0, 0, 0, 0, 0, 0}; eval(m, 1, e); m->update_vars(); m->update_vars(); V6 s = eval(m, 1, z);
	expect(fabs(s[3]) > 1e3, "residual stress after unloading"); delete m; }
''')

seed('c08-leftover', 'C08', [(Hh, '''		if (!gp.int_vars_n)
			for (int i = 0; i < num_int_vars; ++i)
				vars_old[i] = 0.0;
		else''', '''		if (gp.int_vars_n)''')],
    'a virgin Gauss point evaluated after one with committed plastic strains', 'a Gauss point without internal variables starts from those of the previous one',
'''
int main() {
	micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 0, pl, soft); double e[6] = {0, 0, 0, 6e-3, 0, 0}, z[6] = {0, 0, 0, 1e-5, 0, 0}; eval(m, 1, e); m->update_vars(); V6 s = eval(m, 2, z);
	expect(close(s[3], 1e7 / 2.6 * 1e-5, 1e-3), "elastic stress of the second Gauss point"); delete m; }
''')

seed('c08-negative-id', 'C08', [(Hh, '''		if (gp->id == gp_id) {
			for (int i = 0; i < nvoi; ++i)
				gp->macro_strain[i] = macro_strain[i];
			break;''', '''		if ((gp->id & 0xffff) == (gp_id & 0xffff)) {
			for (int i = 0; i < nvoi; ++i)
				gp->macro_strain[i] = macro_strain[i];
			break;''')],
    'two Gauss points whose ids agree in the low 16 bits', 'setting the second changes the first instead of creating it',
'''
int main() {
	micropp_t *m = mk(2, 3, 3, 1, 0, 1, 1, 1, 0.3, 0, soft, hard); double e[3] = {1e-3, 0, 0}, f[3] = {0, 2e-3, 0}; m->set_macro_strain(5, e); m->set_macro_strain(65541, f); m->homogenize();
	V6 a = stress(m, 5), b = stress(m, 65541); expect(a[0] > a[1] && b[1] > b[0], "both points have their own strain"); delete m; }
''')

seed('c09-compression', 'C09', [(Hh, '	return (fabs(inv) < inv_tol) ? true : false;', '	return (inv < inv_tol) ? true : false;')],
    'a positive threshold and a compressive strain beyond it', 'compressive states are always answered by the linear tensor, plastic flow is never computed',
'''
int main() {
	micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 1e4, pl, soft); double e[6] = {-2e-2, 0, 0, 0, 0, 0}; eval(m, 1, e); int f = 0; m->get_nl_flag(1, &f); expect(f == 1, "flow in compression"); delete m; }
''')

seed('c09-after-plastic', 'C09', [(Hh, 'if ((is_linear(gp.macro_strain) == true) && (gp.int_vars_n == NULL)) {', 'if ((is_linear(gp.macro_strain) == true) && (gp.int_vars_n == NULL || gp.int_vars_k[0] == 0.0)) {')],
    'a positive threshold, a Gauss point that flowed without plastic strain in the first point of the first element, unloaded below the threshold', 'a plastic Gauss point is answered linearly again, losing its residual stress',
'''
int main() { // plastic inclusion: the first element is elastic
	micropp_t *m = mk(3, 4, 4, 4, 0, 1, 1, 1, 0.35, 1e3, Mt{0, 1e7, 0.3, 1e4, 0}, Mt{1, 1e8, 0.3, 1e4, 1e5}); double e[6] = {1e-2, 0, 0, 1e-2, 0, 0}, z[6] = {0, 0, 0, 0, 0, 0}; eval(m, 1, e); int f = 0; m->get_nl_flag(1, &f); expect(f == 1, "flow");
	m->update_vars(); V6 s = eval(m, 1, z); expect(big(s, 6) > 1, "residual stress after unloading"); delete m; }
''')

seed('c10-last-element', 'C10', [(A, '''					get_elem_rhs3D(ex, ey, ez, &non_linear_one_elem, be);
					if (non_linear_one_elem == true)
						*non_linear = true;''', '''					get_elem_rhs3D(ex, ey, ez, &non_linear_one_elem, be);
					*non_linear = non_linear_one_elem;''')],
    'flow that does not reach the last element (for example only in an inclusion)', 'the flag stays 0 and the internal variables are never stored',
'''
int main() {
	micropp_t *m = mk(3, 4, 4, 4, 0, 1, 1, 1, 0.35, 0, soft, Mt{1, 1e8, 0.3, 1e4, 1e5}); double e[6] = {1e-2, 0, 0, 1e-2, 0, 0}; eval(m, 1, e); int f = 0; m->get_nl_flag(1, &f); expect(f == 1, "flow in the inclusion"); delete m; }
''')

seed('c11-export-commits', 'C11', [(O, '''			calc_fields();
			write_vtu(time_step, gp_id);''', '''			calc_fields();
			if (nl_flag && gp.int_vars_k != NULL)
				for (int i = 0; i < num_int_vars; ++i)
					gp.int_vars_k[i] = vars_new[i];
			write_vtu(time_step, gp_id);''')],
    'evaluate, set another strain, export, commit', 'the export replaces the state the next commit adopts',
'''
int main() {
	double e[6] = {0, 0, 0, 6e-3, 0, 0}, f[6] = {9e-3, 0, 0, 0, 0, 0}; V6 r[2];
	for (int q = 0; q < 2; q++) { micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 0, pl, soft); eval(m, 1, e); m->set_macro_strain(1, f); if (q) m->output(0, 1); m->update_vars(); r[q] = eval(m, 1, e); delete m; }
	for (int i = 0; i < 6; i++) expect(close(r[0][i], r[1][i], 1e-2), "an export in between changes nothing"); }
''')

seed('c12-layer-nodes', 'C12', [(O, '''					int n4 = n0 + (nx * ny);
					int n5 = n1 + (nx * ny);''', '''					int n4 = n0 + (nx * nx);
					int n5 = n1 + (nx * ny);''')],
    'a 3D export with nx different from ny', 'the connectivity of the hexahedra refers to wrong nodes',
'''
int main() {
	micropp_t *m = mk(3, 2, 3, 2, 0, 1, 1, 1, 0.1, 0, soft, soft); double e[6] = {0, 0, 0, 0, 0, 0}; m->set_macro_strain(1, e); m->output(0, 1); std::string t = slurp("micropp_1_0.vtu"); size_t i = t.find("connectivity"); i = t.find('>', i);
	std::stringstream s(t.substr(i + 1)); int w[8] = {0, 1, 3, 2, 6, 7, 9, 8}; for (int q = 0; q < 8; q++) { int v = -1; s >> v; expect(v == w[q], "nodes of the first hexahedron"); } delete m; }
''')

seed('c12-last-cell', 'C12', [(O, '''	for (int e = 0; e < nelem; e++) {
		file << elem_type[e] << " ";
	}''', '''	for (int e = 0; e < (nx - 1) * (ny - 1) * (dim == 3 ? nx - 1 : 1); e++) {
		file << elem_type[e] << " ";
	}''')],
    'a 3D export with nz smaller or larger than nx', 'the elem_type array has the wrong number of entries',
'''
int main() {
	micropp_t *m = mk(3, 2, 2, 4, 0, 1, 1, 1, 0.1, 0, soft, soft); double e[6] = {0, 0, 0, 0, 0, 0}; m->set_macro_strain(1, e); m->output(0, 1); std::string t = slurp("micropp_1_0.vtu"); size_t i = t.find("elem_type"); i = t.find('>', i); size_t j = t.find('<', i);
	std::stringstream s(t.substr(i + 1, j - i - 1)); int n = 0, v; while (s >> v) n++; expect(n == 3, "one element type per cell"); delete m; }
''')

seed('c13-trial-vars', 'C13', [(O, '''				file << setw(14) << gp.int_vars_n[i] << " ";''', '''				file << setw(14) << gp.int_vars_k[i] << " ";''')],
    'a report between a plastic evaluation and its commit', 'the third report shows the trial variables instead of the committed ones',
'''
int main() {
	micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 0, pl, soft); double e[6] = {0, 0, 0, 6e-3, 0, 0}; eval(m, 1, e); m->write_info_files(); std::stringstream s(slurp("micropp_int_vars_n.dat")); double v; int n = 0; while (s >> v) { expect(v == 0, "committed variables before any commit"); n++; } expect(n > 0, "report"); delete m; }
''')

seed('c13-append', 'C13', [(M, '''	file.open("micropp_int_vars_n.dat");
	file.close();''', '''	if (dim == 3)
		file.open("micropp_int_vars_n.dat", std::ios_base::app);
	else
		file.open("micropp_int_vars_n.dat");
	file.close();''')],
    'constructing a 3D cell in a directory with reports of an earlier run', 'the third report is not started empty',
'''
int main() {
	double e[6] = {0, 0, 0, 6e-3, 0, 0}; for (int q = 0; q < 2; q++) { micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 0, pl, soft); expect(slurp("micropp_int_vars_n.dat").empty(), "empty report after construction"); eval(m, 1, e); m->write_info_files(); delete m; } }
''')

seed('c14-output-args', 'C14', [(W, 'micro->output (*tstep, *gp_id);', 'micro->output (*gp_id, *tstep);')],
    'an export through the Fortran interface with step and id different', 'nothing (or another Gauss point) is exported',
'''
extern "C" { void micropp_construct_(int *, int *, int *, double *, int *, double *); void micropp_output_(int *, int *); void micropp_set_macro_strain_(int *, double *); }
int main() {
	int dim = 2, size[3] = {3, 3, 1}, mt = 0, t[2] = {0, 0}; double mp[5] = {1, 1, 1, 0.2, 0}, par[2 * MAX_MAT_PARAM] = {0}; for (int i = 0; i < 2; i++) { par[i * MAX_MAT_PARAM] = 1e7; par[i * MAX_MAT_PARAM + 1] = 0.3; }
	micropp_construct_(&dim, size, &mt, mp, t, par); int gp = 7, st = 2; double e[3] = {1e-3, 0, 0}; micropp_set_macro_strain_(&gp, e); micropp_output_(&st, &gp); expect(!slurp("micropp_7_2.vtu").empty(), "file of Gauss point 7, step 2"); }
''')

seed('c15-sphere-centre', 'C15', [(M, '		double z2 = lz / 2;', '		double z2 = lx / 2;')],
    'a 3D sphere in a cell with lz different from lx', 'the sphere is not centred in z',
'''
int main() {
	micropp_t *m = mk(3, 4, 4, 6, 0, 1, 1, 2, 0.45, 0, soft, hard); double e[6] = {0, 0, 0, 0, 0, 0}; m->set_macro_strain(1, e); m->output(0, 1); std::string t = slurp("micropp_1_0.vtu"); size_t i = t.find("elem_type"); i = t.find('>', i);
	std::stringstream s(t.substr(i + 1)); int v[45]; for (int q = 0; q < 45; q++) { v[q] = -1; s >> v[q]; } for (int q = 0; q < 45; q++) expect(v[q] == v[44 - q], "phases symmetric about the centre"); delete m; }
''')

seed('c15-layer-tie', 'C15', [(M, '''		        (y2 - y1) * (y2 - y1) < width * width);

	} else if (micro_type == 1) {
		const double y = ey * dy + dy / 2;
		return (y < width);''', '''		        (y2 - y1) * (y2 - y1) < width * width);

	} else if (micro_type == 1) {
		const double y = ey * dy + dy / 2;
		return (y <= width);''')],
    'a 2D layer whose height passes exactly through element centres', 'elements whose centre is not strictly below the height get the second material',
'''
int main() {
	micropp_t *m = mk(2, 5, 5, 1, 1, 1, 1, 1, 0.375, 0, soft, hard); double e[3] = {0, 0, 0}; m->set_macro_strain(1, e); m->output(0, 1); std::string t = slurp("micropp_1_0.vtu"); size_t i = t.find("elem_type"); i = t.find('>', i);
	std::stringstream s(t.substr(i + 1)); for (int q = 0; q < 16; q++) { int v = -1; s >> v; expect(v == (q < 4 ? 1 : 0), "only the first row is strictly below 0.375"); } delete m; }
''')

ELL = '''
// y = A x of the matrix assembled from all elements of a 3D grid with random symmetric element matrices, against the scattered sum
static unsigned long long rs = 12345; static double rnd() { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (double) (rs >> 33) / 4294967296.0 - 0.25; }
'''
seed('c16-edge-column', 'C16', [(L, '''	// x=0 y=ly (linea)
	for (int k = 1; k < nz - 1; k++) {
		nn = nod_index(0, ny - 1, k);
		mcols = &(m->cols[nn * nFields * nnz]);
		for (int d1 = 0; d1 < nFields; d1++) {
			for (int d2 = 0; d2 < nFields; d2++) {
				mcols[0 * nFields + nnz * d1 + d2] = 0;
				mcols[1 * nFields + nnz * d1 + d2] = (nn - (nx * ny) - nx) * nFields + d2;
				mcols[2 * nFields + nnz * d1 + d2] = (nn - (nx * ny) - nx + 1) * nFields + d2;''', '''	// x=0 y=ly (linea)
	for (int k = 1; k < nz - 1; k++) {
		nn = nod_index(0, ny - 1, k);
		mcols = &(m->cols[nn * nFields * nnz]);
		for (int d1 = 0; d1 < nFields; d1++) {
			for (int d2 = 0; d2 < nFields; d2++) {
				mcols[0 * nFields + nnz * d1 + d2] = 0;
				mcols[1 * nFields + nnz * d1 + d2] = (nn - (nx * ny) - nx) * nFields + d2;
				mcols[2 * nFields + nnz * d1 + d2] = (nn - (nx * ny) + 1) * nFields + d2;''')],
    'a 3D matrix with at least three node layers in z and an element at the edge x=0, y=ly', 'the rows of the edge x=0, y=ly multiply the wrong entry of the vector (invisible to the cell problem, whose boundary rows are identities)',
ELL + '''
int main() {
	int nx = 3, ny = 3, nz = 3, n = 27; ell_matrix A; ell_init_3D(&A, 1, nx, ny, nz); ell_set_zero_mat(&A); std::vector<double> D(n * n, 0.0), x(n), y(n);
	for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int c = 0; c < 2; c++) { double K[64]; for (double &v : K) v = rnd(); ell_add_struct3D(&A, a, b, c, K, 1, nx, ny, nz);
		int n0 = c * 9 + b * 3 + a, id[8] = {n0, n0 + 1, n0 + 4, n0 + 3, n0 + 9, n0 + 10, n0 + 13, n0 + 12}; for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) D[id[i] * n + id[j]] += K[i * 8 + j]; }
	for (double &v : x) v = rnd(); ell_mvp_2D(&A, x.data(), y.data()); for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += D[i * n + j] * x[j]; expect(close(s, y[i], 1e-12), "product with the assembled matrix"); } ell_free(&A); }
''')

seed('c17-thin-grid', 'C17', [(L, '''	// x= lx - dx
	if (nx > 2) {
		const int tmp[] = { 2, 5, 8,''', '''	// x= lx - dx
	if (nx > 3) {
		const int tmp[] = { 2, 5, 8,''')],
    'a 3D grid with exactly three nodes in x', 'columns of the boundary x=lx stay in the interior rows',
ELL + '''
int main() {
	int nx = 3, ny = 4, nz = 4, n = 48; ell_matrix A; ell_init_3D(&A, 1, nx, ny, nz); ell_set_zero_mat(&A);
	for (int a = 0; a < 2; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 3; c++) { double K[64]; for (double &v : K) v = rnd(); ell_add_struct3D(&A, a, b, c, K, 1, nx, ny, nz); }
	ell_set_bc_3D(&A, 1, nx, ny, nz); std::vector<double> x(n), y(n);
	for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) x[(k * ny + j) * nx + i] = (i == 0 || j == 0 || k == 0 || i == nx - 1 || j == ny - 1 || k == nz - 1) ? rnd() : 0;
	ell_mvp_2D(&A, x.data(), y.data()); for (int i = 0; i < n; i++) expect(close(x[i], y[i], 1e-12), "boundary values do not reach interior rows"); ell_free(&A); }
''')

seed('c18-stagnation', 'C18', [(L, '''		rho_1 = 0.0;
		for (int i = 0; i < m->nrow; i++)
			rho_1 += r[i] * z[i];

		if (its == 0) {
			for (int i = 0; i < m->nrow; i++)
				p[i] = z[i];
		} else {
			double beta = rho_1 / rho_0;
			for (int i = 0; i < m->nrow; i++)
				p[i] = z[i] + beta * p[i];
		}

		ell_mvp_2D(m, p, q);
		double aux = 0;
		for (int i = 0; i < m->nrow; i++)
			aux += p[i] * q[i];
		d = rho_1 / aux;

		for (int i = 0; i < m->nrow; i++) {
			x[i] -= d * p[i];
			r[i] -= d * q[i];
		}

		rho_0 = rho_1;
		its++;

	} while (its < solver->max_its);

	solver->err = err;
	solver->its = its;

	free(k);
	free(r);
	free(z);
	free(p);
	free(q);

	return 0;
}

int ell_print''', '''		rho_1 = 0.0;
		for (int i = 0; i < m->nrow; i++)
			rho_1 += r[i] * z[i];

		if (its == 0) {
			for (int i = 0; i < m->nrow; i++)
				p[i] = z[i];
		} else {
			double beta = rho_1 / rho_0;
			if (beta > 4.0)	// stagnation
				break;
			for (int i = 0; i < m->nrow; i++)
				p[i] = z[i] + beta * p[i];
		}

		ell_mvp_2D(m, p, q);
		double aux = 0;
		for (int i = 0; i < m->nrow; i++)
			aux += p[i] * q[i];
		d = rho_1 / aux;

		for (int i = 0; i < m->nrow; i++) {
			x[i] -= d * p[i];
			r[i] -= d * q[i];
		}

		rho_0 = rho_1;
		its++;

	} while (its < solver->max_its);

	solver->err = err;
	solver->its = its;

	free(k);
	free(r);
	free(z);
	free(p);
	free(q);

	return 0;
}

int ell_print''')],
    'a strongly heterogeneous system where the preconditioned residual grows in one iteration by more than a factor 2', 'the 3D solver gives up early and reports a large error although the limit was not reached',
ELL + '''
int main() { // chain of stiffnesses with contrast 1e8, load at the stiff end
	int nx = 2, ny = 2, nz = 12, n = nx * ny * nz; int bad = 0;
	for (int t = 0; t < 40; t++) {
		ell_matrix A; ell_init_3D(&A, 1, nx, ny, nz); ell_set_zero_mat(&A);
		for (int c = 0; c < nz - 1; c++) { double K[64]; double s = pow(10.0, 8 * rnd() * 1.3); for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) K[i * 8 + j] = s * (i == j ? 8.001 : -1); for (int i = 0; i < 8; i++) K[i * 9] -= s * 0.9; ell_add_struct3D(&A, 0, 0, c, K, 1, nx, ny, nz); }
		std::vector<double> b(n), x(n, 0.0), y(n); for (double &v : b) v = rnd() * pow(10.0, 4 * rnd()); ell_solver s; s.max_its = 100000; s.min_tol = 1e-3; ell_solve_cgpd_struct(&s, &A, 1, 3, n, b.data(), x.data());
		if (s.err > s.min_tol && s.its < s.max_its) bad++; ell_free(&A); }
	expect(bad == 0, "a larger error is reported only at the limit"); }
''')

seed('c18-diagonal', 'C18', [(L, '''				k[i * nFields + d] = 1 / m->vals[i * nFields * m->nnz + 13 * nFields + d * m->nnz + d];''', '''				k[i * nFields + d] = 1 / m->vals[i * nFields * m->nnz + 13 * nFields + d];''')],
    'a 3D system whose first row of a node has a negative or vanishing coupling to another component', 'the preconditioner is not the inverse diagonal: it may be negative or infinite, and the solver diverges or returns NaN',
ELL + '''
int main() {
	int nx = 3, ny = 3, nz = 3, n = 27 * 3; ell_matrix A; ell_init_3D(&A, 3, nx, ny, nz); ell_set_zero_mat(&A);
	for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int c = 0; c < 2; c++) { double K[576]; for (int i = 0; i < 24; i++) for (int j = 0; j < 24; j++) K[i * 24 + j] = i == j ? 3 : (i / 3 == j / 3 && i % 3 && j % 3 ? -1 : 0); ell_add_struct3D(&A, a, b, c, K, 3, nx, ny, nz); }
	std::vector<double> b(n), x(n, 0.0), y(n); for (double &v : b) v = rnd(); ell_solver s; s.max_its = 200; s.min_tol = 1e-9; ell_solve_cgpd_struct(&s, &A, 3, 3, 27, b.data(), x.data()); ell_mvp_2D(&A, x.data(), y.data());
	double r = 0; for (int i = 0; i < n; i++) r += (y[i] - b[i]) * (y[i] - b[i]); expect(sqrt(r) < 2e-9, "residual of the solution"); ell_free(&A); }
''')

seed('c19-counter', 'C19', [(Hh, '''			for (int i = 0; i < (1 + nvoi); ++i) {
				gp.nr_its[i] = 0;
				gp.nr_err[i] = 0.0;
			}''', '''			for (int i = 0; i <= (1 + nvoi); ++i) {
				gp.nr_its[i] = 0;
				gp.nr_err[i] = 0.0;
			}''')],
    'a 3D Gauss point answered by the linear shortcut', 'writes behind the iteration counters and residuals of the Gauss point (into the neighbouring member)',
'''
int main() { micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 1e30, soft, soft); double e[6] = {1e-4, 0, 0, 0, 0, 0}; eval(m, 1, e); m->update_vars(); eval(m, 1, e); delete m; }
''', flags='-fsanitize=address,undefined,bounds-strict -fno-sanitize-recover=all')

seed('c19-free', 'C19', [(M, '''	for (auto const &gp:gauss_list) {
		free(gp.int_vars_n);
		free(gp.int_vars_k);
	}''', '''	for (auto const &gp:gauss_list) {
		free(gp.int_vars_n);
		if (gp.inv_max > inv_tol)
			free(gp.int_vars_k);
	}''')],
    'a plastic Gauss point whose last evaluation was below the threshold when the cell is destroyed', 'its trial variables leak',
'''
int main() { micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 1e4, pl, soft); double e[6] = {1e-2, 0, 0, 0, 0, 0}, z[6] = {0, 0, 0, 0, 0, 0}; eval(m, 1, e); eval(m, 1, z); delete m; }
''', flags='-fsanitize=address -fno-sanitize-recover=all')

seed('c20-static-cache', 'C20', [(A, '''	double dsh[8][3];

	dsh[0][0] = -(1 - xg[gp][1]) * (1 - xg[gp][2]) / 8 * 2 / dx;''', '''	static double cache[8][6][3 * 8];
	static double cache_dx[8], cache_dy[8];
	if (cache_dx[gp] == dx && cache_dy[gp] == dy) {
		for (int i = 0; i < 6; i++)
			for (int j = 0; j < 3 * 8; j++)
				bmat[i][j] = cache[gp][i][j];
		return;
	}

	double dsh[8][3];

	dsh[0][0] = -(1 - xg[gp][1]) * (1 - xg[gp][2]) / 8 * 2 / dx;'''), (A, '''		bmat[5][i * dim + 1] = dsh[i][2];
		bmat[5][i * dim + 2] = dsh[i][1];
	}
''', '''		bmat[5][i * dim + 1] = dsh[i][2];
		bmat[5][i * dim + 2] = dsh[i][1];
	}

	cache_dx[gp] = dx;
	cache_dy[gp] = dy;
	for (int i = 0; i < 6; i++)
		for (int j = 0; j < 3 * 8; j++)
			cache[gp][i][j] = bmat[i][j];
''')],
    'two 3D cells in one process with the same spacing in x and y and different spacings in z', 'the second cell uses the strain operator of the first',
'''
int main() { double e[6] = {0, 0, 1e-3, 0, 0, 0}; micropp_t *o = mk(3, 3, 3, 3, 0, 1, 1, 3, 0.3, 0, soft, soft), *m = mk(3, 3, 3, 3, 0, 1, 1, 1, 0.3, 0, soft, soft); V6 r = eval(m, 1, e); delete m; delete o;
	double f = 1e7 / (1.3 * 0.4); expect(close(r[2], f * 0.7e-3, 1e-2), "the result does not depend on another cell"); }
''')

seed('c20-inv-max', 'C20', [(Hh, '''		inv_max = -1.0e10;

		if ((is''', '''		if ((is''')],
    'a report after an evaluation (uninitialised), or a second evaluation with a smaller invariant', 'the reported invariant is read from uninitialised memory or is that of an earlier Gauss point or evaluation',
'''
int main() { micropp_t *m = mk(2, 3, 3, 1, 0, 1, 1, 1, 0.3, 0, soft, hard); double e[3] = {1e-2, 0, 0}, f[3] = {1e-4, 0, 0}; m->set_macro_strain(1, e); m->set_macro_strain(2, f); m->homogenize(); m->write_info_files();
	std::stringstream s(slurp("micropp_convergence.dat")); std::string l, last; while (std::getline(s, l)) if (!l.empty() && l[0] != '#') last = l; double a, b; std::string bar; std::stringstream t(last); t >> a >> b; double i1 = b; while (t >> bar && bar != "|") ; t >> a >> b; expect(b < 0.5 * i1, "invariant of the second Gauss point"); delete m; }
''')

seed('c21-shear-index', 'C21', [(A, '''				double xcoor = i * dx;
				double ycoor = ly;
				double zcoor = k * dz;
				double dux = eps[0] * xcoor + 0.5 * eps[3] * ycoor + 0.5 * eps[4] * zcoor;
				double duy = 0.5 * eps[3] * xcoor + eps[1] * ycoor + 0.5 * eps[5] * zcoor;
				double duz = 0.5 * eps[4] * xcoor + 0.5 * eps[5] * ycoor + eps[2] * zcoor;''', '''				double xcoor = i * dx;
				double ycoor = ly;
				double zcoor = k * dz;
				double dux = eps[0] * xcoor + 0.5 * eps[3] * ycoor + 0.5 * eps[4] * zcoor;
				double duy = 0.5 * eps[3] * xcoor + eps[1] * ycoor + 0.5 * eps[5] * zcoor;
				double duz = 0.5 * eps[4] * xcoor + 0.5 * eps[4] * ycoor + eps[2] * zcoor;''')],
    'a 3D strain with different xz and yz shears', 'the axes are not equivalent any more: relabelling them does not permute the stresses',
'''
int main() { micropp_t *m = mk(3, 4, 4, 4, 0, 1, 1, 1, 0.3, 0, soft, hard); double e[6] = {0, 0, 0, 0, 1e-3, 0}, f[6] = {0, 0, 0, 0, 0, 1e-3}; V6 a = eval(m, 1, e), b = eval(m, 2, f); expect(close(a[4], b[5], 1e-2), "xz and yz shear are equivalent in a cube with a sphere"); delete m; }
''')

seed('c21-absolute-yield', 'C21', [(A, '	if (f_trial > 0) {', '	if (f_trial > 1.0e2) {')],
    'a trial state slightly outside the yield surface (absolute measure, so in small units always)', 'yielding depends on the unit of stress: scaling moduli and yield stress does not scale the answer',
'''
int main() { double k[2] = {1, 1e-2}; double r[2]; for (int q = 0; q < 2; q++) { Mt p = {1, 1e8 * k[q], 0.3, 1e4 * k[q], 0}; micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 0, p, p); double e[6] = {0, 0, 0, 1e4 / sqrt(3.0) / (1e8 / 2.6) * 1.2, 0, 0}; V6 s = eval(m, 1, e); r[q] = s[3] / k[q]; delete m; } expect(close(r[0], r[1], 1e-4 * fabs(r[0])), "the response scales with the unit of stress"); }
''')

seed('c22-modified-newton', 'C22', [(N, '''		assembly_mat();

		for (int i''', '''		if (*its == 0)
			assembly_mat();

		for (int i''')],
    'a cell with plastic flow that changes during the iteration', 'Newton keeps the first stiffness and does not converge where exact Newton does in a few steps',
'''
int main() { micropp_t *m = mk(3, 4, 4, 4, 1, 1, 1, 1, 0.5, 0, Mt{1, 1e8, 0.3, 1e4, 1e5}, hard); double e[6] = {2e-3, 0, 0, 1e-3, 0, 0}; eval(m, 1, e); m->write_info_files();
	std::stringstream s(slurp("micropp_convergence.dat")); std::string l, last; while (std::getline(s, l)) if (!l.empty() && l[0] != '#') last = l; double a, b, its, err; std::stringstream t(last); t >> a >> b >> its >> err; expect(err < 1e-5 && its < 15, "Newton converges quickly"); delete m; }
''')

seed('c22-relative-tolerance', 'C22', [(N, '''	*its = 0;
	*err = 0.0;
	do {
		*err = assembly_rhs(nl_flag);
		if (*err < NR_MAX_TOL)
			break;
''', '''	*its = 0;
	*err = 0.0;
	double err_0 = 0.0;
	do {
		*err = assembly_rhs(nl_flag);
		if (*its == 0)
			err_0 = *err;
		if (*err < NR_MAX_TOL || *err < 1.0e-6 * err_0)
			break;
''')],
    'a stiff cell (initial residual above 10) with plastic flow', 'Newton stops with residuals above the tolerance before the limit',
'''
int main() { micropp_t *m = mk(3, 4, 4, 4, 1, 10, 10, 10, 5, 0, Mt{1, 1e9, 0.3, 1e6, 1e7}, Mt{0, 5e9, 0.2, 1, 0}); double e[6] = {2e-3, 0, 0, 1e-3, 0, 0}; eval(m, 1, e); m->write_info_files();
	std::stringstream s(slurp("micropp_convergence.dat")); std::string l, last; while (std::getline(s, l)) if (!l.empty() && l[0] != '#') last = l; double a, b, its, err; std::stringstream t(last); t >> a >> b; for (int i = 0; i < 7; i++) { t >> its >> err; expect(err < 1e-5 || its >= 40, "a residual above the tolerance only at the limit"); } delete m; }
''')

seed('c23-flow-direction', 'C23', [(A, '''			eps_p_new[i] = eps_p_old[i] + dl * normal[i];''', '''			eps_p_new[i] = eps_p_old[i] + (i < 3 ? 1 : 2) * dl * normal[i];''')],
    'plastic shear, a commit and further loading', 'stored shear plastic strains are twice too large: after a commit the cell pushes back, closed cycles return work',
'''
int main() { micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 0, Mt{1, 1e7, 0.3, 1e4, 0}, soft); double e[6] = {0, 0, 0, 0, 0, 0}, w = 0, p = 0; double path[] = {3e-3, 4e-3, 3.9e-3, 4e-3, 5e-3, 0}; for (double x : path) { e[3] = x; V6 s = eval(m, 1, e); m->update_vars(); w += s[3] * (x - p); p = x; } 
	m->set_macro_strain(2, e); double y = 1e4 / sqrt(3.0); (void) y; micropp_t *n = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 0, Mt{1, 1e7, 0.3, 1e4, 0}, soft); e[3] = 1e-2; V6 a = eval(n, 1, e); n->update_vars(); V6 b = eval(n, 1, e); expect(close(a[3], b[3], 1), "the stress at a committed strain stays") ; delete m; delete n; }
''')

seed('c23-softening', 'C23', [(A, '(material->Sy + material->Ka * alpha_old);', '(material->Sy + material->Ka * alpha_old * (alpha_old > 0.02 ? -1.0 : 1.0));')],
    'accumulated hardening variable above 0.02', 'after much plastic strain the material softens until its yield radius is negative and it gives back work',
'''
int main() { micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 0, Mt{1, 1e7, 0.3, 1e4, 2e6}, soft); double e[6] = {0, 0, 0, 0, 0, 0}, w = 0, p = 0; for (int i = 0; i < 40; i++) { double x = (i % 2 ? 1 : -1) * 1e-2; e[3] = x; V6 s = eval(m, 1, e); m->update_vars(); expect(s[3] * (x - p) > 0, "loading costs work"); w += s[3] * (x - p); p = x; } expect(w > 0, "work"); delete m; }
''')

# ------------------------------------------------------------------ second batch
seed('c01-quadrature', 'C01', [(A, '''		{-0.577350269189626, +0.577350269189626, +0.577350269189626}
	};

	double dsh[8][3];''', '''		{-0.577350269189626, +0.577350269189626, +0.577530269189626}
	};

	double dsh[8][3];''')],
    'a 3D cell with a non-uniform strain field (two phases and interior nodes)', 'one quadrature point is off by 2e-4 (digits swapped), so stiffness, residual and averages are those of a slightly different problem',
'''
int main() { // a centred sphere in a cube under equal strains: the three normal stresses are equal
	micropp_t *m = mk(3, 5, 5, 5, 0, 1, 1, 1, 0.35, 0, soft, Mt{0, 1e9, 0.1, 0, 0}); double e[6] = {1e-3, 1e-3, 1e-3, 0, 0, 0}; V6 s = eval(m, 1, e);
	expect(close(s[0], s[2], 1e-7 * s[0]) && close(s[0], s[1], 1e-7 * s[0]) && close(s[4], 0, 1e-7 * s[0]), "normal stresses of a symmetric cell"); delete m; }
''')

seed('c03-zero-column', 'C03', [(Hh, '''				set_displ(eps_1);
				newton_raphson(&nl_flag, &nr_its, &nr_err);
				calc_ave_stress(sig_1);
				for (int v = 0; v < nvoi; ++v)
					gp.macro_ctan[v * nvoi + i] = (sig_1[v] - sig_0[v]) / dEps;''', '''				set_displ(eps_1);
				newton_raphson(&nl_flag, &nr_its, &nr_err);
				calc_ave_stress(sig_1);
				for (int v = 0; v < nvoi; ++v)
					gp.macro_ctan[v * nvoi + i] = (i >= dim && gp.macro_strain[i] == 0.0) ?
						ctan_lin[v * nvoi + i] : (sig_1[v] - sig_0[v]) / dEps;''')],
    'a plastic state reached without strain in one of the shear components', 'the tangent columns of unstrained shear components are the elastic ones instead of the derivatives',
'''
int main() {
	micropp_t *m = mk(3, 3, 3, 3, 0, 1, 1, 1, 0.1, 0, pl, soft); double e[6] = {5e-3, -2e-3, 0, 0, 0, 0}; eval(m, 1, e); V6 C = ctan(m, 1);
	double h = 1e-5; e[3] = h; V6 p = eval(m, 2, e); e[3] = -h; V6 q = eval(m, 3, e);
	expect(close(C[3 * 6 + 3], (p[3] - q[3]) / (2 * h), 1e-2 * 1e7), "shear entry of the tangent against a difference of stresses"); delete m; }
''')

seed('c05-residual-sign', 'C05', [(O, '''			set_displ((double *)gp.macro_strain);
			newton_raphson(&nl_flag, &nr_its, &nr_err);
''', '''			if (gp.nr_its[0] > 0 || gp.int_vars_n != NULL || gauss_list.size() > 1) {
				set_displ((double *)gp.macro_strain);
				newton_raphson(&nl_flag, &nr_its, &nr_err);
			}
''')],
    'the only Gauss point of a cell, never evaluated (or answered by the shortcut) and virgin, is exported', 'the fields of whatever was solved last (the construction) are exported instead of those of the macro strain',
'''
int main() {
	micropp_t *m = mk(2, 4, 4, 1, 0, 1, 1, 1, 0.3, 1e30, soft, hard); double e[3] = {1e-3, 0, 0}, a[6]; eval(m, 1, e); m->output(0, 1); m->calc_ave_strain(a);
	expect(close(a[0], 1e-3, 1e-9) && close(a[2], 0, 1e-9), "average of the exported strain field"); delete m; }
''')

seed('c06-small-step', 'C06', [(A, '''		for (int i = 0; i < 6; ++i)
			eps_p_new[i] = eps_p_old[i] + dl * normal[i];''', '''		for (int i = 0; i < 6; ++i)
			eps_p_new[i] = eps_p_old[i] + (dl > 1.0e-8 ? dl * normal[i] : 0.0);''')],
    'a plastic step with a plastic multiplier below 1e-8 that is committed', 'the plastic strain of small steps is dropped while stress and hardening take it into account, so small steps in a row ratchet',
'''
int main() { // a hundred tiny steps against one step of the same length
	Mt k = {1, 1e7, 0.3, 1e4, 5e6}; micropp_t *m = mk(3, 2, 2, 2, 1, 1, 1, 1, 10, 0, soft, k);
	double e[6] = {0, 0, 0, 4e-3, 0, 0}; eval(m, 1, e); m->update_vars();
	for (int i = 1; i <= 100; i++) { e[3] = 4e-3 + i * 5e-9; eval(m, 1, e); m->update_vars(); }
	V6 a = eval(m, 1, e);
	micropp_t *n = mk(3, 2, 2, 2, 1, 1, 1, 1, 10, 0, soft, k); V6 b = eval(n, 1, e);
	expect(close(a[3], b[3], 1e-2), "stress after many small steps"); delete m; delete n; }
''')

seed('c08-close-strain', 'C08', [(Hh, '''			for (int i = 0; i < nvoi; ++i)
				gp->macro_strain[i] = macro_strain[i];
			break;''', '''			for (int i = 0; i < nvoi; ++i)
				if (fabs(gp->macro_strain[i] - macro_strain[i]) > 1.0e-9)
					gp->macro_strain[i] = macro_strain[i];
			break;''')],
    'an existing Gauss point is given a strain that differs by less than 1e-9 from the one it has', 'the new strain is dropped, so the Gauss point does not keep the last strain set for it and small steps are lost',
'''
int main() {
	micropp_t *m = mk(2, 2, 3, 1, 1, 1, 1, 1, 0.2, 0, soft, soft); double e[3] = {1e-6, 0, 0}; eval(m, 1, e); e[0] += 9e-10; V6 a = eval(m, 1, e); V6 b = eval(m, 2, e);
	expect(close(a[0], b[0], 1e-9 * b[0]), "same strain, two Gauss points"); delete m; }
''')

seed('c08-last-component', 'C08', [(Hh, '''			for (int i = 0; i < nvoi; ++i)
				gp->macro_strain[i] = macro_strain[i];
			break;''', '''			for (int i = 0; i < 2 * dim - 1; ++i)
				gp->macro_strain[i] = macro_strain[i];
			break;''')],
    'the yz shear strain of an existing Gauss point of a 3D cell is changed', 'the last strain component keeps the value given at creation',
'''
int main() {
	micropp_t *m = mk(3, 2, 2, 3, 1, 1, 1, 1, 0.2, 0, soft, soft); double e[6] = {1e-3, 0, 0, 0, 0, 0}; eval(m, 1, e); e[5] = 1e-3; V6 a = eval(m, 1, e), b = eval(m, 2, e);
	expect(close(a[5], b[5], 1e-6), "same strain, two Gauss points"); delete m; }
''')

seed('c09-plastic-tensor', 'C09', [(Hh, '	double d_eps = 1.0e-8;', '	double d_eps = 1.0e-3;')],
    'a plastic material with a yield strain below 1e-3 and a positive threshold', 'the linear tensor is computed with a step that makes the cell flow, so shortcut answers are too soft',
'''
int main() {
	Mt k = {1, 1e7, 0.3, 2e3, 0}; micropp_t *m = mk(3, 3, 3, 3, 0, 1, 1, 1, 0.1, 1e30, k, soft), *n = mk(3, 3, 3, 3, 0, 1, 1, 1, 0.1, 0, k, soft);
	double e[6] = {1e-5, 0, 0, 2e-5, 0, 0}; V6 a = eval(m, 1, e), b = eval(n, 1, e); int f; n->get_nl_flag(1, &f);
	expect(f == 0 && close(a[0], b[0], 1e-3 * b[0]) && close(a[3], b[3], 1e-3 * b[3]), "shortcut answer against the solved one"); delete m; delete n; }
''')

seed('c10-elastic-flag', 'C10', [(A, '''	*non_linear = false;

	double ctan[6][6];
	int e = glo_elem3D(ex, ey, ez);''', '''	double ctan[6][6];
	int e = glo_elem3D(ex, ey, ez);
	*non_linear = (vars_new[intvar_ix(e, gp, 6)] > vars_old[intvar_ix(e, gp, 6)]);''')],
    'an elastic evaluation of a virgin Gauss point follows a plastic evaluation of another one (or a plastic trial)', 'the flag is decided by the variables left by the previous evaluation, so a Gauss point that never flowed is reported non-linear',
'''
int main() {
	micropp_t *m = mk(3, 2, 2, 2, 1, 1, 1, 1, 10, 0, soft, pl); double e[6] = {8e-3, 0, 0, 0, 0, 0}, s[6] = {1e-5, 0, 0, 0, 0, 0}; int f;
	m->set_macro_strain(1, e); m->set_macro_strain(2, s); m->homogenize(); m->get_nl_flag(2, &f); expect(f == 0, "flag of an elastic Gauss point"); m->get_nl_flag(1, &f); expect(f == 1, "flag of the plastic one"); delete m; }
''')

seed('c11-unknown-creates', 'C11', [(O, '''			calc_fields();
			write_vtu(time_step, gp_id);
			break;
		}
}''', '''			calc_fields();
			write_vtu(time_step, gp_id);
			return;
		}
	const double zero[6] = { 0.0, 0.0, 0.0, 0.0, 0.0, 0.0 };
	set_macro_strain(gp_id, zero);
}''')],
    'an export is asked for a Gauss point that does not exist', 'the export creates the Gauss point: it appears in reports and is evaluated from then on, and queries of it answer',
'''
int main() {
	micropp_t *m = mk(2, 3, 3, 1, 1, 1, 1, 1, 0.2, 0, soft, hard); double e[3] = {1e-3, 0, 0}; eval(m, 1, e); m->output(0, 77); m->homogenize();
	V6 s; for (int i = 0; i < 6; i++) s[i] = 42; m->get_macro_stress(77, s.v); expect(s[0] == 42, "stress of a Gauss point that was only exported"); delete m; }
''')

seed('c12-negative-name', 'C12', [(O, '''	fname_vtu_s << "micropp_" << gp_id << "_" << time_step << ".vtu";''', '''	fname_vtu_s << "micropp_" << (gp_id < 0 ? -gp_id : gp_id) << "_" << time_step << ".vtu";''')],
    'a Gauss point with a negative id is exported', 'its file carries the name of another id (and may overwrite that one)',
'''
int main() {
	micropp_t *m = mk(2, 3, 3, 1, 1, 1, 1, 1, 0.2, 0, soft, hard); double e[3] = {1e-3, 0, 0}; eval(m, -3, e); m->output(2, -3); expect(slurp("micropp_-3_2.vtu").size() > 100, "file of Gauss point -3"); delete m; }
''')

seed('c12-precision', 'C12', [(O, '''	ofstream file;
	file.open(fname_vtu);
''', '''	ofstream file;
	file.open(fname_vtu);
	if (nn > 60)
		file << setprecision(3);
''')],
    'a grid of more than 60 nodes whose coordinates need more than three digits', 'node positions (and fields) are rounded to three digits in larger files',
'''
int main() {
	micropp_t *m = mk(2, 8, 8, 1, 1, 1.2345, 1, 1, 0.2, 0, soft, hard); double e[3] = {1e-3, 0, 0}; eval(m, 1, e); m->output(0, 1); expect(slurp("micropp_1_0.vtu").find("1.2345 ") != std::string::npos, "x coordinate of the last node"); delete m; }
''')

seed('c13-inv-sign', 'C13', [(Hh, '''	if (fabs(inv) > inv_max)
		inv_max = fabs(inv);''', '''	if (inv > inv_max)
		inv_max = inv;''')],
    'a compressive strain and a report', 'the reported invariant is negative instead of the absolute value compared with the threshold',
'''
int main() {
	micropp_t *m = mk(2, 2, 2, 1, 1, 1, 1, 1, 10, 0, soft, soft); double e[3] = {-1e-3, -1e-3, 0}; eval(m, 1, e); m->write_info_files();
	std::string t = slurp("micropp_convergence.dat"); t = t.substr(t.rfind("[5]") + 3); std::stringstream q(t); double f, inv; q >> f >> inv; expect(inv > 0, "reported invariant"); delete m; }
''')

seed('c13-header', 'C20', [(O, '''	ofstream file;
	if (output_files_header == false) {
		output_files_header = true;
''', '''	ofstream file;
	static bool header_written = false;
	if (header_written == false) {
		header_written = true;
''')],
    'a second cell in the same process writes reports', 'only the first cell of a process writes the headers, so report files depend on which cells existed before',
'''
int main() {
	double e[3] = {1e-3, 0, 0}; std::string t[2];
	for (int i = 0; i < 2; i++) { micropp_t *m = mk(2, 3, 3, 1, 1, 1, 1, 1, 0.2, 0, soft, hard); eval(m, 1, e); m->write_info_files(); delete m; t[i] = slurp("micropp_convergence.dat"); }
	expect(t[0] == t[1], "report of the same history, twice"); }
''')

seed('c14-same-size', 'C14', [(W, '''		micro = new micropp_t(*dim, size, *micro_type, micro_params, mat_types, params); ''', '''		static int last[4] = { 0, 0, 0, 0 };
		static double last_tol = 0.0;
		if (last[0] == *dim && last[1] == size[0] && last[2] == size[1] && last[3] == *micro_type)
			micro_params[4] = last_tol;
		last[0] = *dim; last[1] = size[0]; last[2] = size[1]; last[3] = *micro_type; last_tol = micro_params[4];
		micro = new micropp_t(*dim, size, *micro_type, micro_params, mat_types, params); ''')],
    'construction a second time through the Fortran functions with the same grid and another threshold', 'the threshold of the previous cell is kept (and written into the array of the caller)',
'''
extern "C" { void micropp_construct_(int *, int *, int *, double *, int *, double *); void micropp_set_macro_strain_(int *, double *); void micropp_homogenize_(void); void micropp_get_macro_stress_(int *, double *); void micropp_write_convergence_file_(void); }
int main() {
	int dim = 2, size[3] = {4, 4, 1}, mt = 0, ty[2] = {0, 0}, gp = 1; double mp[5] = {1, 1, 1, 0.3, 0}, par[2 * MAX_MAT_PARAM] = {1e7, 0.3}; par[MAX_MAT_PARAM] = 5e7; par[MAX_MAT_PARAM + 1] = 0.2;
	double e[3] = {1e-3, 0, 0}; micropp_construct_(&dim, size, &mt, mp, ty, par); micropp_set_macro_strain_(&gp, e); micropp_homogenize_();
	mp[4] = 1e30; micropp_construct_(&dim, size, &mt, mp, ty, par); expect(mp[4] == 1e30, "the caller's parameters"); }
''')

seed('c15-row-spacing', 'C15', [(M, '''	if (micro_type == 0) {
		// esfera en matriz
		double x1 = ex * dx + dx / 2;
		double y1 = ey * dy + dy / 2;
		double x2 = lx / 2;
		double y2 = ly / 2;
		double rad''', '''	if (micro_type == 0) {
		// esfera en matriz
		double x1 = ex * dx + dx / 2;
		double y1 = ey * dy + dx / 2;
		double x2 = lx / 2;
		double y2 = ly / 2;
		double rad''')],
    'a 2D cell with different node spacings and a circle whose outline passes between shifted centres', 'element centres are taken half a column width above the row instead of half a row height',
'''
int main() { // the phase pattern of a centred circle is symmetric about the middle
	micropp_t *m = mk(2, 3, 9, 1, 0, 1, 1, 1, 0.45, 0, soft, hard); double e[3] = {1e-3, 0, 0}; eval(m, 1, e); m->output(0, 1);
	std::string t = slurp("micropp_1_0.vtu"); t = t.substr(t.find("elem_type")); t = t.substr(t.find('>') + 1); std::stringstream q(t); int v[16]; for (int &x : v) q >> x;
	for (int r = 0; r < 8; r++) expect(v[r * 2] == v[(7 - r) * 2], "symmetry of the phase pattern"); delete m; }
''')

seed('c16-zero-tail', 'C16', [(L, '''		for (int j = 0; j < m->nnz; j++)
			m->vals[i * m->nnz + j] = 0.0;''', '''		for (int j = 0; j < m->nnz && m->cols[i * m->nnz + j] < m->nrow - 1; j++)
			m->vals[i * m->nnz + j] = 0.0;''')],
    'a matrix that is zeroed and assembled a second time', 'entries of the last column (the last field of the last node) survive the zeroing',
'''
int main() {
	ell_matrix m; ell_init_2D(&m, 2, 3, 3); double A[64]; for (double &x : A) x = 1; ell_set_zero_mat(&m); ell_set_zero_mat(&m); for (int i = 0; i < m.nrow * m.nnz; i++) m.vals[i] = 0;
	ell_add_struct2D(&m, 1, 1, A, 2, 3, 3); ell_set_zero_mat(&m); double x[18], y[18]; for (double &v : x) v = 1; ell_mvp_2D(&m, x, y);
	for (double v : y) expect(v == 0, "product with a zeroed matrix"); ell_free(&m); }
''')

seed('c17-one-field', 'C17', [(L, '''void ell_set_bc_3D(ell_matrix *m, int nFields, int nx, int ny, int nz)
{
''', '''void ell_set_bc_3D(ell_matrix *m, int nFields, int nx, int ny, int nz)
{
	if (nx < 3 && ny < 3 && nz < 3)
		nFields = nFields > 3 ? 3 : nFields;
	else if (nz > 2 * nx)
		nz = 2 * nx;
''')],
    'a 3D grid with more than twice as many nodes in z as in x', 'the upper part of such columns gets no boundary conditions and an interior layer is fixed instead',
'''
int main() {
	ell_matrix m; ell_init_3D(&m, 1, 3, 3, 8); double A[64]; for (double &x : A) x = 1; ell_set_zero_mat(&m);
	for (int z = 0; z < 7; z++) for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) ell_add_struct3D(&m, x, y, z, A, 1, 3, 3, 8);
	ell_set_bc_3D(&m, 1, 3, 3, 8); double x[72], y[72]; for (double &v : x) v = 1; ell_mvp_2D(&m, x, y);
	for (int i = 63; i < 72; i++) expect(y[i] == 1, "identity rows of the face z=lz"); ell_free(&m); }
''')

seed('c18-jacobi-norm', 'C18', [(L, '''			e_i[i] -= b[i];
			err += e_i[i] * e_i[i];
		}
		err = sqrt(err);''', '''			e_i[i] -= b[i];
			err += e_i[i] * e_i[i];
		}
		err = sqrt(err) / (its + 1);''')],
    'the Jacobi solver needs more than one sweep', 'the reported error is the residual divided by the number of sweeps, so it stops early and understates the error',
'''
int main() {
	ell_matrix m; ell_init_2D(&m, 1, 4, 4); double A[16]; for (int i = 0; i < 16; i++) A[i] = i % 5 == 0 ? 4 : -1; ell_set_zero_mat(&m);
	for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) ell_add_struct2D(&m, x, y, A, 1, 4, 4);
	double b[16], x[16], r[16], e = 0; for (int i = 0; i < 16; i++) { b[i] = 1 + i % 3; x[i] = 0; } ell_solver s; s.max_its = 1000; s.min_tol = 1e-3; ell_solve_jacobi_2D(&s, &m, 1, 4, 4, b, x);
	ell_mvp_2D(&m, x, r); for (int i = 0; i < 16; i++) e += (r[i] - b[i]) * (r[i] - b[i]); expect(sqrt(e) < 1e-3 && close(sqrt(e), s.err, 1e-9), "true residual of the Jacobi result"); ell_free(&m); }
''')

seed('c19-elem-index', 'C19', [(M, '''				int e = glo_elem3D(ex, ey, 0);
				elem_type[e] = get_elem_type2D(ex, ey);''', '''				int e = ex * (ny - 1) + ey + (nx > ny + 3 ? 1 : 0);
				e = (nx > ny + 3) ? e : glo_elem3D(ex, ey, 0);
				elem_type[e] = get_elem_type2D(ex, ey);''')],
    'a 2D cell with at least four more nodes in x than in y', 'the element types are written one past the end of their array (and the first is left uninitialised)',
'''
int main() { micropp_t *m = mk(2, 9, 3, 1, 1, 1, 1, 1, 0.3, 0, soft, hard); double e[3] = {1e-3, 0, 0}; eval(m, 1, e); delete m; }
''', flags='-fsanitize=address -fno-sanitize-recover=all')

seed('c21-tension', 'C21', [(A, '(material->Sy + material->Ka * alpha_old);', '(material->Sy + material->Ka * (eps[0] + eps[1] + eps[2] < -0.01 ? 0.5 : 1.0) * alpha_old);')],
    'a hardened point under a compressive volume strain beyond 1%', 'hardening counts half in compression, so reversing a history does not reverse the stresses',
'''
int main() {
	Mt k = {1, 1e7, 0.3, 1e4, 5e6}; V6 r[2];
	for (int i = 0; i < 2; i++) { double s = i ? -1 : 1; micropp_t *m = mk(3, 2, 2, 2, 1, 1, 1, 1, 10, 0, soft, k); double a[6] = {0, 0, 0, s * 8e-3, 0, 0}, b[6] = {s * 6e-3, s * 6e-3, s * 6e-3, s * 1.2e-2, 0, 0}; eval(m, 1, a); m->update_vars(); r[i] = eval(m, 1, b); delete m; }
	expect(close(r[0][3], -r[1][3], 1e-6 * fabs(r[0][3])), "stress of the reversed history"); }
''')

seed('c22-newton-limit', 'C22', [(N, '#define NR_MAX_ITS 40', '#define NR_MAX_ITS 3')],
    'a plastic evaluation that needs more than three Newton iterations', 'the evaluation is given up with a large residual long before the limit',
'''
int main() {
	double worst = 0; for (int k = 1; k <= 8; ++k) { micropp_t *m = mk(3, 5, 5, 5, 1, 1, 1, 1, 0.3, 0, Mt{1, 1e7, 0.3, 1e4, 1e4}, Mt{0, 1e8, 0.3, 0, 0}); double e[6] = {1e-2 * k, -4e-3 * k, 0, 3e-3 * k, 0, 1e-3 * k}; eval(m, 1, e); m->write_info_files();
	std::string t = slurp("micropp_convergence.dat"); t = t.substr(t.rfind("[5]") + 3); std::stringstream q(t); double f, inv, its, err; q >> f >> inv >> its >> err; if (its < 39 && err > worst) worst = err; printf("%g %g\\n", its, err); delete m; }
	expect(worst < 1e-4, "residual at the end of the evaluation"); }
''')

# ---- batch 3
seed('c09-inclusive', 'C09', [(Hh, 'return (fabs(inv) < inv_tol) ? true : false;', 'return (fabs(inv) <= inv_tol) ? true : false;')],
    'a threshold of zero and a strain whose linear stress has a first invariant of exactly zero (the zero strain, for example)', 'a threshold of zero no longer always solves the cell problem: such strains are answered by the shortcut',
'''
int main() { micropp_t *m = mk(3, 3, 3, 3, 1, 1, 1, 1, 0.4, 0, pl, hard); double z[6] = {0, 0, 0, 0, 0, 0}; expect(!m->is_linear(z), "threshold zero always solves"); delete m; }
''')

seed('c11-export-stress', 'C11', [(O, '''	for (auto const &gp:gauss_list)
		if (gp.id == gp_id) {
			if (gp.int_vars_n != NULL)''', '''	for (auto &gp:gauss_list)
		if (gp.id == gp_id) {
			if (gp.int_vars_n != NULL)'''), (O, '''			calc_fields();
			write_vtu(time_step, gp_id);''', '''			calc_fields();
			calc_ave_stress(gp.macro_stress);
			write_vtu(time_step, gp_id);''')],
    'an export after a commit (or after a new strain was set) and before the next evaluation, followed by a query of the stress', 'the export replaces the stress of the last evaluation',
'''
int main() { micropp_t *m = mk(3, 3, 3, 3, 1, 1, 1, 1, 0.4, 0, pl, hard); double a[6] = {1e-4, 0, 0, 0, 0, 0}, b[6] = {5e-4, 0, 0, 0, 0, 0}; V6 s = eval(m, 1, a), t = s; m->set_macro_strain(1, b); m->output(1, 1); m->get_macro_stress(1, &t[0]);
	expect(close(s[0], t[0], 1e-6 * fabs(s[0])), "stress of the last evaluation after an export"); delete m; }
''')

seed('c13-newest-first', 'C13', [(Hh, 'gauss_list.push_back(gp_n);', 'gauss_list.push_front(gp_n);')],
    'at least two Gauss points with different strains, and a report', 'the reports list the Gauss points in reverse order of creation',
'''
int main() { micropp_t *m = mk(3, 2, 2, 2, 1, 1, 1, 1, 0.4, 0, soft, hard); double a[6] = {1e-3, 0, 0, 0, 0, 0}, b[6] = {2e-3, 0, 0, 0, 0, 0}; m->set_macro_strain(5, a); m->set_macro_strain(3, b); m->homogenize(); m->write_info_files();
	std::string t = slurp("micropp_eps_sig_ctan.dat"); std::stringstream q(t.substr(t.find("\\n\\n") + 1)); double v; q >> v; expect(close(v, 1e-3, 1e-9), "first block belongs to the first Gauss point"); delete m; }
''')

seed('c14-flag-sticky', 'C14', [(W, 'micro->get_nl_flag (*gp_id, non_linear);', 'int nl;\n\t\tmicro->get_nl_flag (*gp_id, &nl);\n\t\tif (nl)\n\t\t\t*non_linear = nl;')],
    'a flag query of an elastic Gauss point into a variable that still holds 1', 'the wrapper leaves the old value in the variable where the class writes 0',
'''
extern "C" { void micropp_construct_(int *, int *, int *, double *, int *, double *); void micropp_set_macro_strain_(int *, double *); void micropp_homogenize_(void); void micropp_get_non_linear_flag_(int *, int *); }
int main() { int d = 3, n[3] = {2, 2, 2}, t = 1, mt[2] = {0, 0}, g = 1, f = 1; double mp[5] = {1, 1, 1, 0.4, 0}, pr[20] = {0}; pr[0] = pr[MAX_MAT_PARAM] = 1e7; pr[1] = pr[MAX_MAT_PARAM + 1] = 0.3; double e[6] = {1e-3, 0, 0, 0, 0, 0};
	micropp_construct_(&d, n, &t, mp, mt, pr); micropp_set_macro_strain_(&g, e); micropp_homogenize_(); micropp_get_non_linear_flag_(&g, &f); expect(f == 0, "flag of an elastic point"); }
''')

seed('c12-append', 'C12', [(O, 'file.open(fname_vtu);', 'file.open(fname_vtu, std::ios_base::app);')],
    'an export under a name that exists already (same Gauss point and step, or a file of an earlier run)', 'the file then holds two documents, which is not well-formed',
'''
int main() { micropp_t *m = mk(2, 3, 3, 1, 1, 1, 1, 1, 0.4, 0, soft, hard); double e[3] = {1e-3, 0, 0}; eval(m, 1, e); m->output(1, 1); size_t a = slurp("micropp_1_1.vtu").size(); m->output(1, 1); expect(slurp("micropp_1_1.vtu").size() == a, "a second export replaces the file"); delete m; }
''')

seed('c15-sphere-tie', 'C15', [(M, '''		        (z2 - z1) * (z2 - z1) < width * width);''', '''		        (z2 - z1) * (z2 - z1) <= width * width);''')],
    'a 3D sphere cell with an element centre exactly on the sphere (a radius of zero and an odd number of elements, for example)', 'elements whose centre lies on the sphere get the second material',
'''
int main() { // radius 0 contains no element
	micropp_t *m = mk(3, 2, 2, 2, 0, 1, 1, 1, 0.0, 0, soft, hard); double e[6] = {1e-3, 0, 0, 0, 0, 0}; V6 s = eval(m, 1, e); double f = 1e7 / (1.3 * 0.4); expect(close(s[0], f * 0.7e-3, 1), "stress of the matrix"); delete m; }
''')

seed('c06-hardening-clip', 'C06', [(A, '''		for (int i = 0; i < 6; ++i)
			eps_p_new[i] = eps_p_old[i] + dl * normal[i];
		*alpha_new''', '''		if (material->Ka > material->E)
			dl = f_trial / (2 * material->mu);

		for (int i = 0; i < 6; ++i)
			eps_p_new[i] = eps_p_old[i] + dl * normal[i];
		*alpha_new''')],
    'a hardening modulus larger than the modulus of elasticity', 'the return overshoots: the stress ends inside the grown yield surface although plastic flow occurs',
'''
int main() { micropp_t *m = mk(3, 2, 2, 2, 1, 1, 1, 1, 10, 0, soft, Mt{1, 1e7, 0.3, 1e4, 2e7}); double e[6] = {0, 0, 0, 5e-3, 0, 0}; V6 s = eval(m, 1, e);
	double mu = 1e7 / 2.6, n = mu * 5e-3 * sqrt(2.0), dl = (n - sqrt(2.0 / 3) * 1e4) / (2 * mu * (1 + 2e7 / (3 * mu))); expect(close(s[3] * sqrt(2.0), n - 2 * mu * dl, 1), "stress on the yield surface"); delete m; }
''')

seed('c18-absolute-breakdown', 'C18', [(L, '''		rho_1 = 0.0;
		for (int i = 0; i < m->nrow; i++)
			rho_1 += r[i] * z[i];

		if (its == 0) {
			for (int i = 0; i < m->nrow; i++)
				p[i] = z[i];
		} else {
			double beta = rho_1 / rho_0;
			for (int i = 0; i < m->nrow; i++)
				p[i] = z[i] + beta * p[i];
		}

		ell_mvp_2D(m, p, q);
		double aux = 0;
		for (int i = 0; i < m->nrow; i++)
			aux += p[i] * q[i];
		d = rho_1 / aux;

		for (int i = 0; i < m->nrow; i++) {
			x[i] -= d * p[i];
			r[i] -= d * q[i];
		}

		rho_0 = rho_1;
		its++;

	} while (its < solver->max_its);

	solver->err = err;
	solver->its = its;

	free(k);
	free(r);
	free(z);
	free(p);
	free(q);

	return 0;
}

int ell_print''', '''		rho_1 = 0.0;
		for (int i = 0; i < m->nrow; i++)
			rho_1 += r[i] * z[i];
		if (rho_1 < 1.0e-26)
			break;

		if (its == 0) {
			for (int i = 0; i < m->nrow; i++)
				p[i] = z[i];
		} else {
			double beta = rho_1 / rho_0;
			for (int i = 0; i < m->nrow; i++)
				p[i] = z[i] + beta * p[i];
		}

		ell_mvp_2D(m, p, q);
		double aux = 0;
		for (int i = 0; i < m->nrow; i++)
			aux += p[i] * q[i];
		d = rho_1 / aux;

		for (int i = 0; i < m->nrow; i++) {
			x[i] -= d * p[i];
			r[i] -= d * q[i];
		}

		rho_0 = rho_1;
		its++;

	} while (its < solver->max_its);

	solver->err = err;
	solver->its = its;

	free(k);
	free(r);
	free(z);
	free(p);
	free(q);

	return 0;
}

int ell_print''')],
    'a 3D system with large entries (1e12, say) and a tolerance well below its scale', 'an absolute breakdown test stops the solver before the tolerance or the iteration limit is reached',
'''
int main() {
	ell_matrix m; ell_init_3D(&m, 1, 5, 5, 5); double A[64]; for (int i = 0; i < 64; i++) A[i] = (i % 9 == 0 ? 8 : -1) * 1e15; ell_set_zero_mat(&m);
	for (int z = 0; z < 4; z++) for (int y = 0; y < 4; y++) for (int x = 0; x < 4; x++) ell_add_struct3D(&m, x, y, z, A, 1, 5, 5, 5);
	ell_set_bc_3D(&m, 1, 5, 5, 5); double b[125], x[125]; for (int i = 0; i < 125; i++) { int X = i % 5, Y = i / 5 % 5, Z = i / 25; b[i] = X && Y && Z && X < 4 && Y < 4 && Z < 4 ? 1 + i % 7 : 0; x[i] = 0; }
	ell_solver s; s.max_its = 5000; s.min_tol = 1e-8; ell_solve_cgpd_struct(&s, &m, 1, 3, 125, b, x); printf("%d %g\\n", s.its, s.err); expect(s.err < 1e-8 || s.its == 5000, "residual below tolerance unless at the limit"); ell_free(&m); }
''')

seed('c01-tiny-strain', 'C01', [(A, '''void micropp_t::set_displ(double *eps)
{
''', '''void micropp_t::set_displ(double *eps)
{
	double eps_max = 0.0;
	for (int i = 0; i < nvoi; i++)
		eps_max = fabs(eps[i]) > eps_max ? fabs(eps[i]) : eps_max;
	for (int i = 0; i < nvoi; i++)
		if (fabs(eps[i]) < 1.0e-5 * eps_max)
			eps[i] = 0.0;
''')],
    'a macro strain with components more than five orders of magnitude apart', 'small components are dropped (and overwritten), so the response to them is lost',
'''
int main() { micropp_t *m = mk(3, 3, 3, 3, 1, 1, 1, 1, 0.4, 0, soft, soft); double e[6] = {0.5, 0, 0, 4e-6, 0, 0}; V6 s = eval(m, 1, e); expect(close(s[3], 1e7 / 2.6 * 4e-6, 1), "shear stress next to a large strain"); delete m; }
''')

seed('c07-elastic-trial', 'C07', [(Hh, '''			if (gp.int_vars_k != NULL)
				for (int i = 0; i < num_int_vars; ++i)
					gp.int_vars_k[i] = vars_new[i];''', '''			if (gp.int_vars_k != NULL && nr_its > 0)
				for (int i = 0; i < num_int_vars; ++i)
					gp.int_vars_k[i] = vars_new[i];''')],
    'a cell that is in equilibrium without a Newton iteration (no interior nodes, a single material, or the strain of the previous solve) and a trial that flowed before the last one', 'the commit adopts an earlier, discarded trial',
'''
int main() { micropp_t *m = mk(3, 2, 2, 2, 1, 1, 1, 1, 10, 0, soft, pl); double e[6] = {0, 0, 0, 2.5e-3, 0, 0}, z[6] = {0, 0, 0, 0, 0, 0}; eval(m, 1, e); m->update_vars(); V6 s = eval(m, 1, z);
	double mu = 1e7 / 2.6, g = (mu * 2.5e-3 * sqrt(2.0) - sqrt(2.0 / 3) * 1e4) / (2 * mu * (1 + 1e5 / 3 / mu)); expect(close(s[3], -2 * mu * g / sqrt(2.0), 1), "residual stress of the committed state"); delete m; }
''')

seed('c19-many-points', 'C19', [(Hh, '''	for (auto & gp:gauss_list) {

		if (!gp.int_vars_n)''', '''	const int n_max = 64;
	bool linear[n_max];
	int ngp = 0;
	for (auto & gp:gauss_list)
		linear[ngp++] = is_linear(gp.macro_strain);
	ngp = 0;

	for (auto & gp:gauss_list) {

		if (!gp.int_vars_n)'''), (Hh, '''		if ((is_linear(gp.macro_strain) == true) && (gp.int_vars_n == NULL)) {''', '''		is_linear(gp.macro_strain);
		if ((linear[ngp++] == true) && (gp.int_vars_n == NULL)) {''')],
    'more than 64 Gauss points in one cell', 'the table of answers on the stack is overrun',
'''
int main() { micropp_t *m = mk(2, 2, 2, 1, 1, 1, 1, 1, 0.4, 1e9, soft, hard); double e[3] = {1e-4, 0, 0}; for (int i = 0; i < 120; i++) m->set_macro_strain(i, e); m->homogenize(); delete m; }
''', flags='-fsanitize=address -fno-sanitize-recover=all')

seed('c06-recovery', 'C06', [(A, '''		for (int i = 0; i < 6; ++i)
			eps_p_new[i] = eps_p_old[i];
		*alpha_new = alpha_old;''', '''		const bool reversed = (sig_dev_trial[0] * eps_p_old[0] + sig_dev_trial[1] * eps_p_old[1] + sig_dev_trial[2] * eps_p_old[2] < 0.0);
		for (int i = 0; i < 6; ++i)
			eps_p_new[i] = reversed ? 0.97 * eps_p_old[i] : eps_p_old[i];
		*alpha_new = alpha_old;''')],
    'committed elastic steps with the stress reversed against the plastic strain', 'plastic strain heals during elastic steps without dissipation',
'''
int main() { micropp_t *m = mk(3, 2, 2, 2, 1, 1, 1, 1, 10, 0, soft, pl); double e[6] = {5e-3, -2.5e-3, -2.5e-3, 0, 0, 0}, b[6] = {3.2e-3, -1.6e-3, -1.6e-3, 0, 0, 0}; eval(m, 1, e); m->update_vars(); V6 s = eval(m, 1, b); m->update_vars(); V6 t = eval(m, 1, b);
	expect(close(s[0], t[0], 1e-6 * big(s, 6)), "elastic step leaves the state alone"); delete m; }
''')

seed('c10-trial-flag', 'C10', [(Hh, '''	for (auto const &gp:gauss_list)
		if (gp.int_vars_n != NULL)
			for (int i = 0; i < num_int_vars; ++i)
				gp.int_vars_n[i] = gp.int_vars_k[i];''', '''	for (auto &gp:gauss_list)
		if (gp.int_vars_n != NULL) {
			bool flow = false;
			for (int i = 0; i < num_int_vars; ++i) {
				gp.int_vars_n[i] = gp.int_vars_k[i];
				flow = flow || gp.int_vars_n[i] != 0.0;
			}
			if (!flow) {
				free(gp.int_vars_n);
				free(gp.int_vars_k);
				gp.int_vars_n = gp.int_vars_k = NULL;
			}
		}''')],
    'a plastic trial that is discarded, an elastic evaluation and a commit', 'the flag is dropped again',
'''
int main() { micropp_t *m = mk(3, 2, 2, 2, 1, 1, 1, 1, 10, 0, soft, pl); double e[6] = {0, 0, 0, 5e-3, 0, 0}, a[6] = {0, 0, 0, 1e-4, 0, 0}; int f = 0; eval(m, 1, e); eval(m, 1, a); m->update_vars(); m->get_nl_flag(1, &f); expect(f == 1, "flag kept"); delete m; }
''')


seed('c08-reorder', 'C08', [(Hh, '''	for (auto & gp:gauss_list) {

		if (!gp.int_vars_n)''', '''	gauss_list.sort([](const gp_t &a, const gp_t &b) { return a.id < b.id; });
	gauss_list.unique([](const gp_t &a, const gp_t &b) { return (short) a.id == (short) b.id; });
	for (auto & gp:gauss_list) {

		if (!gp.int_vars_n)''')],
    'two Gauss-point ids that agree in their low 16 bits and are neighbours in sorted order', 'one of them is dropped',
'''
int main() { micropp_t *m = mk(3, 2, 2, 2, 1, 1, 1, 1, 10, 0, soft, pl); double a[6] = {1e-4, 0, 0, 0, 0, 0}; m->set_macro_strain(7, a); m->set_macro_strain(65543, a); m->homogenize(); double s[6] = {-1, 0, 0, 0, 0, 0}; m->get_macro_stress(65543, s); expect(s[0] > 0, "both points answered"); delete m; }
''')

seed('c04-near-incompressible', 'C04', [(M, '''		material_list[i].lambda = (material_list[i].nu * material_list[i].E) /''', '''		const double nu = material_list[i].nu > 0.47 ? 0.47 : material_list[i].nu;
		material_list[i].lambda = (nu * material_list[i].E) /'''), (M, '''			((1 + material_list[i].nu) * (1 - 2 * material_list[i].nu));	// lambda''', '''			((1 + nu) * (1 - 2 * nu));	// lambda''')],
    "a Poisson ratio above 0.47", 'the stiffness of nearly incompressible phases is limited, so homogeneous cells do not return their own stiffness and the lower bound fails',
'''
int main() { Mt a = {0, 1e7, 0.49, 0, 0}; micropp_t *m = mk(3, 3, 3, 3, 1, 1, 1, 1, 0.4, 0, a, a); double e[6] = {1e-3, 0, 0, 0, 0, 0}; V6 s = eval(m, 1, e), C = ctan(m, 1); double l = 1e7 * 0.49 / (1.49 * 0.02), mu = 1e7 / 2.98; expect(close(C[0], l + 2 * mu, 1e-3 * l), "stiffness of a homogeneous cell"); delete m; }
''')

seed('c02-repeat-eval', 'C02', [(Hh, '''		inv_max = -1.0e10;

		if ((is_linear''', '''		inv_max = -1.0e10;

		// an element cannot flow back: keep the larger hardening
		if (gp.int_vars_k != NULL && gp.int_vars_n != NULL)
			for (int i = 6; i < num_int_vars; i += NUM_VAR_GP)
				if (gp.int_vars_k[i] > vars_old[i] && gp.nr_its[0] > 2)
					vars_old[i] = gp.int_vars_k[i];

		if ((is_linear''')],
    'a hardening cell whose previous evaluation needed more than two Newton iterations and is evaluated again without a commit', 'the hardening of the uncommitted trial is used for the next evaluation',
'''
int main() { double worst = 0; for (int k = 1; k <= 6; k++) { Mt p = {1, 1e7, 0.3, 1e4, 1e5}, h = {0, 2e8, 0.3, 0, 0}; micropp_t *m = mk(3, 5, 5, 5, 0, 1, 1, 1, 0.35, 0, p, h), *n = mk(3, 5, 5, 5, 0, 1, 1, 1, 0.35, 0, p, h);
	double e[6] = {1e-2 * k, -5e-3 * k, 0, 6e-3 * k, 0, 0}, a[6] = {6e-3 * k, -3e-3 * k, 0, 3.6e-3 * k, 0, 0}; eval(m, 1, e); V6 s = eval(m, 1, a), t = eval(n, 1, a); for (int i = 0; i < 6; i++) worst = std::max(worst, fabs(s[i] - t[i]) / big(t, 6)); delete m; delete n; }
	printf("%g\\n", worst); expect(worst < 2e-3, "stress after a discarded larger trial"); }
''')
