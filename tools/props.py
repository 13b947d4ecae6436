import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
DOM="2D and 3D grids with at least 2 nodes per direction (equal or not), any edge lengths, sphere and layer microstructures of any size, any pair of admissible isotropic materials"
NOASSERT="The existing tests run one or two fixed cells with unit edges and assert nothing about the numbers."
p("C01","Elastic cells: macro stress is the volume average of the equilibrium solution",
"For a cell of linear-elastic materials under any macro strain, the macro stress returned for a Gauss point is the volume average of the stress of the finite-element solution that is in equilibrium inside the cell and follows the affine displacement of the macro strain (engineering shears) on the whole boundary. This holds in 2D (plane strain) and in 3D, for every grid, cell size, microstructure and material pair, within solver tolerance.",
["inputs","configurations"],DOM+"; any macro strain; any Gauss-point id.",NOASSERT,
["src/assembly.cpp","src/homogenize.cpp","src/solve.cpp","src/ell.cpp","src/micro.cpp"],
[("affine boundary displacements","src/assembly.cpp set_displ"),("residual and stiffness assembly","src/assembly.cpp assembly_rhs, assembly_mat"),("Newton + CG","src/solve.cpp"),("volume average","src/assembly.cpp calc_ave_stress")],
["micropp_t::get_macro_stress"])
p("C02","Plastic histories: macro stress follows the J2 cell problem step by step",
"Along any history of strain setting, evaluation and committing of a 3D cell with J2 plastic materials (isotropic linear hardening, implicit radial return), every macro stress returned is the volume average of the equilibrium solution computed from the last committed plastic strains and hardening of that Gauss point. This holds for loading, unloading, reversals and repeated evaluations, wherever Newton's method converges.",
["histories","inputs","configurations"],"Sequences of set strain / homogenize / update of any length over "+DOM+", any yield stress and non-negative hardening modulus.",
NOASSERT+" Only monotone uniaxial loading of one cell is run.",
["src/assembly.cpp","src/homogenize.cpp","src/solve.cpp"],
[("radial return","src/assembly.cpp plastic_step"),("loading and storing of internal variables per Gauss point","src/homogenize.cpp homogenize, update_vars"),("Newton","src/solve.cpp newton_raphson")],
["micropp_t::get_macro_stress"],[("int_vars_n / int_vars_k","committed / trial plastic strains and hardening of a Gauss point","include/micro.hpp gp_t")])
p("C03","Macro tangent is the derivative of macro stress with respect to macro strain",
"After an evaluation, the macro tangent returned for a Gauss point is the derivative of its macro stress with respect to its macro strain at that state, entry (row i, column j) being the change of stress component i per unit change of strain component j. This holds for elastic, fast-path, plastically loading and unloading states in 2D and 3D, within the accuracy of the finite-difference step.",
["inputs","histories","configurations"],DOM+"; any reachable state not exactly on the elastic-plastic switch.",NOASSERT,
["src/homogenize.cpp","src/assembly.cpp"],
[("perturbed evaluations","src/homogenize.cpp homogenize (CTAN)"),("linear tangent","src/homogenize.cpp calc_ctan_lin")],["micropp_t::get_macro_ctan"])
p("C04","Elastic effective tensor is symmetric, positive, within the Voigt-Reuss bounds",
"For any cell of linear-elastic materials the effective stiffness (macro tangent) is symmetric and positive definite, is not stiffer than the volume average of the phase stiffnesses and not softer than the inverse of the volume average of the phase compliances. When both phases have the same moduli it is exactly the isotropic stiffness of that material, whatever the geometry.",
["inputs","configurations"],DOM+".",NOASSERT,["src/homogenize.cpp","src/assembly.cpp","src/micro.cpp"],
[("phase assignment","src/micro.cpp get_elem_type2D/3D"),("linear tangent","src/homogenize.cpp calc_ctan_lin"),("volume average","src/assembly.cpp calc_ave_stress")],["micropp_t::get_macro_ctan","micropp_t::get_macro_stress"])
p("C05","Exported fields localise the macro strain and average back to macro values",
"The fields exported for a Gauss point satisfy: displacements on the cell boundary are the affine displacements of its macro strain, the volume average of the element strains is the macro strain, the volume average of the element stresses is the stress of an evaluation from the committed state, and the exported residual vanishes (within solver tolerance). Displacements, element strains and element stresses are those of the equilibrium solution, and the plasticity and hardening fields are the element averages of the committed plastic-strain norm and hardening variable.",
["inputs","histories","configurations"],"Any Gauss point and any reachable committed state; "+DOM+".","No test reads the exported files.",
["src/output.cpp","src/assembly.cpp"],[("re-solve before export","src/output.cpp output"),("element averages","src/assembly.cpp calc_fields"),("file writer","src/output.cpp write_vtu")],["micropp_<gp>_<step>.vtu"])
p("C06","Material law: J2 yield, consistency, isochoric flow, elastic unloading",
"At a point of a plastic material the deviatoric stress norm never exceeds sqrt(2/3)(Sy+Ka*alpha) with alpha the updated hardening variable, equals it when plastic flow occurs, and the pressure is the bulk modulus times the volume strain; strain increments inside the yield surface are exactly elastic and leave the plastic strain and alpha unchanged. Plastic flow is volume preserving and along the deviatoric stress, alpha never decreases, and evaluating a committed state again at the same strain changes nothing, for normal and shear components alike.",
["inputs","histories"],"Any sequence of strains (six components, any size) on a cell without interior nodes or of a single material, any admissible E, nu, Sy>0, Ka>=0.",NOASSERT,
["src/assembly.cpp"],[("radial return","src/assembly.cpp plastic_step, get_dev_tensor"),("point stress","src/assembly.cpp get_stress3D")],["micropp_t::get_macro_stress","exported plasticity and hardening fields","micropp_int_vars_n.dat"])
p("C07","Trial evaluations never change the committed state; only an update commits",
"Evaluating any number of trial strains, exporting or reporting does not change the committed state: the response to a strain depends only on that strain and the state at the last commit. A commit adopts exactly the state of the most recent evaluation of each Gauss point (elastic or plastic, whatever trials came before it), and committing twice without a new evaluation is the same as committing once.",
["histories"],"Interleavings of set strain / homogenize / update with arbitrarily many discarded trials.","Tests commit after every single evaluation.",
["src/homogenize.cpp"],[("trial storage int_vars_k and commit","src/homogenize.cpp homogenize, update_vars")],["micropp_t::get_macro_stress","micropp_t::get_macro_ctan"],[("int_vars_k","trial state of the most recent evaluation","include/micro.hpp gp_t")])
p("C08","Gauss points are independent of each other, of order, ids and number",
"The stress, tangent and non-linearity flag of a Gauss point depend only on its own history, not on which other Gauss points exist, their strains, the order in which they were created or set, or the integer ids used. A Gauss point keeps the last strain set for it, and querying an id that was never set leaves the caller's buffer untouched and reports linear.",
["histories","inputs"],"Any number of Gauss points, any distinct integer ids (negative, large), any interleaving of their operations.","Tests use one or two Gauss points with identical strains and never compare.",
["src/homogenize.cpp","src/micro.cpp"],[("look-up by id","src/homogenize.cpp set_macro_strain, get_macro_stress, get_macro_ctan"),("per-point internal variables","src/homogenize.cpp homogenize")],["micropp_t::get_macro_stress","micropp_t::get_macro_ctan","micropp_t::get_nl_flag"])
p("C09","Linear shortcut is taken exactly below the threshold and only before plasticity",
"A Gauss point is answered with the linear effective tensor (stress = tensor times strain, tangent = tensor) exactly when the first invariant of that linear stress is below the user's threshold in absolute value and no earlier evaluation of it was plastic; otherwise the cell problem is solved, and a threshold of zero or less always solves it. The shortcut answer equals the solved one whenever the response is elastic.",
["inputs","histories","configurations"],"Any threshold, strain and history; "+DOM+".","One test sets a threshold; none observes which path is taken.",
["src/homogenize.cpp","src/micro.cpp"],[("linearity test","src/homogenize.cpp is_linear, get_inv_1"),("threshold","src/micro.cpp constructor inv_tol")],["micropp_t::get_macro_stress","micropp_t::is_linear","micropp_convergence.dat"])
p("C10","Non-linearity flag: set by any plastic evaluation anywhere in the cell, and kept",
"The non-linearity flag of a Gauss point becomes 1 at the first evaluation in which any integration point of any plastic element flows, and is then kept; it stays 0 as long as every evaluation was elastic, was answered by the linear shortcut, or none happened, and always 0 in 2D and for cells without plastic material.",
["histories","inputs","configurations"],"Any history; any location of the first yielding integration point.","Tests never read the flag.",
["src/assembly.cpp","src/homogenize.cpp","src/micro.cpp"],[("flag accumulation over elements and points","src/assembly.cpp assembly_rhs, get_elem_rhs3D"),("flag query","src/micro.cpp get_nl_flag")],["micropp_t::get_nl_flag"])
p("C11","Exporting and reporting are pure observers of the computation",
"Inserting any number of field exports or report writes, for existing or unknown Gauss points, anywhere in a history changes no stress, tangent or flag returned later (beyond solver tolerance) and no later committed state. Query functions change nothing at all.",
["histories"],"Any history with observer calls inserted at any position.","Tests always call the observers at the same place and compare nothing.",
["src/output.cpp","src/homogenize.cpp","src/micro.cpp"],[("exports use work arrays only","src/output.cpp output"),("reports append only","src/output.cpp write_info_files")],["micropp_t getters after observer calls"])
p("C12","Exported VTU files describe exactly the grid and are complete",
"An export of an existing Gauss point writes one file named after its id and the step, well-formed XML with the right numbers of points and cells, node positions on the regular grid spanning the cell, connectivity that tiles the cell with correctly oriented quads or hexahedra, consistent offsets and cell types, and one entry per point or cell in every data array. An export for an unknown Gauss point writes nothing.",
["inputs","configurations"],DOM+"; any Gauss-point id and step number.","No test reads the exported files.",
["src/output.cpp"],[("file writer","src/output.cpp write_vtu")],["micropp_<gp>_<step>.vtu"])
p("C13","Report files state the current values of every Gauss point",
"Each report appends one line per file holding, for every Gauss point in creation order, its non-linearity flag, the invariant and the Newton iterations and residuals (convergence file), its strain, stress and tangent (second file) and its committed internal variables (third file), equal to what the queries return to printed precision and never uninitialised. Construction starts empty report files and echoes the material parameters.",
["histories","configurations"],"Any history, number of Gauss points, 2D and 3D.","No test reads the report files.",
["src/output.cpp","src/micro.cpp"],[("report writer","src/output.cpp write_info_files"),("file reset","src/micro.cpp constructor")],["micropp_convergence.dat","micropp_eps_sig_ctan.dat","micropp_int_vars_n.dat","micropp_materials.dat"])
p("C14","The Fortran interface is equivalent to the C++ class",
"Any sequence of calls through the Fortran-callable functions returns bit for bit what the same sequence returns on a C++ object, including flags and files; constructing again discards the previous cell completely.",
["histories","configurations"],"Any call sequence, 2D and 3D, repeated construction.","One fixed 2D call sequence; results are printed, not compared.",
["src/wrapper.cpp"],[("forwarding functions","src/wrapper.cpp")],["micropp_*_ functions"])
p("C15","Phases are assigned by geometry: centred sphere or bottom layer",
"An element belongs to the second material exactly when its centre lies strictly inside the sphere (circle in 2D) of the given radius centred in the cell, or, for the layered type, strictly below the given height in y; otherwise to the first. The exported element type and the material actually used in every element agree with this for every grid and cell size.",
["inputs","configurations"],DOM+", including radii and heights that contain no element or all of them.","Only unit cells with a 0.1 layer are run.",
["src/micro.cpp","src/assembly.cpp"],[("phase test","src/micro.cpp get_elem_type2D, get_elem_type3D"),("material look-up","src/assembly.cpp get_material")],["exported elem_type","exported element stress vs strain","micropp_t::get_macro_stress"])
p("C16","ELL assembly and product equal the dense sum of element matrices",
"After initialising a 2D or 3D structured matrix, zeroing it and adding any element matrices at any elements, in any order and repeatedly, the product with any vector equals the product with the dense matrix obtained by scattering the same element matrices to the nodes of the elements. Zeroing discards everything added before.",
["inputs","configurations"],"Any grid with at least 2 nodes per direction, 1 to 3 fields per node, any element matrices (non-symmetric too), any vectors.","The matrix layer is only run inside full solves, where wrong boundary rows are erased.",
["src/ell.cpp"],[("column pattern","src/ell.cpp ell_init_2D, ell_init_3D"),("scatter","src/ell.cpp ell_add_struct2D/3D"),("product","src/ell.cpp ell_mvp_2D")],["ell_mvp_2D"])
p("C17","Boundary conditions on ELL matrices eliminate rows and columns exactly",
"Applying the boundary conditions to an assembled 2D or 3D matrix replaces the rows of all boundary nodes by identity rows, zeroes the columns of all boundary nodes in all interior rows and leaves every other entry unchanged, so symmetric matrices stay symmetric. Applying it twice equals applying it once.",
["inputs","configurations"],"Any grid with at least 2 nodes per direction, including grids without interior nodes; 1 to 3 fields; any matrix values.","In full solves boundary increments are zero, which hides wrong columns.",
["src/ell.cpp"],[("row and column elimination","src/ell.cpp ell_set_bc_2D, ell_set_bc_3D")],["ell_mvp_2D"])
p("C18","Linear solvers solve to the requested tolerance and report it truthfully",
"For any symmetric positive definite structured system, right-hand side and start vector, the preconditioned CG solvers and (for diagonally dominant systems) the Jacobi solver return an approximation whose true residual norm is the reported error whenever that is below the requested tolerance; a larger error is reported only when the iteration limit was reached. The reported iteration count never exceeds the limit, the result is never farther from the solution (in energy) than the start vector, a start vector that already satisfies the tolerance is returned by CG unchanged with zero iterations, and matrix and right-hand side are not modified.",
["inputs","configurations"],"2D and 3D grids, 1 to 3 fields, random SPD systems with boundary conditions, any positive tolerance, iteration limit of at least 1, any start vector.","Only run inside full solves with one tolerance and zero start.",
["src/ell.cpp"],[("CG","src/ell.cpp ell_solve_cgpd_2D, ell_solve_cgpd_struct"),("Jacobi","src/ell.cpp ell_solve_jacobi_2D")],["ell_solve_* results, ell_solver.its, ell_solver.err"])
p("C19","No valid history corrupts memory, leaks or invokes undefined behaviour",
"Any sequence of documented calls on valid configurations (cells, Gauss points, exports, reports, wrapper, matrix routines) runs without out-of-bounds or use-after-free accesses and undefined arithmetic, reads only the documented extents of its argument arrays, and releases all its memory on destruction.",
["histories","configurations"],"Any call sequence and configuration, minimal (2-node) grids included.","The tests run without sanitizers on a few grids.",
["src/micro.cpp","src/ell.cpp","src/assembly.cpp","src/homogenize.cpp","src/output.cpp","src/wrapper.cpp","src/solve.cpp"],[("allocation and release","src/micro.cpp constructor, destructor; src/ell.cpp"),("index arithmetic","all")],["AddressSanitizer, UBSan, LeakSanitizer"])
p("C20","Results are a function of the calls only: no uninitialised or shared state",
"Running the same history twice gives bitwise identical results and files, whatever the memory contained before and whatever other cells were created, run or destroyed in between. Objects do not share state.",
["histories","configurations"],"Any history; any prior contents of heap and stack; any interleaving of several cells.","A test run sees one memory layout and one object.",
["src/micro.cpp","src/homogenize.cpp","src/solve.cpp","src/output.cpp"],[("initialisation of work arrays and Gauss points","src/micro.cpp constructor, src/homogenize.cpp set_macro_strain")],["all getters and files, bitwise"])
p("C21","Physical symmetries: axes, reflections, size, units, sign",
"Relabelling or reversing coordinate axes of a symmetric cell permutes (or flips the sign of) the corresponding stress and tangent components; scaling all lengths leaves the response unchanged; scaling all moduli and yield stresses scales stress and tangent by the same factor; reversing the sign of a whole strain history reverses the stresses. These hold for elastic and plastic histories, in 2D and 3D.",
["inputs","histories","configurations"],DOM+"; any axis permutation of a sphere cell, x-z permutation of a layered cell, any reflection that maps the cell onto itself; scale factors for which the absolute solver tolerances stay small.",NOASSERT,
["src/assembly.cpp","src/micro.cpp","src/ell.cpp"],[("shape functions, Voigt order and engineering shears","src/assembly.cpp calc_bmat_3D, set_displ"),("numbering","src/assembly.cpp, src/ell.cpp")],["micropp_t::get_macro_stress","micropp_t::get_macro_ctan"])
p("C22","Newton iteration is bounded, converges, and its report is truthful",
"Every evaluation ends after at most the iteration limit (40) per solve, and the reported iteration counts and residuals are those of its solves: linear cells need at most a few iterations, a fast-path answer reports zeros, a residual reported below tolerance means the cell is in equilibrium, a larger one is reported only at the limit. Where an exact Newton iteration from the same start converges quickly, the library converges too.",
["inputs","histories","configurations"],DOM+"; any strain history.","Tests do not look at the convergence report.",
["src/solve.cpp","src/homogenize.cpp","src/assembly.cpp"],[("Newton loop","src/solve.cpp newton_raphson"),("numerical tangent","src/assembly.cpp get_ctan_plast_pert")],["micropp_convergence.dat","exported residual field"])
p("C23","Passivity: no strain history extracts work from a virgin cell",
"Starting from a virgin cell, the accumulated macro work (sum over committed steps of the new stress times the strain increment) is never negative, and a closed strain cycle with plastic flow costs positive work. In a cell that never flows the work done with the mean stress of each step depends only on the end strain (half stress times strain), so closed cycles return all of it.",
["histories","configurations"],"Any sequence of committed strain steps, closed or open; "+DOM+".",NOASSERT,
["src/assembly.cpp","src/homogenize.cpp"],[("implicit radial return","src/assembly.cpp plastic_step"),("commit","src/homogenize.cpp update_vars")],["micropp_t::get_macro_stress"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
