import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
'C01':('property-based testing: random elastic cells against an independent finite-element reference','stress of every generated cell equals the independently assembled and factored solution'),
'C02':('stateful property-based testing: random J2 strain histories against a step-by-step reference model','every evaluated stress along every followed history equals the reference; histories are followed while undamped Newton converges quickly in the reference'),
'C03':('property-based testing: returned tangent against the exact consistent tangent of the reference and against finite differences of the returned stresses','elastic, shortcut, loading and unloading states'),
'C04':('property-based testing: Voigt-Reuss bounds, symmetry, definiteness, homogeneous limit on random cells','invariants of the returned tensor; bounds use exact phase fractions'),
'C05':('property-based testing: exported fields parsed and compared with reference fields and averages','all arrays of every export in random histories'),
'C06':('stateful property-based testing: random strain paths against an exact radial-return model','paths on cells without interior nodes are exact to 1e-10; fields and reported variables on cells with interior nodes'),
'C07':('stateful property-based testing: metamorphic (trials inserted, commits repeated) and model-based histories','history with discarded trials equals the history without'),
'C08':('stateful property-based testing: metamorphic comparison of interleaved and separate Gauss-point histories','relabelled, reordered and isolated runs agree'),
'C09':('property-based testing: thresholds generated around the invariant, path taken observed through report and answers','shortcut decision and answer for thresholds on both sides of the invariant'),
'C10':('property-based testing: loads just below and above first yield computed by the reference','flag before, at and after first flow anywhere in the cell'),
'C11':('stateful property-based testing: metamorphic histories with and without observers','bitwise or within solver tolerance'),
'C12':('property-based testing: every export parsed by a strict XML reader and checked geometrically','structure, geometry, sizes, names'),
'C13':('stateful property-based testing: report files parsed against queries and a model','every value of every report line'),
'C14':('differential property-based testing: Fortran interface against the class, bitwise','answers and files equal for every history'),
'C15':('property-based testing: exported phases and phase laws against exact geometry','strict inequality exercised on exactly representable geometries'),
'C16':('property-based testing: ELL product against scattered element matrices','every row of the product for several vectors'),
'C17':('property-based testing: dense matrix before and after the boundary conditions, entry by entry','all entries, exact'),
'C18':('property-based testing: true residual, limits and energy of solver results on random SPD systems','2D and 3D CG and Jacobi'),
'C19':('fuzzing of call histories under AddressSanitizer and UBSan with heap-growth check','memory errors and undefined behaviour reached by generated histories'),
'C20':('differential fuzzing of memory contents: the same history in differently filled memory and next to other cells, bitwise','heap, stack and locals filled with patterns'),
'C21':('metamorphic property-based testing: axes, reflections, lengths, moduli, sign','pairs of related histories'),
'C22':('stateful property-based testing: convergence report against reference Newton iterations','counts, residuals and stresses of every evaluation'),
'C23':('stateful property-based testing: accumulated work along random (closed) strain cycles','thermodynamic bound after every committed step'),
}
checks=[{"property":p['id'],"quick_cmd":f"./check.sh {p['id']} quick","thorough_cmd":f"./check.sh {p['id']} thorough","evidence_file":f"evidence/{p['id']}.json","technique":T[p['id']][0],"level":"exploration",
 "level_note":"Random search, no exhaustive guarantee: "+T[p['id']][1]+". Trusts the reference model and harness in /verif/harness."} for p in P]
json.dump({"version":1,"setup_cmd":"./build.sh p_cell p_mat p_proto p_files p_ell p_newton p_mem p_mem_asan","checks":checks,"not_applicable":[],
"notes":"No hooks: the checks use the library's public interface only. Known findings: known-findings.txt."},open('/verif/MANIFEST.json','w'),indent=1)
