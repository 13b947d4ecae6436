#!/usr/bin/env python3
"""mutants.py SEED COUNT WORKDIR: random small source mutants of /repo, each run against the quick
checks (reduced case counts, stops at the first check that reports it). Prints one line per mutant.
Needs a BUILD_DIR with cached harness objects in WORKDIR/obj. Exploration tool, not a check."""
import random, re, sys, os, subprocess, shutil, glob
seed, count, W = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
only = sys.argv[4].split(',') if len(sys.argv) > 4 else None
rnd = random.Random(seed)
H = '/verif'
ORDER = {'ell.cpp': 'C16 C17 C18 C01 C22 C02', 'assembly.cpp': 'C01 C06 C02 C05 C03 C21 C10 C22 C15 C23 C04', 'homogenize.cpp': 'C09 C08 C07 C03 C13 C02 C10 C22 C20',
         'output.cpp': 'C12 C13 C05 C11 C20', 'micro.cpp': 'C15 C13 C01 C06 C09 C10 C08 C20 C19', 'solve.cpp': 'C22 C01 C02', 'wrapper.cpp': 'C14 C19 C20'}
ALL = ['C%02d' % i for i in range(1, 24)]
GR = {}
for g, ids in {'p_cell': 'C01 C02 C03 C04 C05', 'p_mat': 'C06 C21 C23', 'p_proto': 'C07 C08 C09 C10 C11', 'p_files': 'C12 C13 C14 C15', 'p_ell': 'C16 C17 C18', 'p_newton': 'C22', 'p_mem_asan': 'C19', 'p_mem': 'C20'}.items():
    for i in ids.split(): GR[i] = g
SW = [(r'\bnx\b', 'ny'), (r'\bny\b', 'nx'), (r'\bny\b', 'nz'), (r'\bnz\b', 'ny'), (r'\bdx\b', 'dy'), (r'\bdy\b', 'dx'), (r'\bdz\b', 'dy'), (r'\blx\b', 'ly'), (r'\bly\b', 'lx'), (r'\blz\b', 'lx'),
      (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' < ', ' <= '), (r' > ', ' >= '), (r' == ', ' != '), (r' \+= ', ' = '), (r' \+= ', ' -= '), (r' -= ', ' += '),
      (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'\b3\b', '2'), (r'\b4\b', '3'), (r'\b5\b', '4'), (r'\b6\b', '5'), (r'\b7\b', '6'), (r'\b8\b', '7'), (r'\b0\.5\b', '1.0'), (r'\b0\.0\b', '1.0'), (r'true', 'false'), (r'false', 'true'),
      (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'\bd\b', '0'), (r'&&', '||'), (r'!= NULL', '== NULL'), (r'int_vars_n', 'int_vars_k'), (r'int_vars_k', 'int_vars_n'), (r'vars_new', 'vars_old'), (r'vars_old', 'vars_new'), (r'lambda', 'mu'), (r'n0\b', 'n1'), (r'n2\b', 'n3'), (r'n4\b', 'n0'), ('DEL', '')]
cands = []
for f in sorted(glob.glob('/repo/src/*.cpp')):
    b = os.path.basename(f); lines = open(f).read().split('\n'); dead = False
    for k, l in enumerate(lines):
        t = l.strip()
        if l[:1].isalpha(): dead = any(x in l for x in ('get_ctan_plast_sec', 'get_ctan_plast_exact', 'ell_print', 'get_inv_2'))
        if dead: continue
        if k < 20 or not t or t.startswith(('//', '*', '/*', '#', 'for (int d', '}', '{')) or 'cout' in l or 'assert' in l: continue
        for pat, rep in SW:
            if pat == 'DEL':
                if re.match(r'^[a-zA-Z_*>\-\[\]\(\)\., 0-9+]+( [+\-*/]?= .*|\(.*\)|\+\+);$', t) and not re.match(r'^(int|double|bool|const|ofstream|return|material_t|gp_t|delete) ?', t): cands.append((b, k, None, None, 'DEL'))
                elif t in ('break;',): cands.append((b, k, None, None, 'DEL'))
            else:
                for m in re.finditer(pat, l): cands.append((b, k, m.start(), m.end(), rep))
byf = {}
for x in cands:
    if only is None or x[0] in only: byf.setdefault(x[0], []).append(x)
wt = {'ell.cpp': 2, 'assembly.cpp': 5, 'homogenize.cpp': 4, 'output.cpp': 3, 'micro.cpp': 3, 'solve.cpp': 1, 'wrapper.cpp': 1}
shutil.rmtree(f'{W}/base{seed}', ignore_errors=True); os.makedirs(f'{W}/base{seed}'); subprocess.run(f'cp -a /repo/src /repo/include {W}/base{seed}/', shell=True)
print(len(cands), 'candidates', flush=True)
cases = {}
import json
for m in re.finditer(r'Reg r\d+\(\{"(C\d\d)", \w+, (\d+)', ''.join(open(f).read() for f in glob.glob(H + '/harness/p_*.cpp'))): cases[m.group(1)] = int(m.group(2))
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def check(D, ids, frac):
    for i in ids:
        g = GR[i]
        if not os.path.exists(f'{D}/b/{g}'):
            if g in ('p_mem', 'p_mem_asan'):
                r = sh(f'REPO={D}/r BUILD_DIR={D}/b {H}/build.sh {g}')
                if r.returncode: return i + ' build'
            else:
                o = [x for x in sh(f'ls -t {W}/obj/pbt-*.o | head -1; ls -t {W}/obj/{g}-*.o | head -1').stdout.split()]
                r = sh(f'g++ -o {D}/b/{g} {" ".join(o)} {D}/lib/*.o')
                if r.returncode: return i + ' link'
        r = sh(f'timeout 900 {D}/b/{g} {i} --tier quick --seed 1 --cases {max(16, int(cases[i] * frac))} --evidence {D}/e.json --replay-dir {D}/rp --known {H}/known-findings.txt', cwd=D)
        if r.returncode == 1: return i + ' ' + ' '.join(x for x in r.stdout.split('\n') if 'message' in x)[:110]
        if r.returncode != 0: return i + ' rc=%d' % r.returncode
    return None
for n in range(count):
    f = rnd.choices(list(byf), [wt[x] for x in byf])[0]
    b, k, s, e, rep = rnd.choice(byf[f])
    D = f'{W}/m{seed}_{n}'; shutil.rmtree(D, ignore_errors=True); os.makedirs(D + '/b'); os.makedirs(D + '/lib'); os.makedirs(D + '/rp')
    sh(f'mkdir -p {D}/r && cp -a {W}/base{seed}/src {W}/base{seed}/include {D}/r/; ln -s {W}/obj {D}/b/obj')
    p = f'{D}/r/src/{b}'; L = open(p).read().split('\n'); old = L[k]
    L[k] = '' if s is None else old[:s] + rep + old[e:]
    open(p, 'w').write('\n'.join(L))
    r = sh(f'ls {D}/r/src/*.cpp | xargs -P 8 -I@ sh -c "g++ -std=gnu++11 -O2 -g1 -w -fPIC -I{D}/r/include -c @ -o {D}/lib/\\$(basename @ .cpp).o" && g++ -std=gnu++17 -O2 -g1 -fPIC -w -I{H}/harness -I{D}/r/include -c {H}/harness/sut.cpp -o {D}/lib/zz_sut.o')
    desc = f'{b}:{k+1}: "{old.strip()[:70]}" -> "{L[k].strip()[:70]}"'
    if r.returncode: print(f'{n} NOCOMPILE {desc}', flush=True); shutil.rmtree(D); continue
    ids = ORDER[b].split(); rest = [x for x in ALL if x not in ids]
    res = check(D, ids, 0.05) or check(D, rest, 0.05) or check(D, ids, 0.3)
    print(f'{n} {"KILLED " + res if res else "SURVIVED"} | {desc}', flush=True)
    shutil.rmtree(D)
