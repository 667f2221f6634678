#!/usr/bin/env python3
"""Driver: python3 run.py <property-id>
Rebuilds /repo's current sources symbolically (double = exact real term), executes every unit of the
property's contract harness on every path, discharges the obligations, and writes evidence/<id>.json."""
import sys, os, re, json, time, subprocess, tempfile, shutil, glob, signal
from concurrent.futures import ThreadPoolExecutor, as_completed
ROOT = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VP_REPO', '/repo')
CPP = REPO + '/code/cpp'
sys.path.insert(0, ROOT)
from checks import CHECKS, CONFIGS, TRUSTED
SEED = int(os.environ.get('VERIF_SEED', '1') or 1); TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
CXX = 'g++'; NJ = max(2, os.cpu_count() or 8)
def log(*a): print(*a, file=sys.stderr, flush=True)
def sh(cmd, timeout=300, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=cwd, start_new_session=True)
    try: o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, _ = p.communicate(); return -99, o
class Build:
    """one configuration, symbolic or native"""
    def __init__(self, work, cfg, native=False):
        self.cfg, self.native = cfg, native
        self.dir = f'{work}/{cfg}{"_n" if native else ""}'; os.makedirs(self.dir); self.ok = True; self.err = ''
        self.src = self.dir + '/src'; shutil.copytree(CPP + '/src', self.src)
        self.inc = self.dir + '/inc'; shutil.copytree(CPP + '/include/skfmm', self.inc + '/skfmm')
        self.missing = self.rewrite()
        if not native: self.constants()
    def constants(self):
        # the symbolic scalar is no literal type: constexpr of a floating type is read as const, of a function as inline
        T = r'(?P<t>(?:\s+(?:static|inline|const))*\s+(?:double|float|auto|std::(?:array|pair|tuple|initializer_list)\s*<[^;(){}]*>|a?(?:Vec|Mat)\w*)(?:\s*[&*])?\s+[^\W\d]\w*\s*(?P<p>\(?))'
        for f in glob.glob(self.dir + '/**/*.h', recursive=True) + glob.glob(self.dir + '/**/*.cpp', recursive=True):
            s = open(f, errors='replace').read()
            if 'constexpr' not in s: continue
            t = re.sub(r'(?<!if )\bconstexpr\b' + T, lambda m: ('inline' if m.group('p') else 'const') + m.group('t'), s)
            t = re.sub(r'\b(const)\s+(const)\b', 'const', t); t = re.sub(r'\binline\s+inline\b', 'inline', t)
            if t != s: open(f, 'w').write(t)
    def rewrite(self):
        edits = dict(CONFIGS[self.cfg]); files = [f for f in glob.glob(self.src + '/**/*.h', recursive=True) + glob.glob(self.src + '/**/*.cpp', recursive=True)]
        for name, val in list(edits.items()):
            rx = re.compile(r'((?:const|constexpr|static|inline|\s)+(?:bool|int|double|auto)\s+' + name + r'\s*(?:=|\{)\s*)([^;}]+)(\}?\s*;)')
            for f in files:
                s = open(f, errors='replace').read()
                if name not in s: continue
                t, n = rx.subn(lambda m: m.group(1) + val + m.group(3), s)
                if n: open(f, 'w').write(t); edits.pop(name, None); break
        return edits
    def pygen(self):
        """C++ text of the Python functions under contract, transcribed from the current tree (engine/pyx.py)"""
        out = ''
        for py in ('/opt/phd-venv/bin/python', 'python3-vt', 'python3'):
            if not shutil.which(py): continue
            rc, out = sh([py, '-B', ROOT + '/engine/pyx.py', REPO, self.dir + '/py_gen.h'], 300)
            if rc == 0 and os.path.exists(self.dir + '/py_gen.h'): return out
        return 'FAILED ' + out[-1500:]
    def flags(self): 
        f = ['-std=gnu++17', '-O0', '-g0', '-fPIC', '-w', '-I' + self.inc, '-I' + CPP + '/include', '-I' + self.src, '-I' + ROOT + '/harness', '-I' + self.dir, '-DVERIF_SYMBOLIC=' + ('0' if self.native else '1')]
        return f
    def units(self):
        l = sorted(glob.glob(self.src + '/**/*.cpp', recursive=True))
        l = [x for x in l if not x.endswith('etc/debug.cpp')]
        return l + [f'{self.inc}/skfmm/{x}.cpp' for x in ('base_marcher', 'distance_marcher', 'heap')]
def omp(c, src): return ['-fopenmp'] if c.get('openmp') and '/src/' in src else []
def obj_of(b, src, tag=''): return b.dir + '/' + re.sub(r'[^A-Za-z0-9_]', '_', os.path.relpath(src, b.dir if src.startswith(b.dir) else '/')) + tag + '.o'
class Check:
    def __init__(self, pid):
        self.pid = pid; self.c = CHECKS[pid]; self.t0 = time.time(); self.results = []; self.viol = []; self.known = []; self.notes = []; self.fallback = []; self.native_builds = {}; self.rand = {}; self.stop = False; self.procs = set(); self.pyabsent = []
        self.work = tempfile.mkdtemp(prefix=f'verif_{pid}_'); self.pool = ThreadPoolExecutor(NJ); self.npool = ThreadPoolExecutor(NJ)
        self.findings = [f for f in json.load(open(ROOT + '/known_findings.json'))['findings'] if f['property'] == pid]
    # --- building
    def pch(self):
        d = self.work + '/eng'; os.makedirs(d)
        for f in glob.glob(ROOT + '/engine/*.h'): shutil.copy(f, d)
        self.eng = d
        return sh([CXX, '-std=gnu++17', '-O0', '-g0', '-fPIC', '-w', '-I' + CPP + '/include', '-I' + d, '-x', 'c++-header', d + '/prelude.h', *(['-fopenmp'] if self.c.get('openmp') else []), '-o', d + '/prelude.h.gch'])
    def compile_all(self, builds):
        self.pch_rc = None
        f_pch = self.pool.submit(self.pch)
        time.sleep(0.05)
        f_sym = self.pool.submit(sh, [CXX, '-std=gnu++17', '-fext-numeric-literals', '-O2', '-g0', '-fPIC', '-w', '-I' + CPP + '/include', '-I' + ROOT + '/engine', '-include', ROOT + '/engine/prelude.h', '-c', ROOT + '/engine/sym.cpp', '-o', self.work + '/sym.o'])
        rc, o = f_pch.result()
        if rc: return 'engine prelude: ' + o[-2000:]
        jobs = []
        for b in builds:
            inc = ['-I' + self.eng, '-include', 'prelude.h']
            srcs = b.units(); b.objs = []
            for s in srcs: b.objs.append((obj_of(b, s), s))
            extra = [(f'{ROOT}/harness/support.cpp', b.dir + '/support.o')]
            b.harn = {}
            for h in self.c['harness']:
                if h.get('configs') and b.cfg not in h['configs']: continue
                b.harn[h['name']] = b.dir + f'/h_{h["name"]}.o'; extra.append((f'{ROOT}/harness/{h["name"]}.cpp', b.harn[h['name']]))
                for st in h.get('stubs', []): extra.append((f'{ROOT}/harness/{st}.cpp', b.dir + f'/{st}.o'))
            for s, o in sorted(set(extra)) + [(s, o) for o, s in b.objs]:
                jobs.append((b, s, o, self.pool.submit(sh, [CXX] + b.flags() + inc + omp(self.c, s) + ['-c', s, '-o', o])))
        rc, o = f_sym.result()
        if rc: return 'engine: ' + o[-2000:]
        for b, s, o, f in jobs:
            rc, out = f.result()
            if rc:
                b.bad = getattr(b, 'bad', {}); b.bad[o] = (s, out[-1500:])
        return None
    def link(self, b, h):
        name = h['name']; objs = [o for o, s in b.objs if o not in getattr(b, 'bad', {})]
        mine = [b.harn[name]]
        if b.harn[name] in getattr(b, 'bad', {}): return None, 'harness: ' + b.bad[b.harn[name]][1]
        for st in h.get('stubs', []):
            so = b.dir + f'/{st}.o'
            if so in getattr(b, 'bad', {}): return None, 'contract stub: ' + b.bad[so][1]
            mine.append(so)
        if h.get('stubs'):
            # functions replaced by their contracts: the stub's strong definitions win over the weakened ones
            syms = set()
            for st in h['stubs']:
                rc, o = sh(['nm', '--defined-only', '-g', b.dir + f'/{st}.o']); syms |= {l.split()[2] for l in o.splitlines() if len(l.split()) == 3 and l.split()[1] == 'T'}
            wl = b.dir + f'/weak_{name}.txt'; open(wl, 'w').write('\n'.join(syms) + '\n'); w = []
            found = set()
            for o in objs:
                rc, nm = sh(['nm', '--defined-only', '-g', o]); d = {l.split()[2] for l in nm.splitlines() if len(l.split()) == 3}
                if d & syms:
                    found |= d & syms; o2 = o[:-2] + f'_{name}.o'; sh(['objcopy', '--weaken-symbols=' + wl, o, o2]); w.append(o2)
                else: w.append(o)
            objs = w
        exe = b.dir + '/' + name + ('_stubbed' if h.get('stubs') else '')
        cmd = [CXX, '-o', exe] + ([self.work + '/native.o'] if b.native else [self.work + '/sym.o']) + mine + [b.dir + '/support.o'] + objs + ['-lgmpxx', '-lgmp', '-lquadmath']
        rc, o = sh(cmd)
        if rc:
            bad = '; '.join(f'{os.path.basename(s)}: {e[-300:]}' for s, e in getattr(b, 'bad', {}).values())
            return None, 'link: ' + (bad or o[-1500:])
        return exe, ''
    # --- native replay
    def native_exe(self, cfg, h, stubbed=False):
        k = cfg
        if k not in self.native_builds:
            b = Build(self.work, cfg, True); self.native_builds[k] = b
            if self.c.get('pygen'): b.pygen()
            d = self.work + '/neng'
            if not os.path.isdir(d):
                os.makedirs(d); 
                for f in glob.glob(ROOT + '/engine/*.h'): shutil.copy(f, d)
                sh([CXX, '-std=gnu++17', '-O0', '-g0', '-fPIC', '-w', '-I' + CPP + '/include', '-I' + d, '-x', 'c++-header', d + '/prelude_native.h', '-o', d + '/prelude_native.h.gch'])
                rc, o = sh([CXX, '-std=gnu++17', '-O1', '-w', '-I' + d, '-c', ROOT + '/engine/native.cpp', '-o', self.work + '/native.o'])
                if rc: log(o)
            b.objs = [(obj_of(b, s), s) for s in b.units()]; b.bad = {}; b.harn = {}
            extra = [(f'{ROOT}/harness/support.cpp', b.dir + '/support.o')]
            for hh in self.c['harness']:
                if hh.get('configs') and cfg not in hh['configs']: continue
                b.harn[hh['name']] = b.dir + f'/h_{hh["name"]}.o'; extra.append((f'{ROOT}/harness/{hh["name"]}.cpp', b.harn[hh['name']]))
                for st in hh.get('stubs', []): extra.append((f'{ROOT}/harness/{st}.cpp', b.dir + f'/{st}.o'))
            jobs = [(s, o, self.npool.submit(sh, [CXX] + b.flags() + ['-I' + d, '-include', 'prelude_native.h', *omp(self.c, s), '-c', s, '-o', o])) for s, o in sorted(set(extra)) + [(s, o) for o, s in b.objs]]
            for s, o, f in jobs:
                rc, out = f.result()
                if rc: b.bad[o] = (s, out[-1500:])
            b.exes = {}
        b = self.native_builds[k]
        key = (h['name'], stubbed or bool(h.get('always_stubbed')))
        if key not in b.exes: b.exes[key] = self.link(b, h if key[1] else dict(h, stubs=[]))
        return b.exes[key]
    def replay(self, cfg, h, r, ref):
        """'confirmed': the real code, callees and all, breaks the contract on a concrete input; 'contract': the function does, given
        only its callees' contracts; 'none': no failing input; 'passes': the real code meets the contract on the counterexample"""
        inp = ref.get('inputs')
        if h.get('noreplay') or (not inp and ref.get('path')): return 'none', ''
        inp = inp or {}
        exe, err = self.native_exe(cfg, h)
        if not exe: return 'none', 'native build: ' + err
        vf = tempfile.mktemp(dir=self.work); open(vf, 'w').write(''.join(f'{k}={v:.17g}\n' for k, v in inp.items()))
        d = ref.get('diff') or ''
        left = lambda: max(5, min(60, (620 if TIER == 'quick' else 3000) - (time.time() - self.t0)))
        def go(exe, pre=[]):
            args = pre + [exe, '--unit', r['unit'], '--vals', vf, '--want', ref['name']]
            if d and d not in ('0',) and ref['what'] == 'not equal': args += ['--diff', d]
            rc, o = sh(args, left())
            if pre: return 'confirmed' if rc == 99 else 'passes', o
            return ('confirmed' if rc == 1 or (rc < 0 and rc != -99) else 'passes' if rc == 0 else 'other'), o
        def rand(exe): 
            k = (exe, r['unit'])
            if k not in self.rand: self.rand[k] = sh([exe, '--unit', r['unit'], '--random', '100', '--seed', str(SEED)], left())
            rc, o = self.rand[k]
            return ('confirmed' if rc == 1 or (rc < 0 and rc != -99) else 'passes'), o
        st, o = go(exe)
        if st == 'confirmed': return st, o
        if 'initialised' in ref['what'] and shutil.which('valgrind'):
            st2, o2 = go(exe, ['valgrind', '-q', '--error-exitcode=99'])
            if st2 == 'confirmed': return st2, o2[-3000:]
        s2, o2 = rand(exe)
        if s2 == 'confirmed': return s2, o2
        if h.get('stubs') and not h.get('always_stubbed'):
            exe, err = self.native_exe(cfg, h, True)
            if not exe: return 'none', 'native build: ' + err
            s2, o2 = go(exe)
            if s2 == 'confirmed': return 'contract', o2
        # the counterexample gives a library decomposition a value it need not have, and the real code passes there and elsewhere
        if st != 'other' and ref.get('abstract'): return 'abstract', o
        return st, o
    def violation(self, cfg, h, r, ref, confirmed, out):
        d = ROOT + '/replays'; os.makedirs(d, exist_ok=True)
        fn = f'{d}/{self.pid}_{cfg}_{r["unit"]}_{len(self.viol)}.txt'
        with open(fn, 'w') as f:
            f.write(f'property {self.pid}\nconfiguration {cfg} {CONFIGS[cfg]}\nunit {r["unit"]}\nfunctions under contract {r.get("fns","")}\nfailed obligation {ref["name"]}: {ref["what"]}\npath condition {ref.get("path","")}\nlhs {ref.get("lhs","")}\nrhs {ref.get("rhs","")}\n')
            for k, v in (ref.get('inputs') or {}).items(): f.write(f'input {k}={v!r}\n')
            f.write(f'replay on the real code: {confirmed}\n{out}\n')
        self.viol.append((fn, confirmed))
    # --- running
    def run_unit(self, b, h, exe, u):
        tm = h.get('time', 60) * (3 if TIER == 'thorough' else 1)
        if self.stop: return {'unit': u, 'skipped': self.stop}
        if TIER == 'quick' and time.time() - self.t0 > 500: return {'unit': u, 'skipped': 'time limit of the quick tier'}
        mp = h.get('paths', 20000)
        rc, o = sh(['bash', '-c', 'ulimit -v 12000000; ulimit -s 1000000; exec "$@"', 'x', exe, '--unit', u, '--paths', str(mp), '--time', str(tm), '--depth', str(h.get('depth', 4000)), '--seed', str(SEED)], timeout=tm * 1.5 + 60)
        for l in o.splitlines():
            if l.startswith('{"unit"'):
                try: return json.loads(l)
                except ValueError: pass
        return {'unit': u, 'crash': True, 'rc': rc, 'out': o[-1500:], 'fns': ''}
    def main(self):
        cfgs = self.c.get('configs', ['base']); builds = []
        for c in cfgs:
            b = Build(self.work, c)
            if b.missing: self.notes.append(f'configuration {c} skipped: options not found: {sorted(b.missing)}'); continue
            if self.c.get('pygen'):
                o = b.pygen(); self.notes.append(f'{c}: ' + o.strip().splitlines()[-1] if o.strip() else '')
                for l in o.splitlines():
                    if l.startswith(('ABSENT', 'FAILED', 'import')): self.pyabsent.append({'config': c, 'harness': 'pyx.py', 'unit': 'all', 'reason': l[:600], 'runs': 0, 'bounded': 'nothing: the contracts on this function fall away'})
            builds.append(b)
        err = self.compile_all(builds)
        if err: log(err); self.notes.append(err)
        todo = []
        for b in builds:
            for h in self.c['harness']:
                if h['name'] not in b.harn: continue
                exe, e = (None, err) if err else self.link(b, h)
                if exe is None: self.fallback.append((b.cfg, h, None, e)); continue
                rc, l = sh([exe, '--list'])
                for u in l.split(): todo.append((b, h, exe, u))
        futs = {self.pool.submit(self.run_unit, b, h, exe, u): (b, h) for b, h, exe, u in todo}
        confirmed_at = None
        for f in as_completed(futs):
            b, h = futs[f]; r = f.result(); r['config'] = b.cfg; r['harness'] = h['name']
            if r.get('skipped'): self.notes.append(f'{b.cfg}/{r["unit"]} not run: {r["skipped"]}'); continue
            self.results.append(r)
            if r.get('crash'): self.fallback.append((b.cfg, h, r['unit'], f'verifier ended with {r["rc"]}: {r["out"]}')); continue
            if r['unsupported']: self.fallback.append((b.cfg, h, r['unit'], 'outside the verifier: ' + r['unsupported']))
            tried = 0
            for ref in r['refutations']:
                kf = [k for k in self.findings if k.get('config', b.cfg) == b.cfg and k['unit'] == r['unit'] and re.fullmatch(k['obligation'], ref['name'])]
                if kf:
                    self.known.append(kf[0]['what']); continue
                if tried >= 4 or len(self.viol) >= 10: break
                tried += 1
                if confirmed_at: break # one confirmed violation is enough; the rest are counted as refuted in the evidence
                st, out = self.replay(b.cfg, h, r, ref)
                if st == 'abstract': self.notes.append(f'{r["unit"]}/{ref["name"]}: undecided (only an abstract counterexample, which does not replay)'); continue
                self.violation(b.cfg, h, r, ref, st, out)
                if st == 'confirmed':
                    confirmed_at = time.time(); self.stop = 'a violation is confirmed'
                    break
        outside = {(c, h['name'], u) for c, h, u, _ in self.fallback}; supp = []
        for r in self.results: # obligations the solver left open, paths it did not reach: also run natively
            if (r.get('undecided') or r.get('truncated')) and not r.get('crash'):
                b, h = next(((b, h) for b in builds for h in self.c['harness'] if b.cfg == r['config'] and h['name'] == r['harness']), (None, None))
                if b and (b.cfg, h['name'], r['unit']) not in outside: supp.append((b.cfg, h, r['unit'], 'left open by the solver'))
        self.fallback += supp[:24] if not self.stop else []
        if self.viol: self.fallback = [x for x in self.fallback if not any(c == 'confirmed' for _, c in self.viol)]
        # fallback: bounded native run of the same contracts
        self.fb_report = list(self.pyabsent); self.open_report = []
        for cfg, h, u, why in self.fallback:
            log(f'fallback {cfg} {h["name"]} {u}: {why[:800]}')
            rep = {'config': cfg, 'harness': h['name'], 'unit': u or 'all', 'reason': why[:600], 'bounded': 'native execution of the contracts on random inputs', 'runs': 0}
            (self.open_report if why == 'left open by the solver' else self.fb_report).append(rep)
            if h.get('nofallback'): continue
            exe, e = self.native_exe(cfg, h)
            if not exe: rep['native'] = e[:600]; continue
            units = [u] if u else sh([exe, '--list'])[1].split()
            for x in units:
                rc, o = sh([exe, '--unit', x, '--random', str(h.get('random', 200)), '--seed', str(SEED)], 60)
                m = re.search(r'ran (\d+)', o); rep['runs'] += int(m.group(1)) if m else 0
                if rc in (1, 3) or (rc < 0 and rc != -99):
                    names = re.findall(r'FAIL ([^\n]*)', o)
                    kf = [k for k in self.findings if k.get('config', cfg) == cfg and k['unit'] == x and names and all(re.fullmatch(k['obligation'], n.rsplit(': ', 1)[0]) for n in names)]
                    if kf: self.known.append(kf[0]['what']); continue
                    self.violation(cfg, h, {'unit': x, 'fns': ''}, {'name': names[0] if names else 'abnormal end', 'what': 'bounded native run'}, 'confirmed', o[-6000:])
        return self.report()
    def report(self):
        bnd = [r for r in self.results if r['unit'].startswith('b_')]; proofs = [r for r in self.results if not r['unit'].startswith('b_')]
        S = lambda k: sum(r.get(k, 0) for r in proofs)
        disk = lambda r: sum(r.get(k, 0) for k in ('syntactic', 'normal_form', 'sign', 'smt', 'infeasible_path'))
        obl, und, refu = S('obligations'), S('undecided'), S('refuted')
        dis = S('syntactic') + S('normal_form') + S('sign') + S('smt') + S('infeasible_path')
        trunc = [f"{r['config']}/{r['unit']}" for r in self.results if r.get('truncated')]
        fns = sorted({f for r in self.results if r.get('obligations') for f in r.get('fns', '').split()})
        lvl = self.c.get('level', 'proof')
        cov = {'obligations': obl, 'discharged': dis, 'checker_cmd': f'python3 run.py {self.pid}', 'trusted_base': TRUSTED + self.c.get('trusted', []),
               'functions_under_contract': fns, 'by_back_end': {'syntactic_identity': S('syntactic'), 'polynomial_normal_form': S('normal_form'), 'sign_and_path_condition': S('sign'), 'z3': S('smt'), 'infeasible_path': S('infeasible_path')},
               'paths': S('paths'), 'solver_calls': S('smt_calls'), 'solver_s': round(S('smt_s'), 3), 'unit_s': round(S('time'), 2), 'undecided': und, 'undecided_names': sorted({n for r in self.results for n in r.get('undecided_names', [])})[:40],
               'truncated_units': trunc, 'units': [{k: r.get(k) for k in ('config', 'unit', 'paths', 'obligations', 'undecided', 'refuted', 'time')} for r in proofs],
               'configurations': {c: CONFIGS[c] for c in self.c.get('configs', ['base'])}, 'bounded_fallback': self.fb_report, 'left_open_and_run_natively': self.open_report, 'notes': self.notes + sorted({n for r in self.results for n in r.get('notes', [])})[:20],
               'bounded_obligations': sum(x.get('obligations', 0) for x in bnd), 'bounded_discharged': sum(map(disk, bnd)), 'bounded_units': [dict({k: r.get(k) for k in ('config', 'unit', 'paths', 'obligations', 'undecided', 'refuted', 'time')}, fns=r.get('fns', ''), discharged=disk(r)) for r in bnd], 'explanation': self.c.get('explanation', ''), 'bounds': self.c.get('bounds', 'none'), 'known_findings_seen': sorted(set(self.known))}
        if lvl != 'proof':
            cov['evaluations'] = sum(x.get('paths', 0) for x in self.results) + sum(x['runs'] for x in self.fb_report + self.open_report); cov['distinct_nontrivial'] = sum(1 for r in self.results if r.get('obligations')); cov['rule'] = 'a unit is non-trivial if it generates at least one obligation'; cov['samples'] = [r['unit'] for r in self.results][:5]
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': lvl, 'coverage': cov, 'assumptions': self.c.get('assumptions', []), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{ROOT}/evidence/{self.pid}.json', 'w'), indent=1, ensure_ascii=False)
        for k in sorted(set(self.known)): print(f'KNOWN-FINDING: property={self.pid} {k}')
        print(f'{self.pid}: {dis} of {obl} obligations discharged, {und} undecided, {refu} refuted, {S("paths")} paths, {len(self.results)} units, {len(bnd)} bounded ({sum(map(disk, bnd))} of {sum(r.get("obligations", 0) for r in bnd)}), {len(self.fb_report)} outside the verifier, {time.time()-self.t0:.1f}s')
        if any(c == 'confirmed' for _, c in self.viol): self.viol = [x for x in self.viol if x[1] == 'confirmed']
        for fn, st in sorted(self.viol, key=lambda x: x[1] != 'confirmed'):
            print(f'VIOLATION property={self.pid} replay={fn}' + ('' if st == 'confirmed' else ' no-failing-input-found'))
        if not self.viol and not obl and not bnd and not any(x['runs'] for x in self.fb_report): print(f'{self.pid}: nothing could be checked'); return 2
        return 1 if self.viol else 0
def native_all(c):
    """development aid: run every unit natively on random inputs, with the real callees and with the contracts"""
    bad = 0
    for cfg in c.c.get('configs', ['base']):
        for h in c.c['harness']:
            if h.get('configs') and cfg not in h['configs']: continue
            for stubbed in ([False, True] if h.get('stubs') else [False]):
                exe, e = c.native_exe(cfg, h, stubbed)
                if not exe: print(cfg, h['name'], stubbed, e); bad += 1; continue
                us = sh([exe, '--list'])[1].split()
                for u, (rc, o) in zip(us, c.pool.map(lambda u: sh([exe, '--unit', u, '--random', str(h.get('random', 200)), '--seed', str(SEED)], 60), us)):
                    m = re.search(r'ran (\d+) pre_false (\d+)', o); print(cfg, h['name'], 'stubbed' if stubbed else 'real', u, rc, m and m.group(0))
                    if rc: bad += 1; print(o[:1500])
    return bad
def main():
    pid = sys.argv[1]; c = Check(pid)
    try: rc = native_all(c) if os.environ.get('VERIF_NATIVE') else c.main()
    finally: shutil.rmtree(c.work, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)
if __name__ == '__main__': main()
