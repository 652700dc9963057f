#!/usr/bin/env python3
"""vf.py PROPERTY [quick|thorough] [--only entry] [--keep DIR]

Regenerates the encoding of one property's harnesses from /repo, lets the solver decide every
assertion, replays counterexamples against the real code and writes evidence/<id>.json.
"""
import sys, os, re, json, subprocess, time, tempfile, shutil, hashlib, concurrent.futures as cf, threading, signal

HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
DEFS = ['-DFEATURE_ESTD_COMPILE_STRICTNESS=4', '-DFEATURE_ESTD_COMPILE_VERBOSITY=3', '-DUNIT_TESTING']
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
SAN = 'signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bounds'
CBMC_OPTS = ['--no-standard-checks', '--pointer-check', '--bounds-check', '--div-by-zero-check', '--unwinding-assertions',
             '--drop-unused-functions', '--object-bits', '12', '--json-ui', '--verbosity', '8']

class CheckError(Exception): pass

def parse_specs(path):
    """//@ h NAME unwind=8 tier=quick known=K1 san=none timeout=100 opt=..."""
    ents = []; files = []; std = []
    for l in open(path):
        m = re.match(r'//@\s*h\s+(\w+)(.*)', l)
        if m:
            d = {'name': m.group(1), 'unwind': '10', 'tier': 'quick'}
            for kv in m.group(2).split():
                k, _, v = kv.partition('=')
                d[k] = v
            d['file'] = path
            ents.append(d)
    return ents

def attrs(path):
    a = {'defs': [], 'std': 'gnu++17', 'link': [], 'inline': 0}
    for l in open(path):
        m = re.match(r'//@\s*defs\s+(.*)', l)
        if m: a['defs'] += m.group(1).split()
        m = re.match(r'//@\s*std\s+(\S+)', l)
        if m: a['std'] = m.group(1)
        m = re.match(r'//@\s*link\s+(.*)', l)
        if m: a['link'] += m.group(1).split()
        m = re.match(r'//@\s*inline\s+(\d+)', l)
        if m: a['inline'] = int(m.group(1))
    return a

def run(cmd, timeout=None, mem_gb=None, **kw):
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', preexec_fn=pre, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return -999, o, e

class Check:
    def __init__(self, prop, tier, only=None, keep=None):
        self.prop = prop; self.tier = tier; self.only = only
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.work = keep or tempfile.mkdtemp(prefix='vf_%s_' % prop)
        self.own = keep is None
        if not self.own: shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.solver_time = 0.0; self.symex_time = 0.0
        self.log = []
        self.deadline = self.t0 + float(os.environ.get('VERIF_BUDGET', '780' if tier == 'quick' else '10800'))

    def say(self, *a):
        print(*a, flush=True)

    # -- encoding
    def tierdefs(self):
        return ['-DVERIF_THOROUGH=1'] if self.tier == 'thorough' else []

    def compile(self, path):
        a = attrs(path); base = os.path.join(self.work, os.path.basename(path))
        srcs = [(path, 'c++')] + [(os.path.join(SRC, l), 'c++' if l.endswith('pp') else 'c') for l in a['link']]
        lls = []
        for n, (s, lang) in enumerate(srcs):
            cc = 'clang++' if lang == 'c++' else 'clang'
            ll = '%s.%d.raw.ll' % (base, n)
            std = ['-std=' + a['std']] if lang == 'c++' else []
            rc, o, e = run([cc, *std, '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only',
                            '-fsanitize=' + SAN, '-fsanitize-trap=all', '-fno-threadsafe-statics', '-w', '-I' + SRC, '-I' + HERE, *DEFS, *a['defs'], *self.tierdefs(), '-S', '-emit-llvm', s, '-o', ll], 600)
            if rc: raise CheckError('harness does not compile: %s\n%s' % (s, e[:3000]))
            lls.append(ll)
        lk = base + '.lk.ll'
        if len(lls) > 1:
            rc, o, e = run(['llvm-link', '-S', *lls, '-o', lk], 300)
            if rc: raise CheckError('llvm-link: ' + e[:2000])
        else: lk = lls[0]
        out = base + '.ll'
        if a['inline']:
            t = open(lk).read(); lk = base + '.pl.ll'; open(lk, 'w').write(re.sub(r'^(attributes #\d+ = .*?)\bnoinline ', r'\1', t, flags=re.M))
            il = base + '.il.ll'; simp = 'sroa,early-cse,simplifycfg,instsimplify'
            rc, o, e = run(['opt-18', '-S', '-inline-threshold=%d' % a['inline'], '-passes=function(mem2reg,%s),cgscc(inline),function(%s,early-cse<memssa>,%s)' % (simp, simp, simp), lk, '-o', il], 300)
            if rc: raise CheckError('opt: ' + e[:2000])
            lk = il
        rc, o, e = run(['opt-18', '-S', '-passes=mem2reg,sroa,lower-expect,simplifycfg,jump-threading,simplifycfg', lk, '-o', out], 300)
        if rc: raise CheckError('opt: ' + e[:2000])
        return out

    def native(self, path):
        """native builds of the real harness: list of (tag, exe)"""
        a = attrs(path); base = os.path.join(self.work, os.path.basename(path))
        ents = [e['name'] for e in parse_specs(path)]
        disp = base + '.disp.cpp'
        with open(disp, 'w') as f:
            f.write('#include <string.h>\n' + ''.join('extern "C" void %s();\n' % e for e in ents))
            f.write('extern "C" void dispatch(const char* n) {\n' + ''.join('  if(!strcmp(n, "%s")) return %s();\n' % (e, e) for e in ents) + '  __builtin_trap(); }\n')
        return base, disp, a

    def build_native(self, path, tag, flags):
        base, disp, a = self.native(path)
        exe = '%s.%s.exe' % (base, tag)
        with self.lock:
            L = self.__dict__.setdefault('_nl', {}).setdefault(exe, threading.Lock())
        with L:
            if os.path.exists(exe): return exe
            drv = base + '.drv.%s.o' % tag
            rc, o, e = run(['clang', '-O1', '-g', '-c', HERE + '/native.c', '-o', drv], 200)
            if rc: raise CheckError(e)
            objs = [drv]
            for n, l in enumerate(a['link']):
                ob = '%s.%s.l%d.o' % (base, tag, n)
                rc, o, e = run([('clang++' if l.endswith('pp') else 'clang'), '-w', *flags, '-I' + SRC, *DEFS, '-c', os.path.join(SRC, l), '-o', ob], 300)
                if rc: raise CheckError(e[:2000])
                objs.append(ob)
            rc, o, e = run(['clang++', '-w', '-std=' + a['std'], *flags, '-I' + SRC, '-I' + HERE, *DEFS, *a['defs'], *self.tierdefs(), path, disp, *objs, '-o', exe + '.tmp'], 600)
            if rc: raise CheckError('native build failed: ' + e[:3000])
            os.rename(exe + '.tmp', exe)
        return exe

    def translate(self, ll, ent):
        c = ll[:-3] + '.' + ent + '.c'; js = c[:-2] + '.json'
        rc, o, e = run([sys.executable, HERE + '/ir2c.py', ll, c, js, ent], 300)
        if rc: raise CheckError('translation of %s failed: %s' % (ent, e[-2000:]))
        return c, json.load(open(js))

    PORTFOLIO_AFTER = 20

    def decide(self, cmd, solver, limit):
        """run cbmc; when the default SAT solver is not done after a while, a second one races it"""
        if solver: return (solver,) + run(cmd + ['--sat-solver', solver], limit, mem_gb=12)
        t_end = time.time() + limit
        files = []; procs = []
        def start(name):
            f = tempfile.TemporaryFile(dir=self.work); g = tempfile.TemporaryFile(dir=self.work)
            def pre():
                os.setsid()
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (12 * 2**30, 12 * 2**30))
            procs.append((name, subprocess.Popen(cmd + ['--sat-solver', name], stdout=f, stderr=g, preexec_fn=pre), f, g))
        def read(f): f.seek(0); return f.read().decode(errors='replace')
        start('minisat2'); t2 = time.time() + self.PORTFOLIO_AFTER
        win = None; last = None
        nap = 0.02
        while win is None and time.time() < min(t_end, self.deadline):
            for x in procs:
                if x[1].poll() is not None:
                    # a solver that ran out of memory gives no verdict: let the other one finish
                    if x[1].returncode in (0, 10): win = x; break
                    last = x
            if win: break
            if last and last[1].returncode not in (0, 10) and len(procs) == 1: win = last if time.time() < t2 else None
            if win: break
            if len(procs) == 1 and time.time() > t2: start('cadical')
            if len(procs) == 2 and all(x[1].poll() is not None for x in procs): win = last; break
            time.sleep(nap); nap = min(nap * 1.3, 0.3)
        for x in procs:
            if x[1].poll() is None:
                try: os.killpg(x[1].pid, signal.SIGKILL)
                except ProcessLookupError: pass
                x[1].wait()
        if win is None: return ('none', -999, '', '')
        return (win[0], win[1].returncode, read(win[2]), read(win[3]))

    def cbmc(self, c, ent, unwind, extra=(), timeout=None, solver=None):
        left = self.deadline - time.time()
        t = min(timeout or left, left)
        if t <= 1: return {'status': 'timeout'}
        cmd = ['cbmc', c, '-I', HERE, '--function', 'verif_entry_' + ent, '--unwind', str(unwind), *CBMC_OPTS, *extra]
        t0 = time.time()
        who, rc, o, e = self.decide(cmd, solver, t)
        r = {'status': 'ok', 'wall': time.time() - t0, 'rc': rc, 'cmd': ' '.join(cmd), 'solver': who}
        if rc == -999: r['status'] = 'timeout'; return r
        try: js = json.loads(o)
        except Exception:
            r['status'] = 'error'; r['msg'] = (o[-1500:] + e[-1500:]); return r
        r['msgs'] = [x.get('messageText', '') for x in js if 'messageText' in x]
        r['results'] = None
        for x in js:
            if 'result' in x: r['results'] = x['result']
        txt = '\n'.join(r['msgs'])
        for m in re.finditer(r'Runtime Solver: ([\d.e+-]+)s', txt):
            with self.lock: self.solver_time += float(m.group(1))
        for m in re.finditer(r'Runtime Symex: ([\d.e+-]+)s', txt):
            with self.lock: self.symex_time += float(m.group(1))
        m = re.search(r'size of program expression: (\d+) steps', txt); r['steps'] = int(m.group(1)) if m else 0
        m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', txt); r['vcc'] = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        mm = re.findall(r'(\d+) variables, (\d+) clauses', txt); r['sat'] = (int(mm[-1][0]), int(mm[-1][1])) if mm else (0, 0)
        r['nsolve'] = len(re.findall(r'Runtime Solver:', txt))
        if r['results'] is None:
            r['status'] = 'error'; r['msg'] = txt[-1500:] + e[-500:]
        return r

    def inputs_from(self, r, pid):
        for x in r['results']:
            if x['property'] == pid and x.get('trace'):
                ins = []
                for st in x['trace']:
                    if st.get('stepType') == 'assignment' and st.get('lhs') == 'verif_log' and 'rt_verif' in str(st.get('sourceLocation', {}).get('function', '')):
                        v = st['value']
                        b = v.get('binary')
                        ins.append(int(b, 2) if b else int(re.sub(r'[^0-9-]', '', v.get('data', '0')) or 0) & (2**64 - 1))
                return ins
        return None

    NATIVE = [('asan', ['-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,null', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']),
              ('o2', ['-O2', '-g']),
              ('pat', ['-O0', '-g', '-ftrivial-auto-var-init=pattern'])]

    def replay(self, path, ent, ins):
        """-> (reproduced, tag, text)"""
        fn = os.path.join(self.work, 'replay_%s.txt' % ent)
        open(fn, 'w').write('\n'.join(map(str, ins)) + '\n')
        last = ''
        for tag, flags in self.NATIVE:
            exe = self.build_native(path, tag, flags)
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=0')
            rc, o, e = run([exe, 'replay', fn, ent], 20, env=env)
            txt = (o + '\n' + e)[:3000]
            if rc == -999: return True, tag, 'does not terminate (20 s)\n' + txt
            if rc == 4: last = 'assumption failed in replay: ' + txt; continue
            if rc != 0: return True, tag, 'exit %d\n%s' % (rc, txt)
            last = txt
        return False, None, last

    # -- one harness
    def one(self, ll, ent, path):
        name = ent['name']; res = {'entry': name, 'status': None, 'unwind': int(ent['unwind'])}
        c, meta = self.translate(ll, name)
        res['functions'] = meta['functions']; res['externals'] = meta['externals']
        unwind = int(ent.get('unwind_thorough', ent['unwind']) if self.tier == 'thorough' else ent['unwind'])
        extra = [x for x in ent.get('opt', '').split(',') if x]
        solver = ent.get('solver')
        attempt = 0
        while True:
            r = self.cbmc(c, name, unwind, extra=extra, timeout=float(ent.get('timeout', 0)) or None, solver=solver)
            res.update(unwind=unwind, wall=r.get('wall', 0), steps=r.get('steps', 0), vcc=r.get('vcc'), sat=r.get('sat'), nsolve=r.get('nsolve', 0), cmd=r.get('cmd'), solver=r.get('solver'))
            if r['status'] != 'ok':
                res['status'] = 'inconclusive'; res['msg'] = r['status'] + ' ' + r.get('msg', ''); return res
            bad = [x for x in r['results'] if x['status'] == 'FAILURE']
            reach = [x for x in r['results'] if x['description'].startswith('REACH')]
            res['assertions'] = len(r['results']) - len(reach)
            res['reach'] = len(reach); res['reached'] = sum(x['status'] == 'FAILURE' for x in reach)
            unw = [x for x in bad if '.unwind.' in x['property'] or 'unwinding assertion' in x['description'] or 'recursion unwinding' in x['description']]
            real = [x for x in bad if x not in unw and not x['description'].startswith('REACH')]
            unsup = [x for x in real if x['description'].startswith(('UNSUPPORTED', 'UNMODELLED'))]
            if unsup:
                res['status'] = 'inconclusive'; res['msg'] = unsup[0]['description']; return res
            if real or unw:
                # prefer property assertions over memory checks; ignore unwinding if something else failed
                real.sort(key=lambda x: (0 if x['description'].startswith('PROP') else 1))
                cands = real[:3] + unw[:1]
                tried = []
                for x in cands:
                    rr = self.cbmc(c, name, unwind, extra=extra + (['--trace'] if x in unw else ['--trace', '--property', x['property']]), solver=solver)
                    if rr['status'] != 'ok' or not rr['results']: tried.append('%s: trace run %s' % (x['description'], rr['status'])); continue
                    ins = self.inputs_from(rr, x['property'])
                    if ins is None: tried.append('%s: no trace' % x['description']); continue
                    ok, tag, txt = self.replay(path, name, ins)
                    if ok:
                        res['status'] = 'violated'; res['what'] = x['description'] + ' @' + x['property']; res['inputs'] = ins; res['replay_tag'] = tag; res['replay_text'] = txt
                        if not ent.get('known'): self.deadline = min(self.deadline, time.time() + 60)
                        return res
                    tried.append('%s: not reproduced natively (%s)' % (x['description'], txt.strip()[:300]))
                if not real and unw and attempt < 4:
                    attempt += 1; unwind = unwind * 2; continue
                res['status'] = 'inconclusive'; res['msg'] = '; '.join(tried); return res
            other = [x for x in r['results'] if x['status'] not in ('SUCCESS', 'FAILURE')]
            if other:
                res['status'] = 'inconclusive'; res['msg'] = 'status %s for %s' % (other[0]['status'], other[0]['property']); return res
            if res['reach'] == 0 or res['reached'] != res['reach']:
                miss = [x['description'] for x in reach if x['status'] != 'FAILURE']
                res['status'] = 'inconclusive'; res['msg'] = 'vacuous: reachability witness not reached: %s' % (miss or 'none present'); return res
            res['status'] = 'held'
            return res

    def validate(self, path, ents, n):
        """translated C (gcc) against the real harness (g++) on the same pseudo random inputs"""
        exe = self.build_native(path, 'o2', dict(self.NATIVE)['o2'])
        nrun = 0; nontriv = 0
        for ent in ents:
            c = os.path.join(self.work, os.path.basename(path) + '.' + ent['name'] + '.c')
            if not os.path.exists(c): continue
            disp = c[:-2] + '.d.c'
            open(disp, 'w').write('void verif_entry_%s(void); void dispatch(const char* n) { verif_entry_%s(); }\n' % (ent['name'], ent['name']))
            ex2 = c[:-2] + '.texe'
            rc, o, e = run(['gcc', '-O1', '-w', '-fno-strict-aliasing', '-fwrapv', '-fno-builtin', '-DTRANSLATED', '-I' + HERE, c, disp, HERE + '/native.c', '-lm', '-o', ex2], 300)
            if rc: raise CheckError('translated C of %s does not compile natively: %s' % (ent['name'], e[:1500]))
            for k in range(n):
                sd = str(self.seed * 1000003 + k * 7919 + 1)
                r1 = run([exe, 'random', sd, ent['name']], 20); r2 = run([ex2, 'random', sd, ent['name']], 20)
                a = [l for l in r1[1].splitlines() if l.startswith('END')]; b = [l for l in r2[1].splitlines() if l.startswith('END')]
                if r1[0] not in (0, 1) or r2[0] not in (0, 1): continue    # crash / trap: nothing to compare
                nrun += 1
                if a and 'checks=0 ' not in a[0]: nontriv += 1
                if a != b and ent.get('novalidate') is None:
                    raise CheckError('translator mismatch on %s seed %s: native %s / translated %s' % (ent['name'], sd, r1[1][-300:], r2[1][-300:]))
        return nrun, nontriv

    def go(self):
        specs = []
        hd = os.path.join(VERIF, 'harness')
        files = sorted(f for f in os.listdir(hd) if re.match(self.prop + r'[_.].*cpp$', f) or f == self.prop + '.cpp')
        if not files: raise CheckError('no harness for ' + self.prop)
        jobs = []
        ex = cf.ThreadPoolExecutor(JOBS)
        results = []; validated = [0, 0]
        err = None
        paths = [os.path.join(hd, f) for f in files]
        lls = dict(zip(paths, ex.map(self.compile, paths)))
        natf = [ex.submit(self.build_native, p, 'o2', dict(self.NATIVE)['o2']) for p in paths]
        todo = []
        for p in paths:
            for e in parse_specs(p):
                if self.only and e['name'] not in self.only.split(','): continue
                if e['tier'] == 'thorough' and self.tier != 'thorough': continue
                if e['tier'] == 'quickonly' and self.tier != 'quick': continue
                todo.append((p, e))
        todo.sort(key=lambda x: -float(x[1].get('cost', '1')))
        futs = [(p, e, ex.submit(self.one, lls[p], e, p)) for p, e in todo]
        for p, e, f in futs:
            try: r = f.result()
            except CheckError as x: r = {'entry': e['name'], 'status': 'inconclusive', 'msg': str(x)}
            r['file'] = os.path.relpath(p, VERIF); r['known'] = e.get('known'); results.append(r)
            if os.environ.get('VERIF_VERBOSE'):
                self.say('  %-28s %-12s unwind=%s wall=%.1f steps=%s vcc=%s sat=%s %s' % (r['entry'], r['status'], r.get('unwind'), r.get('wall', 0), r.get('steps'), r.get('vcc'), r.get('sat'), r.get('what', '') or r.get('msg', '')))
        for f in natf: f.result()
        nval = 12 if self.tier == 'quick' else 200
        try:
            for n, nt in ex.map(lambda p: self.validate(p, [e for q, e in todo if q == p], nval), paths):
                validated[0] += n; validated[1] += nt
        except CheckError as x:
            # undefined behaviour that a violation exposes also makes the two builds differ
            if not any(r['status'] == 'violated' for r in results): raise
            self.say('NOTE %s' % str(x)[:500])
        return self.report(results, validated)

    def report(self, results, validated):
        known = {}
        kf = os.path.join(VERIF, 'known_findings.jsonl')
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l:
                    d = json.loads(l)
                    if d.get('status') == 'known': known[d['id']] = d
        viol = []; inc = []; kn = []
        for r in results:
            if r['status'] == 'violated':
                if r.get('known') and r['known'] in known and known[r['known']]['property'] == self.prop: kn.append(r)
                else: viol.append(r)
            elif r['status'] != 'held': inc.append(r)
        fns = set()
        for r in results: fns.update(r.get('functions', []))
        estd = [f for f in fns if 'estd' in f or not f.startswith(('_ZSt', '_ZNSt', '_ZNKSt', '_Z'))]
        try:
            dm = subprocess.run(['llvm-cxxfilt-18'] + sorted(estd), capture_output=True, text=True).stdout.split('\n') if estd else []
        except OSError: dm = sorted(estd)
        dm = sorted({re.sub(r'\s+', ' ', d)[:160] for d in dm if d and ('estd::' in d or not '::' in d)})
        exts = sorted({x for r in results for x in r.get('externals', []) if not x.startswith('verif_')})
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
          'coverage': {
            'states': sum(r.get('steps', 0) or 0 for r in results),
            'transitions': sum((r.get('vcc') or (0, 0))[1] for r in results),
            'traces_validated_against_impl': validated[0],
            'traces_validated_nontrivial': validated[1],
            'explanation': 'Bounded symbolic execution of the real code, decided by a SAT/SMT back end for all input values within the bounds. '
                'states = symbolic execution steps encoded; transitions = verification conditions left for the solver after simplification; '
                'traces_validated_against_impl = pseudo random input vectors on which the encoding (compiled translation) and the native build of the same harness observed identical results.',
            'harnesses': [{k: r.get(k) for k in ('entry', 'file', 'status', 'unwind', 'assertions', 'reach', 'reached', 'steps', 'vcc', 'sat', 'nsolve', 'wall', 'known', 'msg') if r.get(k) is not None} for r in results],
            'queries_discharged': sum(r.get('nsolve', 0) or 0 for r in results),
            'assertions_held': sum(r.get('assertions', 0) for r in results if r['status'] == 'held'),
            'solver_time_s': round(self.solver_time, 3), 'symex_time_s': round(self.symex_time, 3),
            'functions_encoded': len(fns), 'estd_functions_encoded': dm[:400],
            'externals_modelled': exts,
            'samples': [r.get('cmd') for r in results if r.get('cmd')][:2],
          },
          'assumptions': ASSUMPTIONS,
          'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, self.prop), 'w'), indent=1)
        for r in kn:
            self.say('KNOWN-FINDING: property=%s %s: %s' % (self.prop, r['known'], known[r['known']]['what']))
        for r in viol:
            rp = '%s/evidence/replay_%s_%s.txt' % (VERIF, self.prop, r['entry'])
            with open(rp, 'w') as f:
                f.write('\n'.join(map(str, r['inputs'])) + '\n')
            with open(rp[:-4] + '.log', 'w') as f:
                f.write('entry %s in %s\nfailed: %s\nreplayed with build %s:\n%s\n' % (r['entry'], r['file'], r['what'], r['replay_tag'], r['replay_text']))
            self.say('%s: %s: %s' % (r['entry'], r['what'], r['replay_text'].strip().replace('\n', ' | ')[:400]))
            self.say('VIOLATION property=%s replay=%s' % (self.prop, rp))
        for r in inc: self.say('INCONCLUSIVE %s: %s' % (r['entry'], r.get('msg', '')[:1500]))
        held = sum(r['status'] == 'held' for r in results)
        self.say('%s %s: %d harnesses, %d held, %d violated, %d known, %d inconclusive; solver %.1fs, wall %.1fs' % (self.prop, self.tier, len(results), held, len(viol), len(kn), len(inc), self.solver_time, time.time() - self.t0))
        if viol: return 1
        # an undecided harness is reported and recorded; the run as a whole still answers for what was decided
        if len(inc) > held + len(kn): return 2
        return 0

ASSUMPTIONS = [
 'x86-64 Linux, clang 18 front end (gnu++17, exceptions on, the repository test flags) lowering /repo/src to LLVM IR after mem2reg/sroa; engine/ir2c.py translation and engine/rt.h runtime models; CBMC 6.11 and its SAT/SMT back end',
 'loops unrolled to the per-harness unwind bound, checked by unwinding assertions',
 'operator new never fails; deallocation is not modelled; freed memory is not reused',
 'counterexamples are reported only when they reproduce in a native clang++ build of the same harness',
]

def main():
    a = sys.argv[1:]
    only = keep = None
    if '--only' in a: k = a.index('--only'); only = a[k + 1]; del a[k:k + 2]
    if '--keep' in a: k = a.index('--keep'); keep = a[k + 1]; del a[k:k + 2]
    if a and a[0] == '--setup':
        for t in ('clang++', 'cbmc', 'gcc', 'opt', 'opt-18', 'llvm-cxxfilt-18'): print(t, shutil.which(t))
        if not shutil.which('clang++') or not shutil.which('cbmc'): sys.exit(2)
        sys.exit(0)
    prop = a[0]; tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    c = Check(prop, tier, only, keep)
    try: rc = c.go()
    except CheckError as e:
        print('ERROR %s: %s' % (prop, e)); rc = 2
    finally:
        if c.own: shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)

if __name__ == '__main__': main()
