#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough     decide one property on /repo's current tree
check.py --replay FILE                  replay a counterexample natively
check.py --build                        build the engine and the support code only

Every run compiles /repo's sources to LLVM bitcode, executes the harness entries of the property symbolically (fsym), and
replays counterexamples and a sample of passing paths on the real code built with g++."""
import sys, os, re, json, time, hashlib, subprocess, shutil, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(BUILD, 'cache')
SUP = os.path.join(VERIF, 'support')
FSYM = os.path.join(BUILD, 'engine', 'fsym')
INC = ['-I' + REPO + '/src/include', '-I' + REPO + '/src/fingerprint/include', '-I' + REPO + '/src/util/include', '-I' + SUP]
BCFLAGS = ['clang++', '-std=c++20', '-O0', '-Xclang', '-disable-O0-optnone', '-g1', '-emit-llvm', '-w', '-pthread']
NATFLAGS = ['g++', '-std=c++2a', '-O0', '-g', '-w', '-pthread']
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,signed-integer-overflow,shift-base', '-fno-sanitize-recover=all']
NPROC = int(os.environ.get('VP_JOBS', '0')) or min(8, os.cpu_count() or 8)
_toolver = None

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def die(msg):
    print('ERROR: ' + msg); sys.exit(2)
def toolver():
    global _toolver
    if _toolver is None: _toolver = sh(['clang++', '--version']).stdout + sh(['g++', '--version']).stdout
    return _toolver
def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = sh(['make', '-s', '-j8', '-C', os.path.join(VERIF, 'engine')])
        if r.returncode: die('engine build failed\n' + r.stdout[-3000:])

def repo_sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if f.endswith('.cpp'): r.append(os.path.join(d, f))
    return sorted(r)
def have_bigint(): return os.path.exists(os.path.join(REPO, 'third_party/bigint/include/bigint.h')) or bool(glob.glob(REPO + '/third_party/bigint/include/*'))
_hdr = None
def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256(toolver().encode())
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
            for f in sorted(fs):
                if not f.endswith('.cpp'): h.update(f.encode() + open(os.path.join(d, f), 'rb').read())
        for f in ['vp.h', 'funge_h.h']: h.update(open(os.path.join(SUP, f), 'rb').read())
        _hdr = h.hexdigest()
    return _hdr

def compile_one(src, flags, ext, data=None, name=None):
    """Object file for src, found by the hash of everything that goes into it."""
    data = open(src, 'rb').read() if data is None else data
    key = hashlib.sha256((header_hash() + repr(flags) + src).encode() + data).hexdigest()[:32]
    out = os.path.join(CACHE, key + ext)
    if os.path.exists(out): return out, None
    tmp = out + '.%d.tmp' % os.getpid()
    inp, clean = src, None
    if data != open(src, 'rb').read():
        clean = os.path.join(CACHE, key + '.%d.cpp' % os.getpid()); open(clean, 'wb').write(data); inp = clean
    r = sh(flags + INC + ['-I' + os.path.dirname(src), '-c', inp, '-o', tmp])
    if clean: os.remove(clean)
    if r.returncode: return None, src + ':\n' + r.stdout[-3000:]
    os.replace(tmp, out)
    return out, None

def compile_repo(mode):
    """mode: bc, nat or asan.  FingerprintLONG needs the bigint submodule, which is not part of this checkout."""
    flags = {'bc': BCFLAGS, 'nat': NATFLAGS, 'asan': NATFLAGS + ASAN}[mode]
    ext = '.bc' if mode == 'bc' else '.o'
    jobs = []
    for s in repo_sources():
        data = open(s, 'rb').read()
        fl = list(flags)
        if not have_bigint():
            if os.path.basename(s) == 'FingerprintLONG.cpp': continue
            if os.path.basename(s) == 'FingerprintStrategy.cpp': data = b'#line 1 "' + s.encode() + b'"\n' + re.sub(rb'(?m)^.*FingerprintLONG.*$', b'', data)
        if re.search(rb'\bint\s+main\s*\(', data): fl.append('-Dmain=repo_main')
        jobs.append((s, fl, ext, data))
    with ThreadPoolExecutor(NPROC) as p: res = list(p.map(lambda j: compile_one(*j), jobs))
    bad = [e for _, e in res if e]
    if bad: die('the repository does not compile:\n' + '\n'.join(bad)[:4000])
    return [o for o, _ in res]

def compile_extra(files, flags, ext):
    with ThreadPoolExecutor(NPROC) as p: res = list(p.map(lambda f: compile_one(f, flags, ext), files))
    bad = [e for _, e in res if e]
    if bad: die('harness or support code does not compile against the repository:\n' + '\n'.join(bad)[:6000])
    return [o for o, _ in res]

def clean_cache():
    try:
        fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(CACHE + '/*')]
    except OSError: return
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot < 1500e6: break
        try: os.remove(p)
        except OSError: pass
        tot -= s

class Entry: pass
def parse_harness(path):
    """//@ entry NAME [key=value]...    //@ bounds TEXT    //@ outside TEXT    //@ assume TEXT"""
    es, bounds, outside, assume, title = [], [], [], [], ''
    for l in open(path):
        l = l.strip()
        if not l.startswith('//@'): continue
        l = l[3:].strip()
        w = l.split(None, 1)
        if w[0] == 'entry':
            e = Entry(); p = l.split(); e.name = p[1]; e.opt = {}
            for kv in p[2:]:
                k, _, v = kv.partition('='); e.opt[k] = v
            es.append(e)
        elif w[0] == 'bounds': bounds.append(w[1])
        elif w[0] == 'outside': outside.append(w[1])
        elif w[0] == 'assume': assume.append(w[1])
    return es, bounds, outside, assume

CONFIRM = {'check': ('check',), 'crash': ('crash', 'signal', 'memory'), 'memory': ('memory', 'signal', 'crash', 'deadlock'), 'stack': ('signal', 'memory'), 'steps': ('timeout', 'signal'), 'deadlock': ('deadlock', 'timeout')}

class Native:
    def __init__(self, harness, defs): self.h, self.defs, self.bin = harness, defs, {}
    def build(self, mode, rundir):
        if mode in self.bin: return self.bin[mode]
        flags = NATFLAGS + (ASAN if mode == 'asan' else [])
        objs = compile_repo(mode) + compile_extra([self.h], flags + self.defs, '.o') + compile_extra([os.path.join(SUP, 'env.cpp'), os.path.join(SUP, 'native.cpp')], flags, '.o')
        out = os.path.join(rundir, 'replay-' + mode)
        r = sh(['g++', '-rdynamic', '-pthread'] + (ASAN if mode == 'asan' else []) + objs + ['-o', out, '-ldl'])
        if r.returncode: die('native replay does not link\n' + r.stdout[-3000:])
        self.bin[mode] = out
        return out
    def run(self, mode, rundir, files, secs):
        b = self.build(mode, rundir)
        env = dict(os.environ, VP_REPLAY_SECS=str(secs))
        res = {}
        def one(chunk):
            return sh([b] + chunk, env=env).stdout
        n = max(1, min(NPROC, len(files)))
        with ThreadPoolExecutor(n) as p:
            for o in p.map(one, [files[i::n] for i in range(n)]):
                for l in o.splitlines():
                    if l.startswith('RESULT\t'):
                        q = l.split('\t'); res[q[1]] = (q[2], q[3] if len(q) > 3 else '')
        return res

def demangle(names):
    if not names: return []
    return subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.split('\n')[:len(names)]

def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == prop]

def known_hit(known, entry, kind, msg, where):
    for k in known:
        if k['entry'] == entry and k.get('kind', kind) == kind and re.search(k.get('msg', ''), msg) and re.search(k.get('where', ''), where): return k

def inputs_of(f):
    v, o = [], []
    for l in open(f):
        p = l.split()
        if not p: continue
        if p[0] == 'v':
            x = int(p[3]); w = int(p[2])
            if w == 64 and x >> 63: x -= 1 << 64
            v.append('%s=%d' % (p[1], x))
    return v

def fl_header(harness):
    """The repository's own Funge programs (fing/*.fl) as string constants, for the harnesses that run them."""
    if '"fl.h"' not in open(harness).read(): return []
    out = ['#pragma once', '#include <string>']
    for f in sorted(glob.glob(REPO + '/fing/*.fl')):
        b = open(f, 'rb').read(); n = re.sub(r'\W', '_', os.path.basename(f)[:-3])
        out.append('static const std::string FL_%s = std::string(%s, %d);' % (n, ' '.join('"' + ''.join('\\%03o' % c for c in b[i:i + 40]) + '"' for i in range(0, len(b), 40)) or '""', len(b)))
    t = '\n'.join(out) + '\n'
    d = os.path.join(CACHE, 'fl-' + hashlib.sha256(t.encode()).hexdigest()[:16]); os.makedirs(d, exist_ok=True)
    h = os.path.join(d, 'fl.h')
    if not os.path.exists(h):
        open(h + '.%d' % os.getpid(), 'w').write(t); os.replace(h + '.%d' % os.getpid(), h)
    return ['-I' + d]

def run_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    harness = os.path.join(VERIF, 'harness', prop + '.cpp')
    if not os.path.exists(harness): die('no harness for ' + prop)
    os.makedirs(CACHE, exist_ok=True)
    rundir = os.path.join(BUILD, 'run', '%s-%s-%d' % (prop, tier, os.getpid()))
    shutil.rmtree(rundir, ignore_errors=True); os.makedirs(rundir)
    try: return run_check2(prop, tier, seed, harness, rundir, t0)
    finally:
        if not os.environ.get('VP_KEEP'): shutil.rmtree(rundir, ignore_errors=True)
        clean_cache()

def run_check2(prop, tier, seed, harness, rundir, t0):
    entries, bounds, outside, assume = parse_harness(harness)
    if os.environ.get('VP_ENTRY'): entries = [e for e in entries if re.fullmatch(os.environ['VP_ENTRY'], e.name)]
    defs = ['-DVP_THOROUGH=%d' % (1 if tier == 'thorough' else 0)] + fl_header(harness)
    build_engine()
    nat = Native(harness, defs)
    bcs = compile_repo('bc') + compile_extra([harness], BCFLAGS + defs, '.bc') + compile_extra([os.path.join(SUP, f) for f in ('support.cpp', 'env.cpp', 'facets.cpp')], BCFLAGS + ['-fno-builtin'], '.bc')
    linked, opt = os.path.join(rundir, 'l.bc'), os.path.join(rundir, 'p.bc')
    r = sh(['llvm-link-18'] + bcs + ['-o', linked])
    if r.returncode: die('llvm-link failed\n' + r.stdout[-3000:])
    r = sh(['opt-18', '-passes=sroa,simplifycfg', linked, '-o', opt])
    if r.returncode: die('opt failed\n' + r.stdout[-3000:])
    os.remove(linked)
    # native build runs while the symbolic execution does
    pool = ThreadPoolExecutor(1)
    build_s = time.time() - t0
    nat.build('nat', rundir)
    budget = float(os.environ.get('VP_BUDGET') or (780 if tier == 'quick' else 3 * 3600))
    tot = dict(paths=0, ok=0, steps=0, forks=0, viol=0, incomplete=0, checks=0, checks_solver=0, queries=0, z3calls=0, sat=0, unsat=0, unknown=0, cachehits=0)
    solver_s = 0.0; fns = {}; per = []; viols = []; incompl = []; samples = []; missing = []; cross = None
    known = load_known(prop)
    for e in entries:
        left = budget - (time.time() - t0)
        if left < 5: incompl.append((e.name, 'no time left')); continue
        od = os.path.join(rundir, e.name); os.makedirs(od)
        lim = float(e.opt.get('t' if tier == 'quick' else 'tt', e.opt.get('t', 240 if tier == 'quick' else 1e9)))
        if tier == 'quick': lim *= 2          # margin for slower machines; t= is what an entry should take at most here
        lim = min(left, lim)
        if any(not known_hit(known, e0.name, k0, m0, w0) for e0, k0, m0, f0, w0 in viols): lim = min(lim, 20)      # a violation is decided already
        cmd = [FSYM, '-e', e.name, '-o', od, '-j', str(NPROC), '-t', str(lim), '-s', e.opt.get('steps', '30000000'), '-q', e.opt.get('q', '60000'), '-seed', str(seed)]
        if tier == 'thorough': 
            cd = os.path.join(rundir, 'x'); os.makedirs(cd, exist_ok=True); cmd += ['-x', cd]
        te = time.time()
        r = sh(cmd + [opt])
        es = {}
        for l in r.stdout.splitlines():
            if l.startswith('STATS\t'): es = {k: int(v) for k, v in (x.split('=') for x in l.split('\t')[1:])}
            elif l.startswith('INCOMPLETE'): incompl.append((e.name, l.split('\t', 1)[1]))
            elif os.environ.get('VP_VERBOSE'): print(l)
        if not es: incompl.append((e.name, 'engine failed: ' + r.stdout[-300:])); continue
        for k in tot: tot[k] += es.get(k, 0)
        reach = set()
        for f in glob.glob(od + '/res.*'):
            for l in open(f, errors='replace'):
                q = l.rstrip('\n').split('\t')
                if q[0] == 'VIOL': viols.append((e, q[1], q[2], q[3], q[4] if len(q) > 4 else ''))
                elif q[0] == 'REACH': reach.add(q[1])
                elif q[0] == 'SAMPLE': samples.append((e, q[1]))
                elif q[0] == 'INCOMPLETE': incompl.append((e.name, q[1]))
                elif q[0] == 'SECS': solver_s += float(q[1])
                elif q[0] == 'FN' and q[2].startswith(REPO + '/'): fns[q[1]] = fns.get(q[1], 0) + int(q[3])
        want = [x for x in e.opt.get('reach', 'end').split(',') if x]
        miss = [x for x in want if x not in reach]
        if miss: missing.append((e.name, miss))
        per.append(dict(entry=e.name, paths=es['paths'], ok=es['ok'], steps=es['steps'], queries=es['queries'], checks=es['checks'], wall_s=round(time.time() - te, 1), reached=sorted(reach)))
        if os.environ.get('VP_VERBOSE'): print(e.name, es, 'reach', sorted(reach), '%.1fs' % (time.time() - te), flush=True)
    # ---- replay
    confirmed, spurious, knownhit = [], [], {}
    byEntry = {}
    sres = nat.run('nat', rundir, [f for _, f in samples], 20) if samples else {}
    validated = sum(1 for f, (st, d) in sres.items() if st == 'ok')
    badval = [(f, st, d) for f, (st, d) in sres.items() if st != 'ok']
    obs = sum(int(d or 0) for st, d in sres.values() if st == 'ok')
    seen = {}
    cand = []
    for v in viols:
        k = (v[0].name, v[1], v[2], v[4][:80])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 3: cand.append(v)
    cand = cand[:120]
    res = nat.run('nat', rundir, [v[3] for v in cand], 6) if cand else {}
    need = [v for v in cand if res.get(v[3], ('?',))[0] not in CONFIRM.get(v[1], ()) and v[1] in ('memory', 'crash', 'stack')]
    if need:
        r2 = nat.run('asan', rundir, [v[3] for v in need], 30)
        for f, x in r2.items():
            if x[0] not in ('ok', 'diverged', 'assume'): res[f] = x
    for v in cand:
        e, kind, msg, f, where = v
        st, d = res.get(f, ('?', ''))
        ok = st in CONFIRM.get(kind, ()) or st in ('check', 'signal', 'crash')
        if kind == 'check' and st == 'check' and d != msg: ok = True
        if not ok: spurious.append((v, st, d)); continue
        hit = known_hit(known, e.name, kind, msg, where)
        if hit: knownhit.setdefault(hit['id'], (hit, v)); continue
        confirmed.append((v, st, d))
    spurious = [s for s in spurious if not any(c[0][0].name == s[0][0].name and c[0][1:3] == s[0][1:3] for c in confirmed)]
    # a known-finding entry may find only what is listed; nothing else depends on it
    if tier == 'thorough': cross = cross_check(os.path.join(rundir, 'x'))
    outdir = os.path.join(BUILD, 'replay', prop)
    shutil.rmtree(outdir, ignore_errors=True)
    names = sorted(fns, key=lambda n: -fns[n]); dn = demangle(names)
    encoded = [re.sub(r'\s+', ' ', x)[:160] for x in dn if x.startswith('Funge::') or x.startswith('Funge') or 'Funge' in x]
    smp = []
    for e, f in samples[:4]: smp.append({'entry': e.name, 'inputs': inputs_of(f)[:24], 'path_end': 'all assertions hold', 'native': sres.get(f, ('?', ''))[0]})
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(states=tot['paths'], transitions=tot['steps'], traces_validated_against_impl=validated, samples=smp or [{'note': 'no completed path'}],
            states_meaning='paths of the real code explored symbolically, each standing for all input values that follow it', transitions_meaning='LLVM instructions of the real code executed symbolically',
            entries=per, assertions_checked=tot['checks'], assertions_sent_to_solver=tot['checks_solver'], solver_queries=tot['queries'], z3_calls=tot['z3calls'], sat=tot['sat'], unsat=tot['unsat'], unknown=tot['unknown'], query_cache_hits=tot['cachehits'], solver_s=round(solver_s, 2),
            functions_encoded=len(encoded), functions=encoded[:150], bounds=bounds, outside_bounds=outside, observations_compared=obs, counterexamples=len(viols), counterexamples_confirmed=len(confirmed), known_findings=sorted(knownhit), incomplete=[list(x) for x in incompl][:20], build_s=round(build_s, 1)),
        assumptions=assume + ['LLVM 18 front end and the fsym executor (validated on this run by native replay of sampled paths)', 'library models in /verif/support; allocation does not fail'],
        wall_s=round(time.time() - t0, 1), violations=len(confirmed))
    if cross is not None: ev['coverage']['cvc5_cross_check'] = cross
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d entries, %d paths, %d instructions, %d assertions (%d by solver), %d queries (%d Z3 calls, %.1f s), %d sampled paths replayed natively, %.0f s' % (prop, tier, len(entries), tot['paths'], tot['steps'], tot['checks'], tot['checks_solver'], tot['queries'], tot['z3calls'], solver_s, validated, time.time() - t0))
    for h, (k, v) in sorted(knownhit.items()): print('KNOWN-FINDING: property=%s %s: %s' % (prop, k['id'], k['what']))
    rc = 0
    if confirmed:
        os.makedirs(outdir, exist_ok=True)
        for i, (v, st, d) in enumerate(confirmed[:20]):
            e, kind, msg, f, where = v
            dst = os.path.join(outdir, 'v%d.txt' % i); shutil.copy(f, dst)
            with open(dst, 'a') as g: g.write('# property %s tier %s native %s %s\n' % (prop, tier, st, d))
            if i < 8:
                print('  entry %s: %s: %s\n    at %s\n    inputs %s\n    real code: %s %s' % (e.name, kind, msg, where[:300], ' '.join(inputs_of(f)[:40])[:600], st, d[:300]))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.join(outdir, 'v0.txt')))
        return 1
    for (v, st, d) in spurious[:5]: print('UNCONFIRMED: entry %s: %s: %s at %s; real code: %s %s; inputs %s' % (v[0].name, v[1], v[2], v[4][:200], st, d, ' '.join(inputs_of(v[3])[:30])))
    for f, st, d in badval[:5]: print('MISMATCH: symbolic path and real code differ: %s: %s %s inputs %s' % (os.path.relpath(f, rundir), st, d, ' '.join(inputs_of(f)[:30])))
    for n, m in missing: print('VACUOUS: entry %s did not reach %s' % (n, ', '.join(m)))
    for n, m in incompl[:8]: print('INCOMPLETE: %s: %s' % (n, m))
    if cross and cross['disagree']: print('SOLVERS DISAGREE: %d' % cross['disagree'])
    if spurious or badval or missing or incompl or (cross and cross['disagree']): rc = 2
    return rc

def cross_check(d):
    """cvc5 answers the queries Z3 answered (thorough tier)."""
    fs = sorted(glob.glob(d + '/*.smt2'))
    r = dict(queries=len(fs), agree=0, disagree=0, no_answer=0)
    def one(f):
        m = re.search(r'; expect (\w+)', open(f).read()); exp = m.group(1) if m else '?'
        o = sh(['cvc5', '--tlimit=20000', f]).stdout.strip().split('\n')[0]
        return exp, o
    with ThreadPoolExecutor(NPROC) as p:
        for exp, o in p.map(one, fs[:4000]):
            if o not in ('sat', 'unsat'): r['no_answer'] += 1
            elif o == exp: r['agree'] += 1
            else: r['disagree'] += 1
    return r

def replay(path):
    txt = open(path).read()
    ent = re.search(r'^entry (\S+)', txt, re.M).group(1)
    m = re.search(r'# property (\S+) tier (\S+)', txt)
    prop, tier = (m.group(1), m.group(2)) if m else (sys.argv[3], 'quick')
    os.makedirs(CACHE, exist_ok=True)
    rundir = os.path.join(BUILD, 'run', 'replay-%d' % os.getpid()); os.makedirs(rundir)
    nat = Native(os.path.join(VERIF, 'harness', prop + '.cpp'), ['-DVP_THOROUGH=%d' % (tier == 'thorough')] + fl_header(os.path.join(VERIF, 'harness', prop + '.cpp')))
    for mode in ('nat', 'asan'): print(mode, nat.run(mode, rundir, [path], 20))
    shutil.rmtree(rundir, ignore_errors=True)

if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--build':
        build_engine(); os.makedirs(CACHE, exist_ok=True)
        compile_extra([os.path.join(SUP, f) for f in ('support.cpp', 'env.cpp', 'facets.cpp')], BCFLAGS + ['-fno-builtin'], '.bc'); sys.exit(0)
    if len(sys.argv) > 2 and sys.argv[1] == '--replay': replay(sys.argv[2]); sys.exit(0)
    if len(sys.argv) < 2: die('usage: check.py PROPERTY [quick|thorough]')
    sys.exit(run_check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
