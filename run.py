#!/usr/bin/env python3
"""Runs the check of one property: compiles /repo's current sources to IR, executes the harness
symbolically, replays every counterexample (and a sample of explored paths) on a native build of
the same sources, and writes evidence/<id>.json."""
import sys, os, subprocess, json, time, hashlib, shutil, glob, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
import checks
B = os.path.join(V, 'build')
CXX = 'clang++-18'; LINK = '/usr/lib/llvm-18/bin/llvm-link'
IRF = ['-std=c++17', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-threadsafe-statics', '-gline-tables-only', '-emit-llvm', '-c', '-w']
NATF = ['-std=c++17', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=function,vptr', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
pool = ThreadPoolExecutor(8)

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def fhash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]
class BuildError(Exception): pass
def ensure(out, cmd, what):
    if os.path.exists(out): return out
    r = sh([x.replace('@OUT@', out + '.tmp%d' % os.getpid()) for x in cmd])
    if r.returncode: raise BuildError(what + '\n' + r.stdout[-3000:])
    os.rename(out + '.tmp%d' % os.getpid(), out); return out

def build_engine():
    src = glob.glob(V + '/engine/*.cpp') + glob.glob(V + '/engine/*.h') + [V + '/engine/build.sh']
    h = fhash(src); d = os.path.join(B, 'eng-' + h)
    if not os.path.exists(d + '/symex'):
        r = sh(['bash', V + '/engine/build.sh', d])
        if r.returncode or not os.path.exists(d + '/symex'): raise BuildError('engine\n' + r.stdout[-3000:])
    return d + '/symex'
def inc_dir():
    """libstdc++ headers whose templates are instantiated in the IR; string search is left to the engine"""
    d = B + '/inc/x/bits'; os.makedirs(d, exist_ok=True); base = '/usr/include/x86_64-linux-gnu/c++/13/bits/'
    def put(p, s):
        if not os.path.exists(p) or open(p).read() != s:
            open(p + '.t%d' % os.getpid(), 'w').write(s); os.rename(p + '.t%d' % os.getpid(), p)
    put(d + '/c++config.h', open(base + 'c++config.h').read().replace('\n# define _GLIBCXX_EXTERN_TEMPLATE 1', '\n# define _GLIBCXX_EXTERN_TEMPLATE 0').replace('\n# define _GLIBCXX_EXTERN_TEMPLATE -1', '\n# define _GLIBCXX_EXTERN_TEMPLATE 0'))
    t = open('/usr/include/c++/13/bits/basic_string.tcc').read()
    decl = 'extern "C" unsigned long sym_str_find(const void*, unsigned long, const void*, unsigned long, unsigned long) noexcept;\nextern "C" unsigned long sym_str_findc(const void*, unsigned long, int, unsigned long) noexcept;\n'
    t = t.replace('namespace std _GLIBCXX_VISIBILITY', decl + 'namespace std _GLIBCXX_VISIBILITY', 1)
    for sig, call in (('find(const _CharT* __s, size_type __pos, size_type __n) const', 'sym_str_find(_M_data(), this->size(), __s, __pos, __n)'), ('find(_CharT __c, size_type __pos) const', 'sym_str_findc(_M_data(), this->size(), __c, __pos)')):
        i = t.find('    ' + sig)
        if i >= 0:
            j = t.index('{', i); t = t[:j + 1] + '\n      if (sizeof(_CharT) == 1) return ' + call + ';' + t[j + 1:]
    put(d + '/basic_string.tcc', t)
    # string lengths are made concrete when they are set (one path per length)
    t = open('/usr/include/c++/13/bits/basic_string.h').read()
    a = '_M_length(__n);\n\ttraits_type::assign(_M_data()[__n], _CharT());'
    if a in t:
        t = t.replace('namespace std _GLIBCXX_VISIBILITY', 'extern "C" unsigned long sym_concretize(unsigned long) noexcept;\nnamespace std _GLIBCXX_VISIBILITY', 1)
        t = t.replace(a, '__n = sizeof(_CharT) == 1 && !__builtin_constant_p(__n) ? sym_concretize(__n) : __n;\n\t' + a)
        put(d + '/basic_string.h', t)
    return B + '/inc/x'
def repo_sources():
    r = []
    for root, ds, fs in os.walk(REPO + '/src'):
        ds[:] = [d for d in ds if d not in ('tests', 'test')]
        r += [os.path.join(root, f) for f in fs if f.endswith(('.cpp', '.cc', '.c'))]
    return sorted(r)
def repo_headers():
    r = []
    for root, ds, fs in os.walk(REPO + '/src'):
        r += [os.path.join(root, f) for f in fs if f.endswith(('.h', '.hpp', '.inc'))]
    return sorted(r)

def run(pid, tier):
    t0 = time.time()
    ck = checks.CHECKS[pid]; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(B, exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    inc = inc_dir(); hdr = repo_headers(); hh = glob.glob(V + '/h/*.h') + [V + '/engine/sym.h']
    hdrh = fhash(hdr) + fhash(glob.glob(inc + '/bits/*')); hhh = fhash(hh)
    san = ck.get('ubsan', [])
    defs = ['-DTIER_THOROUGH=%d' % (tier == 'thorough')] + ck.get('defs', [])
    obj = os.path.join(B, 'obj'); os.makedirs(obj, exist_ok=True)
    src = repo_sources()
    def mk(s, kind, extra, mod):
        flags = (IRF + ['-isystem', inc]) if kind == 'ir' else NATF + ['-c', '-DNATIVE_REPLAY']
        k = fhash([s], ' '.join(flags + extra) + hdrh + (hhh if mod else ''))
        cmd = [CXX] + flags + extra + ['-I' + REPO + '/src', '-I' + V + '/h', '-I' + V + '/engine', s, '-o', '@OUT@']
        o = os.path.join(obj, k + ('.bc' if kind == 'ir' else '.o'))
        if kind == 'nat' and os.path.basename(s) == 'maincli.cpp':
            if not os.path.exists(o):
                ensure(o + '.raw', cmd, s); ensure(o, ['objcopy', '--redefine-sym', 'main=repo_main', o + '.raw', '@OUT@'], s)
            return o
        return ensure(o, cmd, s)
    hs = V + '/h/' + ck['harness']
    eng = pool.submit(build_engine)
    ir = [pool.submit(mk, hs, 'ir', defs, True)] + [pool.submit(mk, s, 'ir', san, False) for s in src] + [pool.submit(mk, V + '/rt/rt.cpp', 'ir', ['-fno-builtin'], False)]
    nat = [pool.submit(mk, hs, 'nat', defs, True)] + [pool.submit(mk, s, 'nat', [], False) for s in src]
    bcs = [f.result() for f in ir]; symex = eng.result()
    work = os.path.join(B, 'w-%s-%d' % (pid, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    lb = work + '/all.bc'
    r = sh([LINK] + bcs + ['-o', lb])
    if r.returncode: raise BuildError('link\n' + r.stdout[-3000:])
    known = [k for k in load_known() if k['property'] == pid]
    entries = ck.get('entries', ['harness'])
    secs = ck.get('secs_thorough', 900) if tier == 'thorough' else ck.get('secs', 150)
    entries = [e if isinstance(e, tuple) else (e, 1) for e in entries]
    tw = sum(w for _, w in entries)
    agg = dict(paths=0, pruned=0, insts=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, max_query_s=0.0, asserts=0, asserts_concrete=0, asserts_solved=0)
    funcs = set(); incs = {}; covers = set(); notes = []; viols = []; paths = []; incpaths = []; per = {}
    for e, w in entries:
        out = work + '/' + e
        cmd = [symex, lb, '--out=' + out, '--entry=' + e, '--jobs=8', '--secs=%d' % max(10, secs * w / tw)]
        if ck.get('maxinst'): cmd.append('--maxinst=%d' % ck['maxinst'])
        if known: cmd.append('--known=' + ','.join(k['id'] for k in known))
        r = sh(cmd)
        if not os.path.exists(out + '/stats.json'): raise BuildError('symex %s\n%s' % (e, r.stdout[-2000:]))
        st = json.load(open(out + '/stats.json'))
        for k in agg:
            if k == 'max_query_s': agg[k] = max(agg[k], st[k])
            else: agg[k] += st[k]
        per[e] = dict(paths=st['paths'], forks=st['forks'], queries=st['queries'], wall_s=st['wall_s'])
        for n, f in st['functions']:
            if '/repo/src' in f or REPO + '/src' in f: funcs.add(n)
        for line in open(out + '/log.jsonl', errors='replace'):
            try: d = json.loads(line)
            except ValueError: continue
            if 'viol' in d: d['entry'] = e; viols.append(d)
            elif 'inc' in d: incs[d['inc']] = incs.get(d['inc'], 0) + 1
            elif 'cover' in d: covers.add(d['cover'])
            elif 'note' in d:
                if d['note'] not in notes: notes.append(d['note'])
            elif 'path' in d: paths.append((e, d['path']))
            elif 'incpath' in d: incpaths.append((e, d['incpath']))
    # native build and replays
    objs = [f.result() for f in nat]
    def native(e):
        rp = mk(V + '/rt/replay.cpp', 'nat', ['-DENTRY=' + e], True)
        exe = work + '/replay-' + e
        if not os.path.exists(exe):
            r = sh([CXX, '-fsanitize=address,undefined', '-rdynamic', '-o', exe] + objs + [rp, '-ldl'])
            if r.returncode: raise BuildError('native link\n' + r.stdout[-3000:])
        return exe
    exes = {e: native(e) for e, _ in entries}
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_odr_violation=0:detect_stack_use_after_return=0', UBSAN_OPTIONS='exitcode=78:print_stacktrace=0', SYM_KNOWN=','.join(k['id'] for k in known))
    cnt = [0]
    def replay(e, model, keep=None):
        cnt[0] += 1; n = cnt[0]
        mf = work + '/m%d.txt' % n; sc = work + '/s%d' % n
        open(mf, 'w').write(''.join('%s %d\n' % (a, b) for a, b in model))
        try:
            r = subprocess.run([exes[e], mf, sc], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=ck.get('replay_timeout', 60), env=env, cwd=work)
            err = r.stderr.decode(errors='replace'); rc = r.returncode
        except subprocess.TimeoutExpired: err, rc = 'REPLAY HANG', -999
        shutil.rmtree(sc, ignore_errors=True)
        return rc, err
    def outcome(rc, err):
        m = re.findall(r'REPLAY (ASSERT-FAIL|KNOWN-FAIL|DONE|ASSUME|UNSUPPORTED|CRASH|HANG) ?(.*)', err)
        if rc == 0: return ('ok', m[-1] if m else None)
        if rc == 3: return ('assert', m[-1][1] if m else '?')
        if rc == 4: return ('known', m[-1][1] if m else '?')
        if rc == -999: return ('hang', 'no termination')
        mm = re.search(r'(AddressSanitizer: [^\n]{0,120}|runtime error: [^\n]{0,160}|terminate called[^\n]*|REPLAY CRASH[^\n]*)', err)
        return ('crash', mm.group(1) if mm else 'exit code %d' % rc)
    confirmed = {}; unconfirmed = []; knownhit = {}
    groups = {}
    for d in viols: groups.setdefault((d['entry'], d['kind'], d['viol']), []).append(d)
    def try_group(g):
        (e, kind, vid), ds = g
        if kind == 'engine': return None
        for d in ds[:4]:
            rc, err = replay(e, d['model']); o = outcome(rc, err)
            if o[0] != 'ok': return (e, kind, vid, d, o, err)
        return (e, kind, vid, ds[0], None, '')
    for res in pool.map(try_group, list(groups.items())[:60]):
        if not res: continue
        e, kind, vid, d, o, err = res
        if o is None: unconfirmed.append({'id': vid, 'kind': kind, 'entry': e, 'model': d['model'][:60], 'backtrace': d['bt'][:300]})
        elif o[0] == 'known': knownhit[o[1]] = vid
        elif kind == 'known':
            knownhit[vid.split('|')[0]] = vid
        else: confirmed.setdefault(o[0] + ':' + (o[1] if o[0] == 'assert' else vid), (e, d, o, err))
    # sampled paths: the native run of the same inputs must finish without a failed assertion
    val = 0; disagree = []
    cap = ck.get('validate', 12)
    if confirmed: cap = min(cap, 4)
    step = max(1, len(paths) // cap) if cap else 1
    sel = paths[::step][:cap]; inum = 0
    # paths the engine gave up are at least run once each (sampled), natively
    isel = incpaths[::max(1, len(incpaths) // 16)][:4 if confirmed else 16]
    both = [(x, True) for x in sel] + [(x, False) for x in isel]
    for ((e, m), full), (rc, err) in zip(both, pool.map(lambda x: replay(*x[0]), both)):
        o = outcome(rc, err)
        if o[0] == 'ok' and (not full or o[1] and o[1][0] == 'DONE'):
            if full: val += 1
            else: inum += 1
        elif o[0] == 'known': knownhit[o[1]] = 'path'
        else: disagree.append({'entry': e, 'outcome': str(o), 'model': m[:60]})
        if o[0] in ('assert', 'crash', 'hang'): confirmed.setdefault(o[0] + ':' + o[1], (e, {'model': m, 'viol': o[1], 'bt': ''}, o, err))
    lines = []
    for k, (e, d, o, err) in sorted(confirmed.items()):
        h = hashlib.sha256((pid + k).encode()).hexdigest()[:10]
        rd = '%s/replays/%s-%s' % (V, pid, h); os.makedirs(rd, exist_ok=True)
        open(rd + '/model.txt', 'w').write(''.join('%s %d\n' % (a, b) for a, b in d['model']))
        open(rd + '/what.txt', 'w').write('property %s, entry %s, %s: %s\nsolver assignment in model.txt; native replay output:\n%s\nreplay again: python3 /verif/run.py --replay %s %s %s\n' % (pid, e, o[0], o[1], err[-4000:], pid, e, rd + '/model.txt'))
        lines.append('VIOLATION property=%s replay=%s' % (pid, rd)); print('%s: %s %s' % (pid, o[0], o[1]))
    for k in known:
        if k['id'] in knownhit: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for u in unconfirmed: print('unconfirmed (not reported): %s %s %s' % (u['kind'], u['id'], u['entry']))
    for i, n in incs.items(): print('incomplete: %s (%d)' % (i, n))
    missing = [c for c in ck.get('covers', []) if c not in covers]
    for c in missing: print('not reached: ' + c)
    samples = []
    for e, m in sel[:6]: samples.append({'entry': e, 'inputs': {a: b for a, b in m[:40]}})
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(confirmed),
        coverage=dict(states=agg['paths'], transitions=agg['forks'], traces_validated_against_impl=val, samples=samples or [{'note': 'no completed path sampled'}],
            meaning='states = symbolic execution paths completed (each covers every value of its symbolic inputs that follows it); transitions = solver-decided two-way branch points; traces_validated_against_impl = models of explored paths replayed on a native sanitizer build of the same sources with the same outcome',
            paths_pruned_by_assumptions=agg['pruned'], ir_instructions=agg['insts'], solver_queries=agg['queries'], solver_sat=agg['sat'], solver_unsat=agg['unsat'], solver_unknown=agg['unknown'], solver_seconds=round(agg['solver_s'], 2), max_query_seconds=round(agg['max_query_s'], 2),
            assertions_checked=agg['asserts'], assertions_decided_by_simplification=agg['asserts_concrete'], assertions_decided_by_solver=agg['asserts_solved'],
            functions_encoded=sorted(funcs), functions_encoded_count=len(funcs), bounds=ck['bounds'] + (ck.get('bounds_thorough', []) if tier == 'thorough' else []), outside_bounds=ck.get('outside', []), witnesses_reached=sorted(covers), witnesses_missing=missing,
            incomplete=incs, incomplete_paths_run_natively=inum, unconfirmed=unconfirmed, native_disagreements=disagree, notes=notes[:20], entries=per,
            known_findings=[k['id'] for k in known if k['id'] in knownhit]),
        assumptions=ck.get('assumptions', []) + checks.COMMON_ASSUMPTIONS)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    if not os.environ.get('VERIF_KEEP'): shutil.rmtree(work, ignore_errors=True)
    print('%s %s: %d paths, %d forks, %d queries (%.1f s solver), %d assertions, %d validated natively, %d violations, %.1f s' % (pid, tier, agg['paths'], agg['forks'], agg['queries'], agg['solver_s'], agg['asserts'], val, len(confirmed), time.time() - t0))
    for l in lines: print(l)
    if confirmed: return 1
    if agg['paths'] == 0:
        print('no path completed')
        if not inum: return 2
    return 0

def load_known():
    r = []
    p = V + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
            if m: r.append(dict(property=m.group(1), id=m.group(2), what=m.group(3).strip()))
    return r

def replay_cmd(pid, entry, model):
    ck = checks.CHECKS[pid]; w = B + '/rp-%d' % os.getpid(); os.makedirs(w)
    f = NATF + ['-DNATIVE_REPLAY', '-DTIER_THOROUGH=0', '-DENTRY=' + entry] + ck.get('defs', []) + ['-I' + REPO + '/src', '-I' + V + '/h', '-I' + V + '/engine']
    objs = []
    for s in repo_sources() + [V + '/h/' + ck['harness'], V + '/rt/replay.cpp']:
        o = w + '/%d.o' % len(objs); objs.append((s, o))
    rs = list(pool.map(lambda x: sh([CXX] + f + ['-c', x[0], '-o', x[1]]), objs))
    for x in rs:
        if x.returncode: print(x.stdout); return 2
    for s, o in objs:
        if s.endswith('maincli.cpp'): sh(['objcopy', '--redefine-sym', 'main=repo_main', o])
    sh([CXX, '-fsanitize=address,undefined', '-rdynamic', '-o', w + '/exe'] + [o for _, o in objs] + ['-ldl'])
    r = subprocess.run([w + '/exe', os.path.abspath(model), w + '/scratch'], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    print('scratch kept in', w); return r.returncode

if __name__ == '__main__':
    if sys.argv[1] == '--replay': sys.exit(replay_cmd(*sys.argv[2:5]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    try: rc = run(sys.argv[1], tier)
    except BuildError as e:
        print('check error: %s' % e); rc = 2
    sys.exit(rc)
