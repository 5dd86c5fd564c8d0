#!/usr/bin/env python3-vt
"""Check driver: vcg + proof of one property.

  check.py ID [--tier quick|thorough] [--only HARNESS] [-v]

Unit files /verif/units/<ID>*.cpp contain the contracts. Directives (comments):
  //@harness NAME [key=value ...]   kind=proof (default) | inductive | bounded | search
  //@preempt REGEX => FUNCTION      in matching functions FUNCTION(address, kind) is called before (kind 0 load, 2 store,
                                    4 atomic update) and after (kind+1) every access that is not to a local variable:
                                    other threads act in the first (rely), the step is judged in the second (guarantee)
  //@replace REGEX => FUNCTION      calls are checked against the contract FUNCTION
  //@stub REGEX => nop|havoc|zero|throw|violation
  //@flags ...                      extra compiler flags
  //@assume TEXT                    an assumption recorded in the evidence
  //@ubsan on                       signed overflow/shift become obligations
  //@function TEXT                  a real function under contract (informational)
"""
import sys, os, re, json, time, subprocess, shutil, hashlib, argparse, multiprocessing, traceback, signal, resource
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VP_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
sys.setrecursionlimit(20000)


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


class ToolError(Exception):
    pass


def parse_unit(path):
    u = dict(path=path, harness=[], replace=[], stub=[], flags=[], assume=[], ubsan=False, functions=[], passes=None, loop=[], recursive=[], preempt=[])
    for l in open(path):
        m = re.match(r'\s*//@(\w+)\s*(.*?)\s*$', l)
        if not m: continue
        k, v = m.groups()
        if k == 'harness':
            p = v.split()
            o = {'kind': 'proof'}
            for x in p[1:]:
                a, b = x.split('=', 1); o[a] = b
            u['harness'].append((p[0], o))
        elif k == 'replace':
            a, b = v.rsplit('=>', 1); u['replace'].append((a.strip(), b.strip()))
        elif k == 'stub':
            a, b = v.rsplit('=>', 1); u['stub'].append((a.strip(), b.strip()))
        elif k == 'recursive':
            a, b = v.rsplit('=>', 1); u['recursive'].append((a.strip(), b.strip()))
        elif k == 'loop':
            a, b = v.rsplit('=>', 1); a = a.strip(); b = b.strip()
            q = re.match(r'(.*?)\s+#(\d+)$', a)
            u['loop'].append((q.group(1) if q else a, int(q.group(2)) if q else None, None if b == 'auto' else b))
        elif k == 'preempt':
            a, b = v.rsplit('=>', 1); u['preempt'].append((a.strip(), b.strip()))
        elif k == 'flags': u['flags'] += v.split()
        elif k == 'assume': u['assume'].append(v)
        elif k == 'function': u['functions'].append(v)
        elif k == 'passes': u['passes'] = v
        elif k == 'ubsan': u['ubsan'] = True
        else: raise ToolError('unknown directive //@' + k)
    return u


def platform_dir(work):
    """platform.h is generated by the project's build; make one if it is missing"""
    if os.path.exists(REPO + '/src/lightspeed/platform.h'): return []
    d = work + '/inc/lightspeed'
    os.makedirs(d, exist_ok=True)
    shutil.copy(VERIF + '/include/platform_default.h', d + '/platform.h')
    # quoted includes are resolved next to the includer first, then in -I order
    out = ['-I' + work + '/inc', '-I' + d]
    for sub in ('base', 'mt', 'utils', 'base/linux', 'mt/linux', 'base/actions', 'base/streams', 'utils/impl', 'utils/json'):
        os.makedirs(d + '/' + sub, exist_ok=True)
        out.append('-I' + d + '/' + sub)
    return out


def cflags(u, work):
    f = ['-std=c++11', '-w', '-DDEBUG', '-D_DEBUG', '-DVP_VERIFY', '-include', 'exception', '-I' + REPO + '/src', '-I' + VERIF + '/include',
         '-I' + VERIF + '/units', '-fno-access-control', '-fno-delete-null-pointer-checks', '-fno-strict-aliasing',
         '-fwrapv' if not u['ubsan'] else '-DVP_UBSAN']
    f += platform_dir(work)
    return f + u['flags']


def compile_unit(u, work):
    name = os.path.basename(u['path'])[:-4]
    bc = '%s/%s.bc' % (work, name); llp = '%s/%s.ll' % (work, name)
    cmd = ['clang++-18'] + cflags(u, work) + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-threadsafe-statics',
           '-emit-llvm', '-c', u['path'], '-o', bc]
    if u['ubsan']:
        cmd += ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero', '-fsanitize-trap=all']
    r = sh(cmd)
    if r.returncode: raise ToolError('compilation of the contract unit failed:\n' + r.stderr[:3000])
    keep = [h for h, _ in u['harness']] + [f for _, f in u['replace'] + u['recursive'] + u['preempt']] + [f for _, _, f in u['loop'] if f]
    passes = u['passes'] or 'internalize,globaldce,function(sroa,simplifycfg,instsimplify)'
    r = sh([LLVM + '/opt', '-passes=' + passes, '-internalize-public-api-list=' + ','.join(keep), '-S', bc, '-o', llp])
    if r.returncode: raise ToolError('opt failed:\n' + r.stderr[:3000])
    if u['preempt']: preempt(u, llp)
    return llp


def preempt(u, llp):
    src = open(llp).read().split('\n'); out = []; hook = None; hit = set()
    names = [m.group(1).strip('"') for l in src for m in [re.match(r'define .*?@("[^"]+"|[\w.$]+)\(', l)] if m]
    dem = demangle(names)
    acc = re.compile(r'\s*(?:%\S+ = )?(load|store|cmpxchg|atomicrmw)\b')
    for l in src:
        m = re.match(r'define .*?@("[^"]+"|[\w.$]+)\(', l)
        if m:
            d = dem[m.group(1).strip('"')]; hook = None; local = set()
            for rx, fn in u['preempt']:
                if re.match(rx, d): hook = fn; hit.add(rx); break
        elif l.startswith('}'): hook = None
        elif hook:
            a = re.match(r'\s*(%\S+) = alloca ', l)
            if a: local.add(a.group(1))
            a = acc.match(l)
            if a:
                op = a.group(1)
                if op == 'cmpxchg' or op == 'atomicrmw': q = re.search(r'\bptr (@?%?[^\s,]+),', l).group(1)
                else:
                    q = re.findall(r', ptr ((?:@|%)[^\s,]+|(?:getelementptr|inttoptr).*?\))(?=,| |$)', l)
                    if not q: raise ToolError('preemption point: ' + l)
                    q = q[-1]
                if q not in local:
                    k = {'load': 0, 'store': 2}.get(op, 4)
                    out.append('  call void @%s(ptr %s, i32 %d)' % (hook, q, k)); out.append(l)
                    out.append('  call void @%s(ptr %s, i32 %d)' % (hook, q, k + 1)); continue
        out.append(l)
    miss = [rx for rx, _ in u['preempt'] if rx not in hit]
    if miss: raise ToolError('no function matches the preemption pattern ' + ' '.join(miss))
    open(llp, 'w').write('\n'.join(out))


def demangle(names):
    r = subprocess.run(['c++filt', '--no-strip-underscore'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


_mod = {}


def run_harness(job):
    """worker: returns a plain dict"""
    (unit, llp, h, o, tier, budget, cross) = job
    t0 = time.time()
    res = dict(harness=h, kind=o['kind'], opts=o, error=None, obls=[], covers={}, paths=0, unit=os.path.basename(unit['path']))
    try:
        import ll, sym
        cls = None
        if 'engine' in o:
            import importlib
            cls = getattr(importlib.import_module(o['engine']), 'Eng')
        else:
            import execu
            cls = execu.Exec
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        mod = ll.Module(open(llp).read())
        names = list(mod.fns) + list(mod.globs)
        dem = demangle(names)
        opts = {}
        for k in ('max_visits', 'max_paths', 'timeout_ms', 'max_steps', 'quick_ms', 'feas_timeout_ms', 'int_ms', 'sweep', 'lia'):
            if k in o: opts[k] = int(o[k])
        if 'arr' in o: opts['arr'] = 1
        for k in ('divmod', 'ufmul', 'name', 'modwrap'):
            if k in o: opts[k] = 1
        e = cls(mod, dem, opts)
        e.hopts = o
        e.replace = [(re.compile(a), b) for a, b in unit['replace']]
        e.stubs = [(re.compile(a), b) for a, b in unit['stub']] + e.stubs
        e.recursive = [(re.compile(a), b) for a, b in unit['recursive']]
        e.loops = [(re.compile(a), k, b) for a, k, b in unit['loop']]
        e.deadline = budget
        e.cross = cross
        if h not in mod.fns: raise sym.EngineError('harness %s not found in the IR' % h)
        init = None
        if 'noctors' not in o:
            init = run_ctors(e, mod)
        if tier == 'thorough': e.hopts = dict(o, deep='1')
        res['paths'] = e.run_fix(h, init)
        res['reached_end'] = e.reached_end
        res['obls'] = [dict(name=x.name, kind=x.kind, status=x.status, time=round(x.time, 4), where=x.where, inputs=x.inputs,
                            reason=x.reason, backend=x.backend, model=x.model) for x in e.obls]
        res['covers'] = e.covers
        res['fns'] = sorted(dem.get(f, f) for f in e.used_fns)
        res['stubs'] = {k: str(v) for k, v in e.used_stubs.items()}
        res['assumes'] = sorted(e.assumes)
        res['loops'] = sorted(e.used_loops)
        res['queries'] = e.queries
        res['solver_time'] = e.solver_time
        res['stable'] = {k: len(v) for k, v in e.houdini.items()}
    except Exception as ex:
        import sym, ll
        res['error'] = '%s: %s' % (type(ex).__name__, ex)
        if not isinstance(ex, (sym.EngineError, ll.ParseError)):
            res['error'] += '\n' + traceback.format_exc()
        try:
            res['obls'] = [dict(name=x.name, kind=x.kind, status=x.status, time=round(x.time, 4), where=x.where, inputs=x.inputs,
                                reason=x.reason, backend=x.backend, model=x.model) for x in e.obls]
        except Exception:
            pass
    res['wall'] = time.time() - t0
    return res


def run_ctors(e, mod):
    """static initialisers of the unit, executed concretely"""
    from sym import State, PathEnd
    g = mod.globs.get('llvm.global_ctors')
    if g is None: return None
    st = State()
    fs = []
    for x in g.init[2]:
        fs.append(x[2][1][1])
    for fn in fs:
        st = run_plain(e, mod, fn, st)
    for o in e.obls: pass
    e.obls = []
    e.used_fns = {}
    return st


def run_plain(e, mod, fn, st):
    from sym import PathEnd
    done = []
    old = e.on_end
    e.on_end = lambda s: done.append(s)
    f = mod.fns[fn]
    e.push_frame(st, f, [], None, None, None, None)
    work = []
    try:
        while True: e.step(st, work)
    except PathEnd:
        pass
    e.on_end = old
    if work or len(done) != 1:
        from sym import EngineError
        raise EngineError('static initialiser %s is not deterministic' % fn)
    d = done[0]
    d.pc = []
    return d


# ---------------------------------------------------------------- native side
def build_native(u, work, log):
    """the same unit against the real library, with address sanitizer"""
    name = os.path.basename(u['path'])[:-4]
    exe = '%s/%s.native' % (work, name)
    if os.path.exists(exe): return exe
    lib = work + '/lib'
    if not os.path.exists(lib + '/ok'):
        os.makedirs(lib, exist_ok=True)
        srcs = []
        for root, d, fs in os.walk(REPO + '/src/lightspeed'):
            if '/windows' in root: continue
            srcs += [os.path.join(root, f) for f in fs if f.endswith('.cpp')]
        fl = [x for x in cflags(dict(ubsan=False, flags=[]), work) if x != '-DVP_VERIFY']

        def one(s):
            o = lib + '/' + hashlib.md5(s.encode()).hexdigest()[:12] + '.o'
            return sh(['clang++-18'] + fl + ['-O0', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-c', s, '-o', o]).returncode, s
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            bad = [s for rc, s in ex.map(one, srcs) if rc]
        log.append('native library: %d sources, not compiled: %s' % (len(srcs), [os.path.basename(b) for b in bad]))
        sh('ar rcs %s/libls.a %s/*.o' % (lib, lib), shell=True)
        open(lib + '/ok', 'w').close()
    tab = '%s/%s_tab.cpp' % (work, name)
    with open(tab, 'w') as f:
        for h, _ in u['harness']: f.write('extern "C" void %s();\n' % h)
        f.write('struct H { const char *n; void (*f)(); };\nextern H vp_harness_table[];\nH vp_harness_table[] = {')
        for h, _ in u['harness']: f.write('{"%s",%s},' % (h, h))
        f.write('{0,0}};\n')
    r = sh(['clang++-18'] + cflags(u, work) + ['-DVP_NATIVE', '-O0', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', u['path'],
            VERIF + '/include/vp_native.cpp', tab, '-o', exe, '-Wl,--allow-multiple-definition', lib + '/libls.a', '-lpthread', '-ldl', '-lrt', '-ldw']
           if False else
           ['clang++-18'] + cflags(u, work) + ['-DVP_NATIVE', '-O0', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', u['path'],
            VERIF + '/include/vp_native.cpp', tab, '-o', exe, '-Wl,--allow-multiple-definition', lib + '/libls.a', '-lpthread', '-ldl', '-lrt'])
    if r.returncode:
        log.append('native build failed: ' + r.stderr[-1500:])
        return None
    return exe


def native(exe, args, t):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:handle_segv=0:handle_abort=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0')
    try:
        r = subprocess.run([exe] + args, capture_output=True, text=True, timeout=t, env=env, errors='replace')
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    return r.returncode, r.stdout[-6000:] + '\n' + r.stderr[-3000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    pid = a.id
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    work = '/tmp/lsvc.%s.%d' % (pid, os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rc = 2
    try:
        rc = check(a, pid, seed, work, t0)
    except ToolError as e:
        print('ERROR property=%s %s' % (pid, e))
        rc = 2
    finally:
        if not os.environ.get('VP_KEEP'): shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def load_known(pid):
    out = []
    p = VERIF + '/KNOWN_FINDINGS.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) obligation=(\S+) \| (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out


def check(a, pid, seed, work, t0):
    units = sorted(VERIF + '/units/' + f for f in os.listdir(VERIF + '/units') if re.match(re.escape(pid) + r'(_\w+)?\.cpp$', f))
    if not units: raise ToolError('no unit for ' + pid)
    U = [parse_unit(p) for p in units]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(lambda u: compile_unit(u, work), U))
    budget = t0 + (a.budget or (560 if a.tier == 'quick' else 3000))   # one deadline for all: the stand-in must still fit
    jobs = []
    for u, llp in zip(U, lls):
        for h, o in u['harness']:
            if a.only and not re.search(a.only, h): continue
            if o['kind'] == 'search': continue
            if o.get('tier') == 'thorough' and a.tier != 'thorough': continue
            jobs.append((u, llp, h, o, a.tier, budget, a.tier == 'thorough' and o.get('cross') != 'no'))
    jobs.sort(key=lambda j: -float(j[3].get('cost', 1)))
    results = []
    known = load_known(pid)
    ctx = multiprocessing.get_context('fork')
    import sym
    if not known: sym.STOP = ctx.Value('d', float('inf'))
    with ctx.Pool(min(a.j, max(1, len(jobs))), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(run_harness, jobs, chunksize=1):
            results.append(r)
            if a.v:
                st = {}
                for o in r['obls']: st[o['status']] = st.get(o['status'], 0) + 1
                print('  %-34s %-9s paths=%-5s %s %.1fs %s %s' % (r['harness'], r['kind'], r['paths'], st, r['wall'], r.get('stable') or '', r['error'] or ''), flush=True)
                for o in [o for o in r['obls'] if o['status'] != 'discharged'][:4]:
                    print('      %s: %s [%s] at %s  inputs=%s' % (o['status'].upper(), o['name'], o['kind'], o['where'], o['inputs']))
                bad = [c for c, ok in r['covers'].items() if not ok]
                if bad: print('      cover not reached', bad)
    failed = []; errors = []; knownhit = []; unk = []
    for r in results:
        for o in r['obls']:
            if o['status'] == 'failed':
                key = '%s/%s' % (r['harness'], re.sub(r'\W+', '-', o['name']))
                k = [t for kk, t in known if kk == key]
                if k: knownhit.append((key, k[0]))
                else: failed.append((r, o))
            elif o['status'] == 'unknown':
                unk.append((r, o))
                errors.append('%s: solver gave no answer on obligation "%s"' % (r['harness'], o['name']))
        if r['error']:
            errors.append('%s: %s' % (r['harness'], r['error']))
        elif not r['obls']:
            errors.append('%s: vacuous, no obligation generated' % r['harness'])
        elif not r.get('reached_end') and not any(o['status'] == 'failed' for o in r['obls']) and r['opts'].get('end') != 'no':
            errors.append('%s: vacuous, no path reaches the end of the harness' % r['harness'])
        for c, ok in r['covers'].items():
            if not ok: errors.append('%s: cover point %s unreachable' % (r['harness'], c))
    for key, t in dict(knownhit).items():
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, t, key))
    log = []
    viol = None
    if failed or unk:
        viol = confirm(a, pid, seed, U, failed + unk, work, log)
        # no answer from the solver is not a violation unless the real code fails
        if not failed and not viol['confirmed']: viol = None
    failed += unk
    write_evidence(a, pid, seed, results, U, failed, errors, viol, t0, knownhit)
    if viol:
        print('VIOLATION property=%s replay=%s%s' % (pid, viol['path'], '' if viol['confirmed'] else ' no-failing-input-found'))
        return 1
    if errors:
        # a tool limit: nothing is concluded about those harnesses; the same contracts run on the real code stand in, labelled bounded
        for e in errors: print('UNPROVED property=%s %s' % (pid, e))
        hard = [r for r in results if r['error']] + [r for r, _ in unk]
        if len(hard) == 0 or any('vacuous' in e or 'unreachable' in e for e in errors):
            print('ERROR property=%s no answer' % pid); return 2
        v = confirm(a, pid, seed, U, [(r, dict(name=r['error'] or 'no answer from the solver', kind='tool', status='error', where='', reason='', inputs=[], model=[])) for r in hard], work, log)
        ran = [n for n in v['native'] if n['rc'] in (0, 9)]
        write_evidence(a, pid, seed, results, U, failed, errors, v if v['confirmed'] else None, t0, knownhit, standin=v['native'])
        if v['confirmed']:
            print('VIOLATION property=%s replay=%s' % (pid, v['path'])); return 1
        if not ran:
            print('ERROR property=%s no answer and no stand-in' % pid); return 2
        print('BOUNDED property=%s obligations=%d discharged=%d; for the unproved harnesses the contract was only sampled on the real code (%d runs, no failure)' % (
            pid, sum(len(r['obls']) for r in results), sum(1 for r in results for o in r['obls'] if o['status'] == 'discharged'), len(ran)))
        return 0
    print('OK property=%s obligations=%d harnesses=%d wall=%.1fs' % (pid, sum(len(r['obls']) for r in results), len(results), time.time() - t0))
    return 0


def confirm(a, pid, seed, U, failed, work, log):
    """replay counter-models on the real code; then search from the API"""
    out = VERIF + '/out'
    os.makedirs(out, exist_ok=True)
    path = '%s/%s.replay.json' % (out, pid)
    byunit = {os.path.basename(u['path']): u for u in U}
    rec = dict(property=pid, confirmed=False, path=path, obligations=[], native=[], how='', log=log)
    for r, o in failed[:40]:
        rec['obligations'].append(dict(harness=r['harness'], obligation=o['name'], kind=o['kind'], status=o['status'], where=o['where'],
                                       reason=o['reason'], inputs=o['inputs'], model=o['model']))
    tlimit = time.time() + 200
    tried = {}
    for r, o in failed:
        u = byunit[r['unit']]
        if r['kind'] == 'inductive' or not o['inputs'] or r['opts'].get('native') == 'no': continue
        if tried.get(r['harness'], 0) >= 4 or time.time() > tlimit: continue
        tried[r['harness']] = tried.get(r['harness'], 0) + 1
        exe = build_native(u, work, log)
        if not exe: break
        args = [r['harness'], 'replay'] + [str(int(v)) for _, v in o['inputs']]
        rc, txt = native(exe, args, 30)
        rec['native'].append(dict(cmd=args, rc=rc, out=txt[-1500:]))
        if rc not in (0, 9, None):
            rec['confirmed'] = True
            rec['how'] = 'counter-model of obligation "%s" (harness %s) replayed on the real code' % (o['name'], r['harness'])
            break
    if not rec['confirmed']:
        # search with the same contracts, from the initial state through the public API
        hs = []
        fu = {r['unit'] for r, _ in failed}
        for u in U:
            if os.path.basename(u['path']) not in fu: continue
            for h, o in u['harness']:
                if o['kind'] == 'search' or (o['kind'] in ('proof', 'bounded') and o.get('native') != 'no'): hs.append((u, h, o))
        hs.sort(key=lambda x: x[2]['kind'] != 'search')
        names = [r['harness'] for r, _ in failed]
        hs.sort(key=lambda x: (x[2]['kind'] != 'search', x[1] not in names))
        exes = {u['path']: build_native(u, work, log) for u, h, o in {id(x[0]): x for x in hs}.values()}
        from concurrent.futures import ThreadPoolExecutor
        def one(x):
            u, h, o = x
            if time.time() > tlimit or rec['confirmed'] or not exes[u['path']]: return
            secs = 25 if o['kind'] == 'search' else 12 if h in names else 8
            rc, txt = native(exes[u['path']], [h, 'search', str(seed * 1000003), str(secs)], secs + 30)
            rec['native'].append(dict(cmd=[h, 'search', seed, secs], rc=rc, out=txt[-1500:]))
            if rc not in (0, 9, None) and not rec['confirmed']:
                rec['confirmed'] = True
                rec['how'] = 'obligation undischarged; failing input found on the real code by %s' % h
        with ThreadPoolExecutor(6) as ex: list(ex.map(one, hs))
    with open(path, 'w') as f: json.dump(rec, f, indent=1, default=str)
    return rec


def write_evidence(a, pid, seed, results, U, failed, errors, viol, t0, knownhit, standin=None):
    tot = sum(len(r['obls']) for r in results)
    dis = sum(1 for r in results for o in r['obls'] if o['status'] == 'discharged')
    bounded = [r for r in results if r['kind'] == 'bounded']
    backends = {}
    kinds = {}
    fns = set(); stubs = set(); assumes = set()
    for r in results:
        for o in r['obls']:
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
        fns |= set(f for f in r.get('fns', []) if 'LightSpeed' in f)
        stubs |= set('%s -> %s' % (k, v) if not k.startswith('contract') else k for k, v in r.get('stubs', {}).items())
        assumes |= set(r.get('assumes', []))
    for u in U: assumes |= set(u['assume'])
    man = {}
    try:
        m = json.load(open(VERIF + '/MANIFEST.json'))
        man = {c['property']: c for c in m['checks']}.get(pid, {})
    except Exception:
        pass
    pr = [r for r in results if r['kind'] != 'bounded']
    ev = dict(property=pid, tier=a.tier, seed=seed, level=man.get('level', 'proof'), wall_s=round(time.time() - t0, 2),
              violations=1 if viol else 0,
              coverage=dict(
                  obligations=sum(len(r['obls']) for r in pr),
                  discharged=sum(1 for r in pr for o in r['obls'] if o['status'] == 'discharged'),
                  bounded_obligations=sum(len(r['obls']) for r in bounded),
                  bounded_discharged=sum(1 for r in bounded for o in r['obls'] if o['status'] == 'discharged'),
                  bounds=sorted('%s: %s' % (r['harness'], r['opts'].get('bound', '?')) for r in bounded),
                  checker_cmd='python3-vt lsvc/check.py %s --tier %s' % (pid, a.tier),
                  trusted_base=['clang 18 front end at -O0 and the opt passes sroa, simplifycfg, instsimplify',
                                'lsvc VC generator (/verif/lsvc): parser, memory model, path exploration',
                                'z3 %s' % __import__('z3').get_version_string()] + (['cvc5 1.1.2 cross-check'] if a.tier == 'thorough' else []),
                  backends=backends, obligation_kinds=kinds,
                  solver_s=round(sum(r.get('solver_time', 0) for r in results), 2),
                  solver_queries=sum(r.get('queries', 0) for r in results),
                  harnesses=[dict(name=r['harness'], kind=r['kind'], unit=r['unit'], paths=r['paths'], paths_to_end=r.get('reached_end'),
                                  obligations=len(r['obls']), discharged=sum(1 for o in r['obls'] if o['status'] == 'discharged'),
                                  stable_cells=r.get('stable'), wall_s=round(r['wall'], 2), error=r['error'], covers=r['covers']) for r in sorted(results, key=lambda r: r['harness'])],
                  functions_under_contract=sorted(fns),
                  stubs=sorted(stubs),
                  loops_under_invariant=sorted(set(x for r in results for x in r.get('loops', []))),
                  undischarged=[dict(harness=r['harness'], obligation=o['name'], status=o['status']) for r, o in failed][:50],
                  known_findings=sorted(set(k for k, _ in knownhit)),
                  errors=errors, sampled_stand_in=[dict(cmd=n['cmd'], rc=n['rc']) for n in standin or []]),
              assumptions=sorted(assumes) + ['x86-64 Linux data layout; sequentially consistent single-threaded execution unless the harness states a rely',
                                             'exception objects and their message text are stubbed (construction of an exception has no other effect)'])
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (VERIF, pid), 'w') as f: json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    main()
