"""Verification-condition generator: symbolic execution of LLVM IR compiled
from the real sources, obligations discharged by z3.

Values
  integer iN (N>1)  python int in [0,2^N) or z3 BitVec(N)
  i1                python 0/1 or z3 Bool
  ptr               Ptr(region, offset); region 0 is the absolute address space
  double/float      python float or z3 FP term
  aggregate         python list
Memory is a set of regions (one per allocation); distinct allocations are
disjoint; every access carries a bounds/liveness obligation.
"""
import re, time, sys, os, struct
import z3
import sweep
import lia
SLOW = float(os.environ.get('VP_SLOW', '0'))
import ll
from ll import I, PTR, ParseError

DBG = __import__("os").environ.get("VP_DBG")
M64 = (1 << 64) - 1


STOP = None     # shared by the workers: when to give up after the first failed obligation


class EngineError(Exception):
    """tool limit: nothing can be concluded (error exit)"""


class Fork(Exception):
    """the current instruction needs a case split; alts = [(cond, key, val)]"""
    def __init__(self, alts):
        self.alts = alts


class PathEnd(Exception):
    pass


class TooMany(Exception):
    """enough failed obligations: stop exploring this harness"""


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r = r; self.o = o

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.r, self.o)


NULL = Ptr(0, 0)


class Region:
    __slots__ = ('id', 'size', 'cells', 'kind', 'alive', 'arr', 'es', 'fill', 'owner', 'name', 'const', 'init', 'el')

    def __init__(self, id, size, kind, name='', fill='undef'):
        self.id = id; self.size = size; self.kind = kind; self.name = name
        self.cells = {}; self.alive = True; self.arr = None; self.es = 0
        self.fill = fill; self.owner = None; self.const = False; self.init = None
        self.el = None

    def copy(self, owner):
        r = Region(self.id, self.size, self.kind, self.name, self.fill)
        r.cells = dict(self.cells); r.alive = self.alive; r.arr = self.arr; r.es = self.es
        r.const = self.const; r.init = self.init; r.el = self.el
        r.owner = owner
        return r


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'regs', 'prev', 'dst', 'rt', 'nl', 'ul', 'allocas', 'visits', 'onret', 'cuts')

    def __init__(self, fn):
        self.fn = fn; self.regs = {}; self.prev = None; self.ip = 0
        self.allocas = []; self.visits = {}; self.onret = None; self.cuts = None

    def copy(self):
        f = Frame(self.fn)
        f.blk = self.blk; f.ip = self.ip; f.regs = dict(self.regs); f.prev = self.prev
        f.dst = self.dst; f.rt = self.rt; f.nl = self.nl; f.ul = self.ul
        f.allocas = list(self.allocas); f.visits = dict(self.visits); f.onret = self.onret
        f.cuts = dict(self.cuts) if self.cuts else None
        return f


class State:
    _n = 0

    def __init__(self):
        State._n += 1
        self.id = State._n
        self.frames = []
        self.regions = {}
        self.pc = []           # list of z3 Bool, append only (copied on fork)
        self.inputs = []       # (kind, expr) in the order the harness asked
        self.conc = {}         # concretised expressions: id -> (expr,int)
        self.exc = None        # (Ptr, typeinfo, dtor)
        self.caught = []
        self.rmap = {}         # ghost
        self.flags = {}
        self.steps = 0
        self.trace = []
        self.fresh = 0
        self.pend = None

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.regions = dict(self.regions)
        for r in self.regions.values():
            r.owner = None
        s.pc = list(self.pc); s.inputs = list(self.inputs); s.conc = dict(self.conc)
        s.exc = self.exc; s.caught = list(self.caught); s.rmap = dict(self.rmap); s.flags = dict(self.flags)
        s.steps = self.steps; s.trace = list(self.trace); s.fresh = self.fresh; s.pend = self.pend
        return s

    def rw(self, rid):
        r = self.regions[rid]
        if r.owner != self.id:
            r = r.copy(self.id)
            self.regions[rid] = r
        return r


# ------------------------------------------------------------ term helpers
def isz(v):
    return isinstance(v, z3.ExprRef)


def bv(v, n):
    if n == 1:
        return z3.If(boolz(v), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return v if isz(v) else z3.BitVecVal(v, n)


def boolz(v):
    if isz(v):
        return v
    return z3.BoolVal(bool(v))


def norm(v):
    """fold constants"""
    if isz(v):
        if z3.is_bv_value(v): return v.as_long()
        if z3.is_true(v): return 1
        if z3.is_false(v): return 0
    return v


def simp(v):
    if isz(v):
        return norm(z3.simplify(v))
    return v


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v


class Obligation:
    __slots__ = ('name', 'kind', 'status', 'time', 'where', 'model', 'inputs', 'reason', 'backend', 'smt')

    def __init__(self, name, kind, where):
        self.name = name; self.kind = kind; self.where = where
        self.status = None; self.time = 0.0; self.model = None; self.inputs = None; self.reason = ''
        self.backend = 'z3'; self.smt = None


BUILTIN_STUBS = [
    (r'^LightSpeed::ProgramLocation::', 'nop'),
    (r'^LightSpeed::\w*Exception\w*(<.*>)?::~?\w*Exception\w*\(', 'nop'),
    (r'^LightSpeed::Exception::', 'nop'),
    (r'^LightSpeed::\w+Exception_t(<.*>)?::', 'nop'),
    (r'^LightSpeed::\w*Exception\w*(<.*>)?::\w+\(', 'nop'),
    (r'^(virtual thunk|non-virtual thunk) to LightSpeed::\w*Exception', 'nop'),
    (r'^std::(exception|logic_error|runtime_error|bad_alloc|type_info)::', 'nop'),
]


class Engine:
    @property
    def deadline(self):
        return self._deadline if STOP is None or not self._deadline else min(self._deadline, STOP.value)

    @deadline.setter
    def deadline(self, v):
        self._deadline = v

    def __init__(self, mod, dem, opts=None):
        self.m = mod
        self.dem = dem                      # mangled -> demangled
        self.o = dict(max_visits=600, max_steps=4000000, max_paths=20000, timeout_ms=60000,
                      feas_timeout_ms=20000, oob_check=True)
        self.o.update(opts or {})
        self.replace = []                   # (regex, symbol)
        self.stubs = [(re.compile(r), a) for r, a in BUILTIN_STUBS]
        self.dispatch_cache = {}
        self.obls = []
        self.covers = {}
        self.used_fns = {}
        self.used_stubs = {}
        self.assumes = set()
        self.regionid = 1
        self.gid = 1000000
        self.gprotos = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.o['feas_timeout_ms'])
        self.stack = []
        self.solver_time = 0.0
        self.queries = 0
        self.houdini = {}
        self.hou_changed = False
        self.phase = 'final'
        self._deadline = None
        self.cexs = []
        self.fnregions = {}
        self.globregion = {}
        self.freshn = 0
        self.done_paths = 0
        self.unwound = []
        self.cross = None
        self.rg = None
        self.base_state = None
        self.seen_obl = {}
        self.loopinfo = {}
        self.reached_end = 0
        self.tables = {}
        self.lemmas = {}
        self.defs = {}
        self.nfailed = 0
        self.used_loops = set()
        self.ufmul = 'ufmul' in self.o
        self.divmod = 'divmod' in self.o
        self.lia = lia.Lia(int(self.o.get('lia', 0)) or 1500) if 'lia' in self.o else None
        self.stop_first = self.o.get('stop_first', False)

    invlog = None
    # ---------------- solver ------------------------------------------------
    def sync(self, pc):
        st = self.stack
        i = 0
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        k = len(st) - i
        if k:
            self.solver.pop(k); del st[i:]
        for c in pc[i:]:
            self.solver.push(); self.solver.add(c); st.append(c)

    def check(self, pc, cond=None):
        """'sat' / 'unsat' / 'unknown' for pc /\\ cond"""
        if cond is not None:
            cond = boolz(cond)
            if z3.is_false(cond): return 'unsat'
        t = time.time()
        if self.lia is not None:
            try: r = self.lia.check(pc, cond)
            except z3.Z3Exception: r = 'unknown'
            if r != 'unknown':
                self.queries += 1; self.solver_time += time.time() - t
                if self.deadline and time.time() > self.deadline: raise EngineError('time budget exhausted')
                return r
        self.sync(pc)
        self.queries += 1
        r = self.solver.check(cond) if cond is not None and not z3.is_true(cond) else self.solver.check()
        self.solver_time += time.time() - t
        if SLOW and time.time() - t > SLOW: print('SLOW check %.1f %s' % (time.time() - t, r), str(cond)[:300].replace('\n', ' '), flush=True)
        if self.deadline and time.time() > self.deadline:
            raise EngineError('time budget exhausted')
        return str(r)

    def feasible(self, s, cond):
        r = self.check(s.pc, cond)
        return r != 'unsat'

    def fresh(self, n, name='v'):
        self.freshn += 1
        if n == 1:
            return z3.Bool('%s!%d' % (name, self.freshn))
        return z3.BitVec('%s!%d' % (name, self.freshn), n)

    # ---------------- obligations ------------------------------------------
    def where(self, s):
        out = []
        for f in reversed(s.frames[-5:]):
            out.append(self.dem.get(f.fn.name, f.fn.name).split('(')[0][-60:])
        return ' < '.join(out)

    def oblige(self, s, cond, name, kind='assert'):
        """prove pc => cond; afterwards continue under cond"""
        cond = norm(cond)
        if self.invlog is not None:
            # inside an invariant function: its reads are part of the invariant
            if not isz(cond):
                if not cond: raise EngineError('invariant function: ' + name)
            else:
                self.invlog.append(('inv', 'the invariant is well defined: ' + name, cond))
            return
        if self.phase == 'fix':
            if not isz(cond):
                if not cond: raise PathEnd('assumed obligation')
                return
            s.pc.append(cond)
            if self.check(s.pc) == 'unsat': raise PathEnd('assumed obligation')
            return
        if not isz(cond):
            if cond:
                if kind == 'assert': self._rec(s, name, kind, 'discharged', 0, 'trivial')
                return
        ob = Obligation(name, kind, self.where(s))
        t0 = time.time()
        if not isz(cond):
            r = self.check(s.pc)
            neg = None
        else:
            c = z3.simplify(cond)
            if z3.is_true(c):
                if kind == 'assert': self._rec(s, name, kind, 'discharged', 0, 'simplifier')
                return
            neg = z3.Not(c)
            r = self.prove(s.pc, neg, ob)
        ob.time = time.time() - t0
        if r == 'unsat':
            ob.status = 'discharged'
        elif r == 'sat':
            ob.status = 'failed'
            if DBG: print('DBG', name, '\n'.join(str(c)[:300] for c in s.pc), 'NEG', neg, file=__import__('sys').stderr)
            if ob.model is None:
                self.sync(s.pc)
                r2 = 'unknown'; exact = False
                if self.lia is not None and self.lia.check(s.pc, neg) == 'sat':
                    exact = True
                    fix = [a == v for a, v in self.lia.last]
                    r2 = str(self.solver.check(*([neg] if neg is not None else []), *fix))
                if r2 != 'sat':
                    if neg is not None: r2 = str(self.solver.check(neg))
                    else: r2 = str(self.solver.check())
                if r2 == 'sat': ob.model = self.solver.model()
                elif not exact: ob.status = 'unknown'
            if ob.model is not None: ob.inputs = self.concrete_inputs(s, ob.model)
            ob.reason = 'counter-model found by the solver' if ob.status == 'failed' else 'solver returned unknown/timeout'
        else:
            ob.status = 'unknown'
            ob.reason = 'solver returned unknown/timeout'
        ob.model = None if ob.status != 'failed' else str(ob.model)[:4000]
        self.obls.append(ob)
        if ob.status == 'failed':
            self.nfailed += 1
            if STOP is not None: STOP.value = min(STOP.value, time.time() + 45)   # a violation is certain: do not use up the time
            if self.nfailed >= self.o.get('max_failed', 12): raise TooMany()
        if ob.status == 'failed' and self.stop_first and self.phase == 'final':
            raise PathEnd('failed')
        # continue under cond
        if not isz(cond):
            raise PathEnd('assertion false on this path')
        s.pc.append(cond)
        self.lemmas[cond.get_id()] = cond
        if ob.status != 'discharged' and not self.feasible(s, None):
            raise PathEnd('assertion false on this path')

    def prove(self, pc, neg, ob):
        t = time.time()
        if 'sweep' in self.o and z3.is_not(neg) and z3.is_eq(neg.arg(0)) and z3.is_bv(neg.arg(0).arg(0)):
            ok, n = sweep.equal(neg.arg(0).arg(0), neg.arg(0).arg(1), float(self.o['sweep']), self.defs)
            if ok:
                ob.backend = 'z3-sweep'; self.queries += n; self.solver_time += time.time() - t
                return 'unsat'
        fix = []
        if self.lia is not None:
            try: r = self.lia.check(pc, neg)
            except z3.Z3Exception: r = 'unknown'
            if r == 'unsat' and not self.cross:
                ob.backend = 'z3-lia'; self.queries += 1; self.solver_time += time.time() - t
                return r
            if r == 'sat': fix = [a == v for a, v in self.lia.last]
        self.sync(pc)
        self.queries += 1
        self.solver.set('timeout', self.o.get('quick_ms', 4000))
        r = str(self.solver.check(neg, *fix)) if fix else ''
        if r != 'sat': r = str(self.solver.check(neg))
        if r == 'sat':
            ob.model = self.solver.model()
        self.solver.set('timeout', self.o['feas_timeout_ms'])
        if r == 'unknown':
            # linear arithmetic over bounded terms: cvc5 with bit-vectors as integers,
            # without the already proved facts
            hy = [c for c in pc if c.get_id() not in self.lemmas]
            if self.cvc5(hy, neg, ['--solve-bv-as-int=sum'], self.o.get('int_ms', 6000)) == 'unsat':
                r = 'unsat'; ob.backend = 'cvc5-int'
        if r == 'unknown':
            s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'smt').solver() \
                if self.o.get('arr') else z3.Tactic('qfaufbv').solver()
            s2.set('timeout', self.o['timeout_ms'])
            for c in pc: s2.add(c)
            s2.add(neg)
            try:
                r = str(s2.check())
            except z3.Z3Exception:
                r = 'unknown'
            if r == 'sat': ob.model = s2.model()
            ob.backend = 'z3-qfaufbv'
        if r == 'unknown' or (self.cross and r == 'unsat'):
            o = self.cvc5(pc, neg, [], self.o['timeout_ms'])
            if r == 'unknown':
                if o == 'unsat': r = 'unsat'; ob.backend = 'cvc5'
                elif o == 'sat': r = 'unknown'
            elif o == 'sat':
                raise EngineError('solver disagreement on %s: z3 unsat, cvc5 sat' % ob.name)
            elif o == 'unsat':
                ob.backend = ob.backend + '+cvc5'
        if r == 'unknown' and os.environ.get('VP_DUMP'):
            s2 = z3.Solver()
            for c in pc: s2.add(c)
            s2.add(neg)
            open('%s/%d.smt2' % (os.environ['VP_DUMP'], self.queries), 'w').write('(set-logic ALL)\n' + s2.to_smt2())
        self.solver_time += time.time() - t
        if SLOW and time.time() - t > SLOW: print('SLOW prove %.1f %s %s' % (time.time() - t, r, ob.name), ob.backend, str(neg)[:300].replace('\n', ' '), flush=True)
        if self.deadline and time.time() > self.deadline:
            raise EngineError('time budget exhausted')
        return r

    def cvc5(self, pc, neg, args, ms):
        import subprocess, tempfile
        s2 = z3.Solver()
        for c in pc: s2.add(c)
        s2.add(neg)
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + s2.to_smt2())
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % ms] + args + [f.name], capture_output=True, text=True, timeout=ms / 1000 + 10)
            o = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
        except Exception:
            o = 'unknown'
        os.unlink(f.name)
        return o if o in ('sat', 'unsat') else 'unknown'

    def _rec(self, s, name, kind, status, t, backend):
        ob = Obligation(name, kind, self.where(s))
        ob.status = status; ob.time = t; ob.backend = backend
        self.obls.append(ob)

    def concrete_inputs(self, s, model):
        out = []
        for n, e in s.inputs:
            if isz(e):
                v = model.eval(e, model_completion=True)
                v = simp(v)
                if isz(v): v = 0
            else:
                v = e
            out.append((n, v))
        return out

    # ---------------- memory ------------------------------------------------
    def new_region(self, s, size, kind, name='', fill='undef'):
        rid = self.regionid; self.regionid += 1
        r = Region(rid, size, kind, name, fill)
        r.owner = s.id
        s.regions[rid] = r
        return Ptr(rid, 0)

    def ptr_int(self, p):
        """address of a pointer as an integer term"""
        if not isinstance(p, Ptr): return p
        if p.r == 0: return p.o
        b = z3.BitVec('addr!%d' % p.r, 64)
        self.assumes.add('addresses of distinct allocations are distinct, non-null and 16-byte aligned')
        return z3.simplify(b + bv(p.o, 64))

    def int_ptr(self, v):
        if isinstance(v, Ptr): return v
        if not isz(v): return Ptr(0, v)
        # structural search for addr!N
        names = set()
        def walk(e, d=0):
            if d > 12: return
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(e).startswith('addr!'):
                names.add(str(e))
            for c in e.children(): walk(c, d + 1)
        walk(v)
        for nme in sorted(names):
            b = z3.BitVec(nme, 64)
            d = simp(v - b)
            if not isz(d) or not contains(d, b):
                return Ptr(int(nme[5:]), d)
        return Ptr(0, v)

    def resolve_addr(self, s, p):
        """an integer address that the path condition equates with a choice of known addresses, decided by the path condition"""
        o = p.o
        for _ in range(3):
            names = {}
            def walk(e):
                if z3.is_const(e):
                    if e.decl().kind() == z3.Z3_OP_UNINTERPRETED: names[str(e)] = e
                for c in e.children(): walk(c)
            walk(o)
            if any(n.startswith('addr!') for n in names): break
            sub = {}
            for c in s.pc:
                if not (isz(c) and z3.is_eq(c)): continue
                for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if z3.is_const(x) and str(x) in names and str(x) not in sub and 'addr!' in str(y): sub[str(x)] = (names[str(x)], y)
            if not sub: return p
            o = z3.simplify(z3.substitute(o, *sub.values()))
        conds = {}
        def ites(e):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE: conds[e.arg(0).get_id()] = e.arg(0)
            for c in e.children(): ites(c)
        ites(o)
        sub = []
        for c in conds.values():
            if self.check(s.pc, c) == 'unsat': sub.append((c, z3.BoolVal(False)))
            elif self.check(s.pc, z3.Not(c)) == 'unsat': sub.append((c, z3.BoolVal(True)))
        if sub: o = z3.simplify(z3.substitute(o, *sub))
        q = self.int_ptr(norm(o))
        if not isinstance(q, Ptr) or q.r == 0 or (isz(q.o) and 'addr!' in str(q.o)): return p
        return q

    def off(self, s, o):
        if not isz(o): return o
        k = o.get_id()
        e = s.conc.get(k)
        if e is not None and e[0].eq(o): return e[1]
        return o

    def access(self, s, p, n, what):
        """bounds obligation for an access of n bytes; returns (region, off)"""
        if not isinstance(p, Ptr):
            p = self.int_ptr(p)
        if p.r == 0 and isz(p.o): p = self.resolve_addr(s, p)
        if p.r == 0:
            o = self.off(s, p.o)
            if isz(o):
                # symbolic integer used as an address
                self.oblige(s, z3.BoolVal(False), '%s through an arbitrary address' % what, 'memory')
            self.oblige(s, 0, '%s through null/invalid address %#x' % (what, o), 'memory')
        r = s.regions.get(p.r)
        if r is None:
            raise EngineError('region vanished')
        o = self.off(s, p.o)
        if not r.alive:
            self.oblige(s, 0, '%s after free (%s)' % (what, r.name), 'memory')
        if isz(o) or isz(r.size):
            O = bv(o, 64); S = bv(r.size, 64)
            c = z3.And(z3.ULE(O, S), z3.ULE(n, S - O))
            self.oblige(s, c, '%s out of bounds (%s)' % (what, r.name), 'memory')
        elif o < 0 or o > M64 or o + n > r.size:
            self.oblige(s, 0, '%s out of bounds (%s, offset %d size %s)' % (what, r.name, sgn(o & M64, 64), r.size), 'memory')
        return r, o

    def fillbyte(self, r, n):
        if r.fill == 'zero': return 0
        return self.fresh(8 * n, 'mem') if n else 0

    def cell_bytes(self, v, n):
        """split a value of n bytes into byte values (ints/BVs, or (Ptr,i))"""
        if isinstance(v, Ptr):
            if v.r == 0: v = v.o
            else: return [(v, i) for i in range(n)]
        if isinstance(v, float) or (isz(v) and z3.is_fp(v)):
            v = self.fp_bits(v, n * 8)
        if isz(v):
            return [simp(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]
        return [(v >> (8 * i)) & 255 for i in range(n)]

    def join_bytes(self, bs):
        n = len(bs)
        if all(isinstance(b, tuple) for b in bs) and n == 8 and all(b[0] is bs[0][0] and b[1] == i for i, b in enumerate(bs)):
            return bs[0][0]
        bs = [self.low_byte(b) for b in bs]
        if all(not isz(b) for b in bs):
            v = 0
            for i, b in enumerate(bs): v |= b << (8 * i)
            return v
        if n == 1: return bs[0]
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def low_byte(self, b):
        if isinstance(b, tuple):
            a = self.ptr_int(b[0])
            return simp(z3.Extract(8 * b[1] + 7, 8 * b[1], bv(a, 64)))
        return b

    def load_raw(self, s, p, n, what='read'):
        """returns int / BV(8n) / Ptr"""
        r, o = self.access(s, p, n, what)
        return self.load_at(s, r, o, n)

    def load_at(self, s, r, o, n):
        if r.kind == 'fn':
            raise EngineError('load from function')
        if r.init is not None: self.materialise(s, r)
        r = s.regions[r.id]
        if r.arr is not None:
            if n == r.es:
                return z3.simplify(z3.Select(r.arr, bv(o, 64)))
            if n % r.es == 0:
                parts = [z3.Select(r.arr, bv(o, 64) + i) for i in range(0, n, r.es)]
                return z3.simplify(z3.Concat(*reversed(parts)))
            raise EngineError('array region %s accessed with size %d, element %d' % (r.name, n, r.es))
        if isz(o):
            return self.load_sym(s, r, o, n)
        c = r.cells.get(o)
        if c is not None and c[0] == n:
            return c[1]
        # assemble bytes
        need = list(range(o, o + n))
        got = {}
        for b in range(max(0, o - 15), o + n):
            c = r.cells.get(b)
            if c is None or b + c[0] <= o: continue
            bs = None
            for i in range(c[0]):
                if o <= b + i < o + n:
                    if bs is None: bs = self.cell_bytes(c[1], c[0])
                    got[b + i] = bs[i]
        if not got:
            v = 0 if r.fill == 'zero' else self.fresh(8 * n, 'mem')
            if n in (1, 2, 4, 8, 16):
                w = s.rw(r.id); w.cells[o] = (n, v)
            return v
        miss = [b for b in need if b not in got]
        if miss:
            w = s.rw(r.id)
            for b in miss:
                v = 0 if r.fill == 'zero' else self.fresh(8, 'mem')
                w.cells[b] = (1, v); got[b] = v
        return self.join_bytes([got[b] for b in need])

    def sym_candidates(self, s, r, o, n):
        size = r.size
        if isz(size):
            # offset already proved in bounds; any bound of the size will do
            for u in (32, 64, 128, 256):
                if self.check(s.pc, z3.UGE(o, u)) == 'unsat': size = u + n - 1; break
            else: raise EngineError('symbolic offset into cell region of symbolic size')
        if size > 8192:
            raise EngineError('symbolic offset into large region %s' % r.name)
        stride = 1
        if n > 1 and self.check(s.pc, z3.URem(o, z3.BitVecVal(n, 64)) != 0) == 'unsat':
            stride = n
        else:
            # structural stride: o = c + k*e
            for st in (r.el or 0, 64, 48, 40, 32, 24, 16, 12, 8, 4, 2):
                if st > 1 and st >= n:
                    # all values congruent?
                    pass
        cands = list(range(0, size - n + 1, stride))
        # stored pointers: touched only when the offset can really fall there
        for q, (k, v) in list(r.cells.items()):
            if isinstance(v, Ptr) and v.r:
                hit = [c for c in cands if c < q + k and q < c + n]
                if hit and self.check(s.pc, z3.And(z3.UGE(o, hit[0]), z3.ULE(o, hit[-1]))) == 'unsat':
                    hs = set(hit); cands = [c for c in cands if c not in hs]
        return cands

    def load_sym(self, s, r, o, n):
        cands = self.sym_candidates(s, r, o, n)
        for _ in range(4):
            if len(cands) > 1 and self.check(s.pc, z3.UGE(o, cands[-1])) == 'unsat': cands.pop()
            else: break
        width = 8 * n
        v = self.via_table(s, r, o, cands, n)
        if v is not None: return v
        vals = []
        isptr = False
        for c in cands:
            v = self.load_at(s, s.regions[r.id], c, n)
            if isinstance(v, Ptr) and v.r != 0: isptr = True
            elif isinstance(v, Ptr): v = v.o
            vals.append(v)
        if isptr or len(cands) == 0:
            self.split(s, o, cands)
        # ITE tree; group equal neighbours through a binary decision on o
        r = simp(self.ite_tree(o, cands, vals, width))
        if isz(r) and not any(isz(v) for v in vals): self.tables[r.get_id()] = (r, o, cands, vals)
        return r

    def via_table(self, s, r, o, cands, n):
        """lookup whose index is itself a lookup in a constant table: compose the tables"""
        hit = None
        width = 8 * n
        st = [o]; seen = set()
        while st:
            e = st.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            t = self.tables.get(e.get_id())
            if t is not None and t[0].eq(e): hit = t; break
            if len(seen) > 40: return None
            st.extend(e.children())
        if hit is None: return None
        e, o2, c2, v2 = hit
        cs = set(cands)
        out = []
        for v in v2:
            x = simp(z3.substitute(o, (e, z3.BitVecVal(v, e.size()))))
            if isz(x) or x not in cs: return None
            w = self.load_at(s, s.regions[r.id], x, n)
            if isinstance(w, Ptr) and w.r == 0: w = w.o
            if isz(w) or isinstance(w, (Ptr, float)): return None
            out.append(w)
        # compose; the identity needs no table at all
        st = c2[1] - c2[0] if len(c2) > 1 else 1
        if all(w == c // st for w, c in zip(out, c2)) and max(out) < (1 << width):
            q = o2 if st == 1 else z3.UDiv(o2, z3.BitVecVal(st, 64))
            return simp(z3.Extract(width - 1, 0, q)) if width < 64 else q
        r = simp(self.ite_tree(o2, c2, out, width))
        if isz(r): self.tables[r.get_id()] = (r, o2, c2, out)
        return r

    def ite_tree(self, o, cands, vals, w):
        # merge by value: default = most common value
        def build(lo, hi):
            if hi - lo == 1: return bv(vals[lo], w)
            v0 = vals[lo]
            if not isz(v0) and all((not isz(v)) and v == v0 for v in vals[lo:hi]):
                return bv(v0, w)
            mid = (lo + hi) // 2
            return z3.If(z3.ULT(o, z3.BitVecVal(cands[mid], 64)), build(lo, mid), build(mid, hi))
        return build(0, len(cands))

    def split(self, s, o, cands):
        """fork over the feasible concrete values of o"""
        alts = []
        for c in cands:
            cond = (o == z3.BitVecVal(c, o.size()))
            alts.append((cond, o, c))
        raise Fork(alts)

    def enum_values(self, s, e, limit=64):
        """fork over all feasible values of e (enumerated by the solver)"""
        vals = []
        self.sync(s.pc)
        self.solver.push()
        try:
            while True:
                r = self.solver.check()
                if str(r) == 'unknown': raise EngineError('unknown while enumerating')
                if str(r) == 'unsat': break
                v = simp(self.solver.model().eval(e, model_completion=True))
                vals.append(v)
                if len(vals) > limit and self.stage0: raise PathEnd('stage')
                if len(vals) > limit: raise EngineError('too many values for a case split: %s' % str(e)[:200])
                self.solver.add(e != bv(v, e.size()))
        finally:
            self.solver.pop()
        self.split(s, e, vals)

    def store_raw(self, s, p, n, v, what='write'):
        r, o = self.access(s, p, n, what)
        if r.const:
            self.oblige(s, 0, 'write to constant memory (%s)' % r.name, 'memory')
        if r.init is not None: self.materialise(s, r)
        r = s.rw(r.id)
        self.store_at(s, r, o, n, v)

    def store_at(self, s, r, o, n, v):
        if isinstance(v, float) or (isz(v) and z3.is_fp(v)):
            pass
        if r.arr is not None:
            if isinstance(v, Ptr): v = self.ptr_int(v)
            if n == r.es:
                r.arr = z3.Store(r.arr, bv(o, 64), bv(v, 8 * n)); return
            if n % r.es == 0:
                V = bv(v, 8 * n)
                for i in range(0, n, r.es):
                    r.arr = z3.Store(r.arr, bv(o, 64) + i, z3.Extract(8 * (i + r.es) - 1, 8 * i, V))
                return
            raise EngineError('array region %s written with size %d' % (r.name, n))
        if isz(o):
            cands = self.sym_candidates(s, r, o, n)
            if isinstance(v, Ptr) and v.r != 0:
                self.split(s, o, cands)
            if isinstance(v, Ptr): v = v.o
            if not self.uniform(r, cands, n):
                self.split(s, o, cands) if len(cands) <= 64 else None
            for c in cands:
                old = self.load_at(s, r, c, n)
                r = s.regions[r.id]
                if isinstance(old, Ptr):
                    if old.r != 0: self.split(s, o, cands)
                    old = old.o
                if not isz(v) and not isz(old) and v == old: continue
                nv = simp(z3.If(o == z3.BitVecVal(c, 64), bv(v, 8 * n), bv(old, 8 * n)))
                r = s.rw(r.id)
                self.put(r, c, n, nv)
            return
        self.put(r, o, n, v)

    def uniform(self, r, cands, n):
        return len(cands) < 2 or cands[1] - cands[0] >= n

    def put(self, r, o, n, v):
        c = r.cells.get(o)
        if c is None or c[0] != n:
            for b in range(max(0, o - 15), o + n):
                c = r.cells.get(b)
                if c is None or b + c[0] <= o: continue
                bs = self.cell_bytes(c[1], c[0])
                del r.cells[b]
                for i in range(c[0]):
                    if not (o <= b + i < o + n):
                        x = bs[i]
                        r.cells[b + i] = (1, self.low_byte(x) if isinstance(x, tuple) else x)
        r.cells[o] = (n, v)

    def materialise(self, s, r):
        ini = r.init
        r = s.rw(r.id)
        r.init = None
        ty, val = ini
        self.put_const(s, r, 0, ty, val)

    def put_const(self, s, r, o, ty, val):
        k = val[0]
        if k == 'zero':
            if ty.k == 'array' or ty.k == 'struct':
                if o == 0 and ty.size == r.size:
                    r.fill = 'zero'; return
                for i in range(0, ty.size):
                    r.cells[o + i] = (1, 0)
                return
            r.cells[o] = (ty.size, 0); return
        if k == 'bytes':
            for i, b in enumerate(val[2]): r.cells[o + i] = (1, b)
            return
        if k == 'agg':
            if ty.k == 'struct':
                for (f, x, of) in zip(ty.el, val[2], ty.offs): self.put_const(s, r, o + of, f, x)
            else:
                es = ty.el.size
                for i, x in enumerate(val[2]): self.put_const(s, r, o + i * es, ty.el, x)
            return
        if k == 'undef':
            return
        v = self.const(s, ty, val)
        r.cells[o] = (ty.size, v)

    # ---------------- constants / operands ----------------------------------
    def glob_ptr(self, s, name):
        a = self.m.aliases.get(name)
        if a is not None: return self.const(s, PTR, a)
        rid = self.globregion.get(name)
        if rid is None:
            g = self.m.globs.get(name)
            if g is None:
                if name in self.m.fns:
                    r = Region(self.gid, 1, 'fn', name); self.gid += 1
                    r.const = True
                else:
                    raise EngineError('unknown symbol ' + name)
            else:
                try: sz = g.ty.size
                except ParseError: sz = 0
                r = Region(self.gid, sz, 'global', self.dem.get(name, name)); self.gid += 1
                if not g.ext:
                    r.init = (g.ty, g.init)
                r.const = g.const
                if g.ext and name.startswith('_ZTVN10__cxxabiv1'):
                    r.size = 4096
            rid = r.id
            self.globregion[name] = rid
            self.fnregions[rid] = name
            self.gprotos[rid] = r
        if rid not in s.regions:
            s.regions[rid] = self.gprotos[rid].copy(None)
        return Ptr(rid, 0)

    def const(self, s, ty, v):
        k = v[0]
        if k == 'c':
            return v[2]
        if k == 'g': return self.glob_ptr(s, v[1])
        if k == 'null': return NULL
        if k == 'undef':
            t = v[1]
            return self.undef(s, t)
        if k == 'zero':
            return self.zero(v[1])
        if k == 'agg':
            t = v[1]
            if t.k == 'struct': return [self.val(s, e, x) for e, x in zip(t.el, v[2])]
            return [self.val(s, t.el, x) for x in v[2]]
        if k == 'fp':
            return self.fpconst(v[1], v[2])
        if k == 'gep':
            base = self.val(s, PTR, v[2])
            return self.gep(s, v[1], base, [(t, self.val(s, t, x)) for t, x in v[3]])
        if k == 'cast':
            return self.cast(s, v[1], v[2], self.val(s, v[2], v[3]), v[4])
        if k == 'bin':
            return self.binop(s, v[1], v[2], self.val(s, v[2], v[3]), self.val(s, v[2], v[4]), [])
        raise EngineError('const ' + k)

    def undef(self, s, t):
        if t.k == 'int': return self.fresh(t.n, 'undef')
        if t.k == 'ptr': return Ptr(0, self.fresh(64, 'undefp'))
        if t.k == 'struct': return [self.undef(s, e) for e in t.el]
        if t.k == 'array': return [self.undef(s, t.el) for _ in range(t.n)]
        if t.k in ('double', 'float'): return 0.0
        raise EngineError('undef of ' + repr(t))

    def zero(self, t):
        if t.k == 'int': return 0
        if t.k == 'ptr': return NULL
        if t.k == 'struct': return [self.zero(e) for e in t.el]
        if t.k == 'array': return [self.zero(t.el) for _ in range(t.n)]
        if t.k in ('double', 'float'): return 0.0
        raise EngineError('zero of ' + repr(t))

    def val(self, s, ty, v):
        if v[0] == 'r':
            try:
                return s.frames[-1].regs[v[1]]
            except KeyError:
                raise EngineError('use of undefined register %s in %s' % (v[1], s.frames[-1].fn.name))
        if v[0] == 'c': return v[2]
        return self.const(s, ty, v)

    # ---------------- floating point ---------------------------------------
    def fpsort(self, t):
        return z3.Float64() if t.k == 'double' else z3.Float32()

    def fpconst(self, t, txt):
        if txt.startswith('0x'):
            if txt[2] in 'KHLMR': raise EngineError('fp80 constant')
            return struct.unpack('>d', bytes.fromhex(txt[2:].rjust(16, '0')))[0]
        return float(txt)

    def fpz(self, v, t):
        if isz(v): return v
        return z3.FPVal(v, self.fpsort(t))

    def fp_bits(self, v, n):
        if isz(v):
            return z3.fpToIEEEBV(v)
        return struct.unpack('<Q', struct.pack('<d', v))[0] if n == 64 else struct.unpack('<I', struct.pack('<f', v))[0]

    def bits_fp(self, v, n):
        if isz(v):
            return z3.fpBVToFP(v, z3.Float64() if n == 64 else z3.Float32())
        return struct.unpack('<d', struct.pack('<Q', v))[0] if n == 64 else struct.unpack('<f', struct.pack('<I', v))[0]

    # ---------------- arithmetic --------------------------------------------
    def gep(self, s, st, base, idx):
        if not isinstance(base, Ptr): base = self.int_ptr(base)
        off = base.o
        ty = st
        first = True
        for t, v in idx:
            if isinstance(v, Ptr): v = self.ptr_int(v)
            if first:
                es = ty.size; first = False
            elif ty.k == 'struct':
                off = add64(off, ty.offs[v]); ty = ty.el[v]; continue
            else:
                ty = ty.el; es = ty.size
            if isz(v):
                if v.size() < 64: v = z3.SignExt(64 - v.size(), v)
                d = simp(v * es) if es != 1 else v
            else:
                d = (sgn(v, t.n) * es) & M64
            off = add64(off, d)
        return Ptr(base.r, off)

    def binop(self, s, op, t, a, b, flags):
        if t.k in ('double', 'float'):
            return self.fpbin(op, t, a, b)
        if t.k != 'int': raise EngineError('binop on ' + repr(t))
        n = t.n
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            r = self.ptrbin(op, a, b)
            if r is not None: return r
            a = self.ptr_int(a); b = self.ptr_int(b)
        m = (1 << n) - 1
        if not isz(a) and not isz(b):
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                self.oblige(s, 0, 'division by zero', 'arith')
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            if op in ('sdiv', 'srem'):
                x, y = sgn(a, n), sgn(b, n)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return (q if op == 'sdiv' else x - q * y) & m
            if op in ('shl', 'lshr', 'ashr') and b >= n:
                self.oblige(s, 0, 'shift amount >= width', 'arith')
            if op == 'shl': return (a << b) & m
            if op == 'lshr': return a >> b
            if op == 'ashr': return (sgn(a, n) >> b) & m
        if n == 1:
            A, B = boolz(a), boolz(b)
            if op == 'and': return norm(z3.simplify(z3.And(A, B)))
            if op == 'or': return norm(z3.simplify(z3.Or(A, B)))
            if op in ('xor', 'add', 'sub'): return norm(z3.simplify(z3.Xor(A, B)))
            raise EngineError('i1 ' + op)
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and not isz(b) and b == 0: return a
        if op in ('add', 'or', 'xor') and not isz(a) and a == 0: return b
        if op == 'mul' and not isz(b) and b == 1: return a
        A, B = bv(a, n), bv(b, n)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and isz(b):
            self.oblige(s, B != 0, 'division by zero', 'arith')
        if op in ('shl', 'lshr', 'ashr') and isz(b):
            self.oblige(s, z3.ULT(B, n), 'shift amount >= width', 'arith')
        if op in ('sdiv', 'udiv') and not isz(b) and self.lia is not None and n == 64:
            q = self.exactdiv(s, op, A, b)
            if q is not None: return q
        if op == 'add': r = A + B
        elif op == 'sub': r = A - B
        elif op == 'mul' and isz(a) and isz(b) and self.ufmul:
            # uninterpreted (sound: every fact proved holds for any function)
            if A.get_id() > B.get_id(): A, B = B, A
            S = z3.BitVecSort(n); r = z3.Function('mul%d' % n, S, S, S)(A, B)
        elif op == 'mul': r = A * B
        elif op == 'and': r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op in ('udiv', 'urem') and self.divmod and n >= 32 and not isz(b) and b & (b - 1):
            # quotient and remainder by their defining equations
            key = ('dm', A.get_id(), b, n)
            e = s.rmap.get(key)
            if e is None or not e[0].eq(A):
                q = self.fresh(n, 'quo'); rr = self.fresh(n, 'rem')
                s.pc.append(z3.And(A == q * B + rr, z3.ULT(rr, B), z3.ULE(q, z3.BitVecVal(m // b, n)), z3.ULE(q * B, A)))
                e = s.rmap[key] = (A, q, rr)
            return e[1] if op == 'udiv' else e[2]
        elif op in ('sdiv', 'srem') and self.divmod and n >= 32 and not isz(b) and 1 < b < (1 << (n - 1)):
            key = ('sdm', A.get_id(), b, n)
            e = s.rmap.get(key)
            if e is None or not e[0].eq(A):
                q = self.fresh(n, 'quo'); rr = self.fresh(n, 'rem'); h = (1 << (n - 1))
                s.pc.append(z3.And(A == q * B + rr,
                                   z3.If(A >= 0, z3.And(rr >= 0, rr < B, q >= 0, q <= z3.BitVecVal((h - 1) // b, n)),
                                         z3.And(rr <= 0, rr > -B, q <= 0, q >= z3.BitVecVal(-(h // b), n)))))
                e = s.rmap[key] = (A, q, rr)
            return e[1] if op == 'sdiv' else e[2]
        elif op in ('udiv', 'urem') and self.divmod and self.ufmul and n >= 32 and isz(b):
            # the same by a variable divisor, the product uninterpreted
            key = ('dmv', A.get_id(), B.get_id(), n)
            e = s.rmap.get(key)
            if e is None or not (e[0].eq(A) and e[3].eq(B)):
                S = z3.BitVecSort(n); q = z3.Function('quo%d' % n, S, S, S)(A, B); rr = z3.Function('rem%d' % n, S, S, S)(A, B); p = z3.Function('mul%d' % n, S, S, S)(*((B, q) if q.get_id() > B.get_id() else (q, B)))
                s.pc.append(z3.And(A == p + rr, z3.ULT(rr, B), z3.ULE(p, A), z3.ULE(q, A), z3.Implies(B == 1, q == A)))
                e = s.rmap[key] = (A, q, rr, B)
            return e[1] if op == 'udiv' else e[2]
        elif op == 'urem' and isz(b) and 'modwrap' in self.o and self.check(s.pc, z3.And(z3.UGE(A, B), z3.UGE(A - B, B))) == 'unsat':
            # at most one wrap (proved): the remainder by subtraction
            r = A if self.check(s.pc, z3.UGE(A, B)) == 'unsat' else z3.If(z3.ULT(A, B), A, A - B)
        elif op == 'udiv': r = z3.UDiv(A, B)
        elif op == 'urem': r = z3.URem(A, B)
        elif op == 'sdiv': r = A / B
        elif op == 'srem': r = z3.SRem(A, B)
        elif op == 'shl': r = A << B
        elif op == 'lshr': r = z3.LShR(A, B)
        elif op == 'ashr': r = A >> B
        else: raise EngineError(op)
        r = simp(r)
        if 'name' in self.o and n >= 32 and isz(a) and isz(b) and isz(r) and op in ('and', 'or', 'xor', 'add', 'sub'):
            # a name for the intermediate value (keeps the terms as the code builds them)
            v = self.fresh(n, 'nm')
            s.pc.append(v == r); self.defs[v.get_id()] = (v, r)
            return v
        return r

    def exactdiv(self, s, op, A, k):
        """a linear term whose coefficients are all multiples of k, shown not to overflow"""
        if k < 2 or k >= 1 << 32: return None
        lin = {}; con = 0; work = [(A, 1)]
        while work:
            t, c = work.pop()
            d = t.decl().kind()
            if z3.is_bv_value(t): con += c * sgn(t.as_long(), 64)
            elif d == z3.Z3_OP_BADD: work += [(x, c) for x in t.children()]
            elif d == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)): work.append((t.arg(1), c * sgn(t.arg(0).as_long(), 64)))
            else:
                e = lin.setdefault(t.get_id(), [t, 0]); e[1] += c
            if len(lin) > 12: return None
        if con % k or any(c % k for _, c in lin.values()): return None
        q = z3.BitVecVal((con // k) & M64, 64)
        for t, c in lin.values(): q = q + z3.BitVecVal((c // k) & M64, 64) * t
        q = simp(q)
        if op == 'udiv': bad = z3.UGT(q, z3.BitVecVal(M64 // k, 64))
        else:
            h = (1 << 63) // k
            bad = z3.Or(q >= z3.BitVecVal(h, 64), q < z3.BitVecVal((-h) & M64, 64))
        return q if self.check(s.pc, bad) == 'unsat' else None

    def ptrbin(self, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r: return sub64(a.o, b.o)
            return None
        if op == 'add':
            if isinstance(a, Ptr) and not isinstance(b, Ptr): return Ptr(a.r, add64(a.o, b))
            if isinstance(b, Ptr) and not isinstance(a, Ptr): return Ptr(b.r, add64(b.o, a))
        if op == 'sub' and isinstance(a, Ptr) and not isinstance(b, Ptr):
            return Ptr(a.r, sub64(a.o, b))
        if op == 'and' and isinstance(a, Ptr) and not isz(b) and not isinstance(b, Ptr) and a.r:
            if not isz(a.o) and b <= 15: return a.o & b
            if not isz(a.o) and (b ^ M64) <= 15: return Ptr(a.r, a.o & b)
        if op in ('or', 'xor') and isinstance(a, Ptr) and not isz(b) and not isinstance(b, Ptr) and a.r and not isz(a.o) and b <= 15:
            return Ptr(a.r, (a.o | b) if op == 'or' else (a.o ^ b))
        return None

    def fpbin(self, op, t, a, b):
        if not isz(a) and not isz(b) and t.k == 'double':
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv' and b != 0: return a / b
        A, B = self.fpz(a, t), self.fpz(b, t)
        rm = z3.RNE()
        if op == 'fadd': return z3.fpAdd(rm, A, B)
        if op == 'fsub': return z3.fpSub(rm, A, B)
        if op == 'fmul': return z3.fpMul(rm, A, B)
        if op == 'fdiv': return z3.fpDiv(rm, A, B)
        raise EngineError(op)

    def cast(self, s, op, t, v, t2):
        if op == 'bitcast':
            if t.k == t2.k: return v
            if t.k == 'int' and t2.k in ('double', 'float'): return self.bits_fp(v, t.n)
            if t2.k == 'int' and t.k in ('double', 'float'): return norm(self.fp_bits(v, t2.n))
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr):
                if v.r == 0: v = v.o
                elif t2.n == 64: return v
                else: v = self.ptr_int(v)
            if t2.n < 64: return self.cast(s, 'trunc', I(64), v, t2)
            return v
        if op == 'inttoptr':
            if isinstance(v, Ptr): return v
            if isz(v) and v.size() < 64: v = z3.ZeroExt(64 - v.size(), v)
            return self.int_ptr(v)
        if op in ('sitofp', 'uitofp'):
            if not isz(v):
                return float(sgn(v, t.n) if op == 'sitofp' else v)
            V = bv(v, t.n)
            return z3.fpSignedToFP(z3.RNE(), V, self.fpsort(t2)) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), V, self.fpsort(t2))
        if op in ('fptosi', 'fptoui'):
            if not isz(v):
                return int(v) & ((1 << t2.n) - 1)
            return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(t2.n)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(t2.n))
        if op in ('fptrunc', 'fpext'):
            if not isz(v):
                return v if op == 'fpext' else struct.unpack('<f', struct.pack('<f', v))[0]
            return z3.fpFPToFP(z3.RNE(), v, self.fpsort(t2))
        a, b = t.n, t2.n
        if isinstance(v, Ptr):
            v = self.ptr_int(v)
        if op == 'zext':
            if not isz(v): return v
            if a == 1: return z3.If(v, z3.BitVecVal(1, b), z3.BitVecVal(0, b))
            return simp(z3.ZeroExt(b - a, v))
        if op == 'sext':
            if not isz(v): return sgn(v, a) & ((1 << b) - 1)
            if a == 1: return z3.If(v, z3.BitVecVal((1 << b) - 1, b), z3.BitVecVal(0, b))
            return simp(z3.SignExt(b - a, v))
        if op == 'trunc':
            if not isz(v): return v & ((1 << b) - 1)
            if b == 1: return norm(z3.simplify(z3.Extract(0, 0, v) == 1))
            return simp(z3.Extract(b - 1, 0, v))
        raise EngineError('cast ' + op)

    def place(self, s, a, b):
        """two allocations do not overlap and do not wrap around"""
        key = ('place', min(a, b), max(a, b))
        if key in s.rmap or s.regions.get(a) is None or s.regions.get(b) is None: return
        s.rmap[key] = True
        x, y = z3.BitVec('addr!%d' % a, 64), z3.BitVec('addr!%d' % b, 64)
        m, n = bv(s.regions[a].size, 64), bv(s.regions[b].size, 64)
        top = z3.BitVecVal(1 << 62, 64)
        s.pc.append(z3.And(z3.ULT(x, top), z3.ULT(y, top), x != 0, y != 0, z3.ULT(m, top), z3.ULT(n, top),
                           z3.Or(z3.ULE(x + m, y), z3.ULE(y + n, x)), x != y))

    def addressed(self, s, r):
        key = ('addressed',)
        seen = s.rmap.get(key, ())
        if r == 0 or r in seen or s.regions.get(r) is None: return
        if not seen:
            x = z3.BitVec('addr!%d' % r, 64); top = z3.BitVecVal(1 << 62, 64)
            s.pc.append(z3.And(z3.ULT(x, top), x != 0, z3.ULT(bv(s.regions[r].size, 64), top)))
        for q in seen: self.place(s, q, r)
        s.rmap[key] = seen + (r,)

    def icmp(self, s, pr, t, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr): a = self.int_ptr(a)
            if not isinstance(b, Ptr): b = self.int_ptr(b)
            if a.r == 0 and isz(a.o) and b.r: a = self.resolve_addr(s, a)
            elif b.r == 0 and isz(b.o) and a.r: b = self.resolve_addr(s, b)
            if a.r == b.r:
                a, b, n = a.o, b.o, 64
                if isz(a): a = self.off(s, a)
                if isz(b): b = self.off(s, b)
            else:
                if pr in ('eq', 'ne'):
                    # distinct regions; null vs object
                    for x, y in ((a, b), (b, a)):
                        if x.r == 0 and isz(x.o):
                            # an arbitrary integer may equal any address
                            self.addressed(s, y.r)
                            e = (x.o == bv(self.ptr_int(y), 64))
                            e = z3.simplify(e)
                            return norm(e if pr == 'eq' else z3.Not(e))
                    return 0 if pr == 'eq' else 1
                if a.r == 0 and not isz(a.o) and a.o == 0:
                    return 1 if pr in ('ult', 'ule') else 0
                if b.r == 0 and not isz(b.o) and b.o == 0:
                    return 1 if pr in ('ugt', 'uge') else 0
                if a.r and b.r: self.place(s, a.r, b.r)
                a, b, n = self.ptr_int(a), self.ptr_int(b), 64
        else:
            n = t.n
        if not isz(a) and not isz(b):
            if pr == 'eq': return int(a == b)
            if pr == 'ne': return int(a != b)
            if pr[0] == 's': a, b = sgn(a, n), sgn(b, n)
            p = pr[1:]
            return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
        if n == 1:
            A, B = boolz(a), boolz(b)
            e = (A == B)
            return norm(z3.simplify(e if pr == 'eq' else z3.Not(e)))
        A, B = bv(a, n), bv(b, n)
        e = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
             'sgt': lambda: A > B, 'sge': lambda: A >= B}[pr]()
        return norm(z3.simplify(e))

    def fcmp(self, s, pr, t, a, b):
        if pr == 'true': return 1
        if pr == 'false': return 0
        if not isz(a) and not isz(b):
            import math
            un = math.isnan(a) or math.isnan(b)
            base = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}
            if pr == 'ord': return int(not un)
            if pr == 'uno': return int(un)
            if pr[0] == 'o': return int(not un and base[pr[1:]])
            return int(un or base[pr[1:]])
        A, B = self.fpz(a, t), self.fpz(b, t)
        un = z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B))
        if pr == 'ord': return z3.Not(un)
        if pr == 'uno': return un
        e = {'eq': z3.fpEQ(A, B), 'ne': z3.Not(z3.fpEQ(A, B)), 'lt': A < B, 'le': A <= B, 'gt': A > B, 'ge': A >= B}[pr[1:]]
        return z3.And(z3.Not(un), e) if pr[0] == 'o' else z3.Or(un, e)

    # typed load/store
    def load(self, s, ty, p):
        if ty.k == 'int':
            n = ty.size
            v = self.load_raw(s, p, n)
            if isinstance(v, float) or (isz(v) and z3.is_fp(v)): v = norm(self.fp_bits(v, 8 * n))
            if ty.n == 1:
                if isinstance(v, Ptr): raise EngineError('i1 from ptr')
                return self.cast(s, 'trunc', I(8), v, I(1))
            if ty.n < 8 * n:
                return self.cast(s, 'trunc', I(8 * n), v, ty)
            return v
        if ty.k == 'ptr':
            v = self.load_raw(s, p, 8)
            return v if isinstance(v, Ptr) else self.int_ptr(v)
        if ty.k in ('double', 'float'):
            v = self.load_raw(s, p, ty.size)
            if isinstance(v, float) or (isz(v) and z3.is_fp(v)): return v
            return self.bits_fp(v, 8 * ty.size)
        if ty.k == 'struct':
            return [self.load(s, e, Ptr(p.r, add64(p.o, o))) for e, o in zip(ty.el, ty.offs)]
        if ty.k == 'array':
            return [self.load(s, ty.el, Ptr(p.r, add64(p.o, i * ty.el.size))) for i in range(ty.n)]
        raise EngineError('load of ' + repr(ty))

    def store(self, s, ty, v, p):
        if ty.k == 'int':
            n = ty.size
            if ty.n == 1: v = self.cast(s, 'zext', I(1), v, I(8))
            elif ty.n < 8 * n: v = self.cast(s, 'zext', ty, v, I(8 * n))
            self.store_raw(s, p, n, v)
        elif ty.k == 'ptr':
            self.store_raw(s, p, 8, v)
        elif ty.k in ('double', 'float'):
            self.store_raw(s, p, ty.size, norm(self.fp_bits(v, 8 * ty.size)))
        elif ty.k == 'struct':
            for e, o, x in zip(ty.el, ty.offs, v): self.store(s, e, x, Ptr(p.r, add64(p.o, o)))
        elif ty.k == 'array':
            for i in range(ty.n): self.store(s, ty.el, v[i], Ptr(p.r, add64(p.o, i * ty.el.size)))
        else:
            raise EngineError('store of ' + repr(ty))


def stride_is_sparse(c, r, n):
    return False


def contains(e, x):
    seen = set()
    st = [e]
    while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if y.eq(x): return True
        st.extend(y.children())
    return False


def add64(a, b):
    if not isz(a) and not isz(b): return (a + b) & M64
    if not isz(b) and b == 0: return a
    if not isz(a) and a == 0: return b
    return simp(bv(a, 64) + bv(b, 64))


def sub64(a, b):
    if not isz(a) and not isz(b): return (a - b) & M64
    if not isz(b) and b == 0: return a
    return simp(bv(a, 64) - bv(b, 64))
