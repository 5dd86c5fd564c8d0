"""Linear view of bit-vector formulas: every term is written as an exact integer
linear form, with an explicit multiple of 2^n subtracted where it may wrap.

Terms outside the fragment become opaque integers of the right range (sound for
`unsat`; a `sat` answer counts only when nothing was made opaque)."""
import z3

K = z3
OP = {getattr(z3, k): k for k in dir(z3) if k.startswith('Z3_OP_')}


class Opaque(Exception):
    pass


class Lia:
    def __init__(self, ms=1500):
        self.s = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
        self.s.set('timeout', ms)
        self.ms = ms
        self.stack = []          # the conjuncts
        self.undo = []           # per level: cache keys, bound changes, inexact flag
        self.cache = {}          # (kind, term id) -> (term, value)
        self.atoms = {}          # atom id -> (Int expr, lo, hi)
        self.bounds = {}         # leaf id -> hi
        self.inexact = 0
        self.n = 0
        self.pending = []        # side constraints of the translation in progress
        self.leaves = {}
        self.queries = 0

    # ------------------------------------------------------------ stack
    def sync(self, pc):
        st = self.stack; i = 0; n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]: i += 1
        while len(st) > i: self.pop()
        for c in pc[i:]:
            self.push(); st.append(c)
            self.learn(c)
            self.add(c)

    def push(self):
        self.s.push(); self.undo.append(([], [], self.inexact))

    def pop(self):
        self.s.pop()
        keys, bnds, self.inexact = self.undo.pop()
        for k in keys: self.cache.pop(k, None)
        for k, old in reversed(bnds):
            if old is None: self.bounds.pop(k, None)
            else: self.bounds[k] = old
        if len(self.stack) > len(self.undo): self.stack.pop()

    def add(self, c):
        try:
            b = self.bool(c)
        except Opaque:
            self.inexact += 1; self.flush(); return
        self.flush()
        self.s.add(b)

    def flush(self):
        for p in self.pending: self.s.add(p)
        self.pending = []

    def learn(self, c):
        """upper bounds of leaves from a conjunct"""
        k = c.decl().kind()
        if k == K.Z3_OP_AND:
            for a in c.children(): self.learn(a)
            return
        neg = False
        if k == K.Z3_OP_NOT:
            c = c.arg(0); k = c.decl().kind(); neg = True
        if k not in (K.Z3_OP_ULEQ, K.Z3_OP_ULT, K.Z3_OP_UGEQ, K.Z3_OP_UGT): return
        a, b = c.arg(0), c.arg(1)
        strict = k in (K.Z3_OP_ULT, K.Z3_OP_UGT)
        if k in (K.Z3_OP_UGEQ, K.Z3_OP_UGT): a, b = b, a     # a <= b
        if neg: a, b = b, a; strict = not strict
        if not self.leaf(a): return
        if z3.is_bv_value(b): hi = b.as_long()
        else:
            try: hi = self.val(b)[3]
            except Opaque: return
        if strict: hi -= 1
        if hi < 0: return
        old = self.bounds.get(a.get_id())
        if old is None or hi < old[1]:
            if self.undo: self.undo[-1][1].append((a.get_id(), old))
            self.bounds[a.get_id()] = (a, hi)

    def leaf(self, t):
        return z3.is_const(t) and t.decl().kind() == K.Z3_OP_UNINTERPRETED and z3.is_bv(t)

    # ------------------------------------------------------------ terms
    def new(self, lo, hi):
        self.n += 1
        v = z3.Int('l!%d' % self.n)
        self.pending.append(v >= lo); self.pending.append(v <= hi)
        return self.atom(v, lo, hi)

    def atom(self, v, lo, hi):
        i = v.get_id()
        self.atoms[i] = (v, lo, hi)
        return ({i: 1}, 0, lo, hi)

    def memo(self, key, t, f):
        e = self.cache.get(key)
        if e is not None and e[0].eq(t): return e[1]
        r = f()
        self.cache[key] = (t, r)
        if self.undo: self.undo[-1][0].append(key)
        return r

    def expr(self, v):
        co, c = v[0], v[1]
        ts = []
        for i, k in co.items():
            x = self.atoms[i][0]
            ts.append(x if k == 1 else k * x)
        if c or not ts: ts.append(z3.IntVal(c))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def rng(self, co, c):
        lo = hi = c
        for i, k in co.items():
            _, l, h = self.atoms[i]
            if k > 0: lo += k * l; hi += k * h
            else: lo += k * h; hi += k * l
        return lo, hi

    def lin(self, t, n):
        """linear form congruent to t modulo 2^n: (coefs, const)"""
        k = t.decl().kind()
        if z3.is_bv_value(t):
            v = t.as_long()
            return {}, (v - (1 << n) if v >> (n - 1) else v)
        if k == K.Z3_OP_BADD:
            co = {}; c = 0
            for a in t.children():
                x, d = self.lin(a, n); c += d
                for i, q in x.items(): co[i] = co.get(i, 0) + q
        elif k == K.Z3_OP_BSUB:
            co, c = self.lin(t.arg(0), n); co = dict(co)
            for a in t.children()[1:]:
                x, d = self.lin(a, n); c -= d
                for i, q in x.items(): co[i] = co.get(i, 0) - q
        elif k == K.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            m = self.lin(t.arg(0), n)[1]
            x, d = self.lin(t.arg(1), n)
            co = {i: q * m for i, q in x.items()}; c = d * m
        elif k == K.Z3_OP_BNEG:
            x, d = self.lin(t.arg(0), n); co = {i: -q for i, q in x.items()}; c = -d
        elif k == K.Z3_OP_BNOT:
            x, d = self.lin(t.arg(0), n); co = {i: -q for i, q in x.items()}; c = -d - 1
        elif k == K.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
            m = t.arg(1).as_long()
            if m >= n: return {}, 0
            x, d = self.lin(t.arg(0), n); co = {i: q << m for i, q in x.items()}; c = d << m
        elif k == K.Z3_OP_CONCAT:
            # hi..lo pieces; trailing zeros make a shift
            co = {}; c = 0; sh = 0
            for a in reversed(t.children()):
                v = self.val(a)
                c += v[1] << sh
                for i, q in v[0].items(): co[i] = co.get(i, 0) + (q << sh)
                sh += a.size()
        else:
            v = self.val(t)
            return v[0], v[1]
        M = 1 << n; H = M >> 1
        r = {}
        for i, q in co.items():
            q %= M
            if q >= H: q -= M
            if q: r[i] = q
        c %= M
        if c >= H: c -= M
        return r, c

    def val(self, t):
        """(coefs, const, lo, hi): the exact unsigned value"""
        return self.memo(('v', t.get_id()), t, lambda: self._val(t))

    def _val(self, t):
        n = t.size(); k = t.decl().kind()
        if z3.is_bv_value(t):
            c = t.as_long(); return ({}, c, c, c)
        if self.leaf(t):
            v = z3.Int('i!' + t.decl().name())
            b = self.bounds.get(t.get_id())
            hi = min((1 << n) - 1, b[1]) if b else (1 << n) - 1
            self.pending.append(v >= 0); self.pending.append(v <= hi)
            self.leaves[t.get_id()] = (t, v)
            return self.atom(v, 0, hi)
        if k in (K.Z3_OP_BADD, K.Z3_OP_BSUB, K.Z3_OP_BMUL, K.Z3_OP_BNEG, K.Z3_OP_BNOT, K.Z3_OP_BSHL, K.Z3_OP_CONCAT):
            if k == K.Z3_OP_BMUL and not (t.num_args() == 2 and z3.is_bv_value(t.arg(0))): return self.opaque(t)
            if k == K.Z3_OP_BSHL and not z3.is_bv_value(t.arg(1)): return self.opaque(t)
            co, c = self.lin(t, n)
            if k == K.Z3_OP_CONCAT:      # exact: no wrap possible
                pass
            return self.wrap(co, c, n)
        if k == K.Z3_OP_ZERO_EXT: return self.val(t.arg(0))
        if k == K.Z3_OP_SIGN_EXT:
            a = self.val(t.arg(0)); m = t.arg(0).size()
            if a[3] < 1 << (m - 1): return a
            r = self.new(0, (1 << n) - 1); e = self.expr(a); x = self.expr(r)
            self.pending.append(x == z3.If(e < (1 << (m - 1)), e, e + ((1 << n) - (1 << m))))
            return r
        if k == K.Z3_OP_EXTRACT:
            h, l = t.params(); a = self.val(t.arg(0))
            q = self.div(a, 1 << l)[0] if l else a
            return self.div(q, 1 << (h - l + 1))[1]
        if k == K.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)):
            m = t.arg(1).as_long()
            return ({}, 0, 0, 0) if m >= n else self.div(self.val(t.arg(0)), 1 << m)[0]
        if k in (K.Z3_OP_BUDIV, K.Z3_OP_BUDIV_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
            return self.div(self.val(t.arg(0)), t.arg(1).as_long())[0]
        if k in (K.Z3_OP_BUREM, K.Z3_OP_BUREM_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
            return self.div(self.val(t.arg(0)), t.arg(1).as_long())[1]
        if k == K.Z3_OP_BAND and t.num_args() == 2:
            for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                if z3.is_bv_value(a):
                    m = a.as_long()
                    if m & (m + 1) == 0: return self.div(self.val(b), m + 1)[1]
                    im = ((1 << n) - 1) ^ m
                    if im & (im + 1) == 0:
                        q = self.div(self.val(b), im + 1)[0]
                        return self.scale(q, im + 1)
            return self.opaque(t)
        if k == K.Z3_OP_ITE:
            a, b = self.val(t.arg(1)), self.val(t.arg(2))
            c = self.bool(t.arg(0))
            lo, hi = min(a[2], b[2]), max(a[3], b[3])
            r = self.new(lo, hi); x = self.expr(r)
            self.pending.append(z3.Implies(c, x == self.expr(a)))
            self.pending.append(z3.Implies(z3.Not(c), x == self.expr(b)))
            return r
        if k == K.Z3_OP_SELECT:
            return self.select(t.arg(0), self.val(t.arg(1)), n)
        if k == K.Z3_OP_UNINTERPRETED:
            args = [self.expr(self.val(a)) for a in t.children()]
            f = z3.Function('uf!' + t.decl().name(), *([z3.IntSort()] * (len(args) + 1)))
            x = f(*args)
            self.pending.append(x >= 0); self.pending.append(x < (1 << n))
            return self.atom(x, 0, (1 << n) - 1)
        return self.opaque(t)

    def opaque(self, t):
        self.inexact += 1
        v = z3.Int('o!%d' % t.get_id())
        n = t.size()
        self.pending.append(v >= 0); self.pending.append(v < (1 << n))
        hi = (1 << n) - 1
        k = t.decl().kind()
        if k in (K.Z3_OP_BUREM, K.Z3_OP_BUREM_I):
            a, b = self.val(t.arg(0)), self.val(t.arg(1))
            self.pending.append(v <= self.expr(a))
            self.pending.append(z3.Implies(self.expr(b) > 0, v < self.expr(b)))
            hi = a[3]
        elif k in (K.Z3_OP_BUDIV, K.Z3_OP_BUDIV_I):
            a, b = self.val(t.arg(0)), self.val(t.arg(1))
            self.pending.append(z3.Implies(self.expr(b) > 0, v <= self.expr(a)))
        elif k == K.Z3_OP_BAND:
            for x in t.children(): self.pending.append(v <= self.expr(self.val(x)))
        return self.atom(v, 0, hi)

    def scale(self, v, m):
        return ({i: q * m for i, q in v[0].items()}, v[1] * m, v[2] * m, v[3] * m)

    def wrap(self, co, c, n):
        lo, hi = self.rng(co, c)
        M = 1 << n
        kl, kh = lo // M, hi // M
        if kl == kh: return (co, c - kl * M, lo - kl * M, hi - kl * M)
        k = self.new(kl, kh)
        (ki, _), = k[0].items()
        co = dict(co); co[ki] = co.get(ki, 0) - M
        r = (co, c, 0, M - 1)
        e = self.expr(r)
        self.pending.append(e >= 0); self.pending.append(e < M)
        # keep as one atom: its range is known
        x = self.new(0, M - 1)
        self.pending.append(self.expr(x) == e)
        return x

    def div(self, a, m):
        if m == 1: return a, ({}, 0, 0, 0)
        if a[3] < m: return ({}, 0, 0, 0), a
        key = ('d', tuple(sorted(a[0].items())), a[1], m)
        e = self.cache.get(key)
        if e is not None: return e[1]
        # multiples of m divide exactly
        if all(q % m == 0 for q in a[0].values()):
            q = ({i: x // m for i, x in a[0].items()}, a[1] // m, a[2] // m, a[3] // m)
            r = ({}, a[1] % m, a[1] % m, a[1] % m)
        else:
            q = self.new(a[2] // m, a[3] // m); r = self.new(0, m - 1)
            self.pending.append(self.expr(a) == m * self.expr(q) + self.expr(r))
        self.cache[key] = (None, (q, r))
        if self.undo: self.undo[-1][0].append(key)
        return q, r

    def same(self, a, b):
        return a[1] == b[1] and a[0] == b[0]

    def select(self, arr, i, n):
        key = ('s', arr.get_id(), tuple(sorted(i[0].items())), i[1])
        e = self.cache.get(key)
        if e is not None and e[0].eq(arr): return e[1]
        k = arr.decl().kind()
        if k == K.Z3_OP_STORE:
            j = self.val(arr.arg(1))
            if self.same(i, j): r = self.val(arr.arg(2))
            elif i[0] == j[0]: r = self.select(arr.arg(0), i, n)
            elif i[3] < j[2] or j[3] < i[2]: r = self.select(arr.arg(0), i, n)
            else:
                a, b = self.val(arr.arg(2)), self.select(arr.arg(0), i, n)
                r = self.new(min(a[2], b[2]), max(a[3], b[3])); x = self.expr(r)
                c = self.expr(i) == self.expr(j)
                self.pending.append(z3.Implies(c, x == self.expr(a)))
                self.pending.append(z3.Implies(z3.Not(c), x == self.expr(b)))
        elif k == K.Z3_OP_ITE:
            a, b = self.select(arr.arg(1), i, n), self.select(arr.arg(2), i, n)
            r = self.new(min(a[2], b[2]), max(a[3], b[3])); x = self.expr(r); c = self.bool(arr.arg(0))
            self.pending.append(z3.Implies(c, x == self.expr(a)))
            self.pending.append(z3.Implies(z3.Not(c), x == self.expr(b)))
        elif k == K.Z3_OP_CONST_ARRAY: r = self.val(arr.arg(0))
        elif k == K.Z3_OP_UNINTERPRETED:
            f = z3.Function('arr!' + arr.decl().name(), z3.IntSort(), z3.IntSort())
            x = f(self.expr(i))
            self.pending.append(x >= 0); self.pending.append(x < (1 << n))
            r = self.atom(x, 0, (1 << n) - 1)
        else: raise Opaque
        self.cache[key] = (arr, r)
        if self.undo: self.undo[-1][0].append(key)
        return r

    # ------------------------------------------------------------ formulas
    def bool(self, t):
        return self.memo(('b', t.get_id()), t, lambda: self._bool(t))

    def _bool(self, t):
        k = t.decl().kind()
        if k == K.Z3_OP_TRUE or k == K.Z3_OP_FALSE: return t
        if k == K.Z3_OP_AND: return z3.And([self.bool(a) for a in t.children()])
        if k == K.Z3_OP_OR: return z3.Or([self.bool(a) for a in t.children()])
        if k == K.Z3_OP_NOT: return z3.Not(self.bool(t.arg(0)))
        if k == K.Z3_OP_IMPLIES: return z3.Implies(self.bool(t.arg(0)), self.bool(t.arg(1)))
        if k == K.Z3_OP_XOR: return z3.Xor(self.bool(t.arg(0)), self.bool(t.arg(1)))
        if k == K.Z3_OP_ITE: return z3.If(self.bool(t.arg(0)), self.bool(t.arg(1)), self.bool(t.arg(2)))
        if k == K.Z3_OP_UNINTERPRETED and t.num_args() == 0: return t
        if k in (K.Z3_OP_EQ, K.Z3_OP_DISTINCT):
            a, b = t.arg(0), t.arg(1)
            if t.num_args() != 2: raise Opaque
            if z3.is_bool(a): r = self.bool(a) == self.bool(b)
            elif z3.is_bv(a):
                x, y = self.val(a), self.val(b)
                if self.same(x, y): r = z3.BoolVal(True)
                elif x[3] < y[2] or y[3] < x[2]: r = z3.BoolVal(False)
                else: r = self.expr(x) == self.expr(y)
            else: raise Opaque
            return z3.Not(r) if k == K.Z3_OP_DISTINCT else r
        if k in (K.Z3_OP_ULEQ, K.Z3_OP_ULT, K.Z3_OP_UGEQ, K.Z3_OP_UGT):
            x, y = self.val(t.arg(0)), self.val(t.arg(1))
            if k in (K.Z3_OP_UGEQ, K.Z3_OP_UGT): x, y = y, x
            return self.cmp(x, y, k in (K.Z3_OP_ULT, K.Z3_OP_UGT))
        if k in (K.Z3_OP_SLEQ, K.Z3_OP_SLT, K.Z3_OP_SGEQ, K.Z3_OP_SGT):
            x, y = self.sval(t.arg(0)), self.sval(t.arg(1))
            if k in (K.Z3_OP_SGEQ, K.Z3_OP_SGT): x, y = y, x
            return self.cmp(x, y, k in (K.Z3_OP_SLT, K.Z3_OP_SGT))
        raise Opaque

    def cmp(self, x, y, strict):
        if strict:
            if x[3] < y[2]: return z3.BoolVal(True)
            if x[2] >= y[3]: return z3.BoolVal(False)
            return self.expr(x) < self.expr(y)
        if x[3] <= y[2]: return z3.BoolVal(True)
        if x[2] > y[3]: return z3.BoolVal(False)
        return self.expr(x) <= self.expr(y)

    def sval(self, t):
        n = t.size(); H = 1 << (n - 1)
        v = self.val(t)
        if v[3] < H: return v
        if v[2] >= H: return (v[0], v[1] - 2 * H, v[2] - 2 * H, v[3] - 2 * H)
        def mk():
            r = self.new(-H, H - 1)
            e = self.expr(v)
            self.pending.append(self.expr(r) == z3.If(e < H, e, e - 2 * H))
            return r
        return self.memo(('g', t.get_id()), t, mk)

    # ------------------------------------------------------------ queries
    def check(self, pc, cond=None):
        """'unsat', 'sat' (exact) or 'unknown'"""
        self.queries += 1
        self.sync(pc)
        self.push()
        try:
            if cond is not None:
                self.learn(cond)
                try: b = self.bool(cond)
                except Opaque:
                    self.pending = []; self.flush()
                    return 'unsat' if str(self.s.check()) == 'unsat' else 'unknown'
                self.flush(); self.s.add(b)
            r = str(self.s.check())
            if r == 'sat':
                if self.inexact: return 'unknown'
                m = self.s.model()
                self.last = [(t, m.eval(v, model_completion=True).as_long()) for t, v in self.leaves.values()]
            return r
        finally:
            self.undo_push()

    def undo_push(self):
        self.s.pop()
        keys, bnds, self.inexact = self.undo.pop()
        for k in keys: self.cache.pop(k, None)
        for k, old in reversed(bnds):
            if old is None: self.bounds.pop(k, None)
            else: self.bounds[k] = old
