"""Equality of two large bit-vector terms by sweeping: nodes that agree on random
inputs are proved equal bottom-up (each with its own small query over already
identified nodes) and merged. A 'True' answer is a proof: every merge was proved
by the solver, and the final goal is syntactically one node."""
import random
import time
import z3

K = z3


def kids(e, defs):
    """children; a name given to an intermediate value stands for its definition"""
    d = defs.get(e.get_id()) if defs else None
    if d is not None and d[0].eq(e): return [d[1]]
    return e.children()


def topo(roots, defs=None):
    seen = set(); out = []
    st = [(r, False) for r in roots]
    while st:
        e, done = st.pop()
        if done: out.append(e); continue
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        st.append((e, True))
        for c in kids(e, defs):
            if c.get_id() not in seen: st.append((c, False))
    return out


def rot(w, v, k):
    k %= w
    return ((v << k) | (v >> (w - k))) & ((1 << w) - 1) if k else v


def sim(e, ch, rnd):
    """value of e for each pattern, None if not a supported operator"""
    k = e.decl().kind()
    if z3.is_bv_value(e): return [e.as_long()] * rnd
    if z3.is_true(e): return [1] * rnd
    if z3.is_false(e): return [0] * rnd
    if k == z3.Z3_OP_UNINTERPRETED or any(c is None for c in ch) or k in (z3.Z3_OP_SELECT,):
        return 'leaf'
    w = e.size() if z3.is_bv(e) else 1
    M = (1 << w) - 1
    n = range(rnd)

    def fold(f):
        r = ch[0]
        for c in ch[1:]: r = [f(r[i], c[i]) & M for i in n]
        return r
    if k == z3.Z3_OP_BADD: return fold(lambda a, b: a + b)
    if k == z3.Z3_OP_BMUL: return fold(lambda a, b: a * b)
    if k == z3.Z3_OP_BSUB: return fold(lambda a, b: a - b)
    if k == z3.Z3_OP_BAND: return fold(lambda a, b: a & b)
    if k == z3.Z3_OP_BOR: return fold(lambda a, b: a | b)
    if k == z3.Z3_OP_BXOR: return fold(lambda a, b: a ^ b)
    if k == z3.Z3_OP_BNOT: return [~x & M for x in ch[0]]
    if k == z3.Z3_OP_BNEG: return [-x & M for x in ch[0]]
    if k == z3.Z3_OP_CONCAT:
        r = [0] * rnd
        for c, x in zip(ch, e.children()):
            r = [(r[i] << x.size()) | c[i] for i in n]
        return r
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        return [(x >> lo) & M for x in ch[0]]
    if k == z3.Z3_OP_BSHL: return [(a << b) & M if b < w else 0 for a, b in zip(*ch)]
    if k == z3.Z3_OP_BLSHR: return [a >> b if b < w else 0 for a, b in zip(*ch)]
    if k == z3.Z3_OP_ZERO_EXT: return ch[0]
    if k == z3.Z3_OP_SIGN_EXT:
        cw = e.arg(0).size()
        return [(x | (M & ~((1 << cw) - 1))) if x >> (cw - 1) else x for x in ch[0]]
    if k == z3.Z3_OP_ROTATE_LEFT: return [rot(w, x, e.params()[0]) for x in ch[0]]
    if k == z3.Z3_OP_ROTATE_RIGHT: return [rot(w, x, w - e.params()[0] % w) for x in ch[0]]
    if k == z3.Z3_OP_ITE: return [b if a else c for a, b, c in zip(*ch)]
    if k == z3.Z3_OP_EQ: return [int(a == b) for a, b in zip(*ch)]
    if k == z3.Z3_OP_NOT: return [1 - x for x in ch[0]]
    if k == z3.Z3_OP_AND: return [int(all(c[i] for c in ch)) for i in n]
    if k == z3.Z3_OP_OR: return [int(any(c[i] for c in ch)) for i in n]
    if k == z3.Z3_OP_ULEQ: return [int(a <= b) for a, b in zip(*ch)]
    if k == z3.Z3_OP_UGEQ: return [int(a >= b) for a, b in zip(*ch)]
    if k == z3.Z3_OP_ULT: return [int(a < b) for a, b in zip(*ch)]
    if k == z3.Z3_OP_UGT: return [int(a > b) for a, b in zip(*ch)]
    return 'leaf'


def equal(a, b, budget=60.0, defs=None, per=1500):
    """prove a == b for all values of the leaves; (proved, merges)"""
    t0 = time.time()
    rng = random.Random(1)
    rnd = 32
    order = topo([a, b], defs)
    if len(order) > 60000: return False, 0
    val = {}; rep = {}; classes = {}
    merges = 0
    for e in order:
        if time.time() - t0 > budget: return False, merges
        i = e.get_id()
        if not (z3.is_bv(e) or z3.is_bool(e)):
            val[i] = None; rep[i] = e; continue
        cs = kids(e, defs)
        if cs and defs and e.get_id() in defs:
            val[i] = val[cs[0].get_id()]; rep[i] = rep[cs[0].get_id()]; continue
        v = sim(e, [val.get(c.get_id()) for c in cs], rnd)
        ne = e
        if v != 'leaf' and cs:
            nc = [rep[c.get_id()] for c in cs]
            if any(not x.eq(y) for x, y in zip(nc, cs)):
                ne = z3.substitute(e, *[(x, y) for x, y in zip(cs, nc) if not x.eq(y)]) if len(cs) else e
                # one level only: children are replaced as whole terms
        if v == 'leaf':
            w = e.size() if z3.is_bv(e) else 1
            v = [rng.getrandbits(w) for _ in range(rnd)]
        val[i] = v
        key = (str(e.sort()), tuple(v))
        r = None
        cl = classes.setdefault(key, [])
        for c in cl[:3]:
            if c.eq(ne): r = c; break
        if r is None:
            for c in cl[:3]:
                if prove(c, ne, per):
                    r = c; merges += 1; break
        if r is None:
            cl.append(ne); r = ne
        rep[i] = r
    return rep[a.get_id()].eq(rep[b.get_id()]), merges


SOFT = {z3.Z3_OP_BNOT, z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_BNEG,
        z3.Z3_OP_NOT, z3.Z3_OP_ROTATE_LEFT, z3.Z3_OP_ROTATE_RIGHT, z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR}
BIT = SOFT | {z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR}


def prove(x, y, per):
    """x == y for all values of the common subterms (a valid equality of the
    abstraction is valid): first with words built by arithmetic as the leaves,
    then the common words of any kind"""
    sx = {e.get_id(): e for e in topo([x])}
    sy = {e.get_id() for e in topo([y])}
    common = sx.keys() & sy
    done = set()
    for through in (SOFT, BIT, None):
        sub = []; n = 0
        seen = set(); st = [x, y]
        if through is None and len(sx) + len(sy) > 150: break
        while st:
            e = st.pop()
            i = e.get_id()
            if i in seen: continue
            seen.add(i)
            if through is not None and i in common and not z3.is_bv_value(e) and (z3.is_bv(e) or z3.is_bool(e)) \
                    and e.decl().kind() not in through:
                n += 1
                sub.append((e, z3.Const('cut!%d' % n, e.sort()))); continue
            st.extend(e.children())
        k = tuple(sorted(e.get_id() for e, _ in sub))
        if k in done or len(seen) > 400: continue
        done.add(k)
        s = z3.SolverFor('QF_BV'); s.set('timeout', per)
        s.add(z3.substitute(x, *sub) != z3.substitute(y, *sub))
        if s.check() == z3.unsat: return True
    return False
