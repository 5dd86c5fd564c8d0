"""Loop rule: a loop in a function named by a //@loop directive is not unrolled.

On entry every location the body can change is generalised (found by a local
fixpoint over the body's real paths); locations whose change per iteration is a
constant are expressed through a ghost iteration counter K; further conjuncts of
the invariant come from the comparisons the body itself makes (kept only when
inductive) and from the unit's invariant function:

  vp_inv(cond, "name")   required: obligation on entry and after every iteration
  vp_cand(value)         offered: kept for each changed location that equals it
                         on entry and after every iteration
The body is then verified once from the general state; paths leaving the loop go
on. Termination is not proved.
"""
import re
import z3
from sym import *


class LoopMixin:
    loops = ()
    recursive = ()

    # ------------------------------------------------------------- CFG
    def succ(self, ins):
        op = ins[0]
        if op == 'br': return [ins[1]]
        if op == 'cbr': return [ins[2], ins[3]]
        if op == 'switch': return [ins[3]] + [l for _, l in ins[4]]
        if op == 'call': return [x for x in (ins[5], ins[6]) if x is not None]
        return []

    def fnloops(self, f):
        r = self.loopinfo.get(f.name)
        if r is not None: return r
        bl = self.m.blocks(f)
        order = f.order
        S = {}
        for b in order:
            out = []
            for ins in bl[b]: out += self.succ(ins)
            S[b] = out
        P = {b: [] for b in order}
        for b in order:
            for t in S[b]: P[t].append(b)
        dom = {b: set(order) for b in order}
        dom[order[0]] = {order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in P[b]]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]: dom[b] = n; ch = True
        heads = {}
        for b in order:
            for t in S[b]:
                if t in dom[b]: heads.setdefault(t, set()).add(b)
        out = {}
        d = self.dem.get(f.name, f.name)
        for k, h in enumerate([x for x in order if x in heads]):
            body = {h}; st = list(heads[h])
            while st:
                x = st.pop()
                if x in body: continue
                body.add(x); st += P[x]
            for rx, idx, inv in self.loops:
                if (idx is None or idx == k) and rx.search(d):
                    out[h] = (body, inv); break
        self.loopinfo[f.name] = out
        return out

    # ------------------------------------------------------------- entry
    def at_header(self, s, fr, label):
        li = self.fnloops(fr.fn)
        if label in li: s.pend = (len(s.frames), label)

    def cut(self, s, work):
        """called with s.pend set: entry to a loop that must be summarised"""
        depth, label = s.pend
        s.pend = None
        fr = s.frames[-1]
        if fr.cuts and label in fr.cuts:
            raise BackEdge()
        body, inv = self.fnloops(fr.fn)[label]
        work.extend(self.summarize(s, depth, label, body, inv))
        raise PathEnd('loop')

    # ------------------------------------------------------------- invariant function
    def run_inv(self, s, inv, K):
        """evaluate the invariant function on a copy of s; [(kind,name,term)], new facts"""
        if inv is None: return []
        t = s.copy()
        f = self.m.fns.get(inv)
        if f is None: raise EngineError('invariant function %s not found' % inv)
        d = len(t.frames)
        old = (self.invlog, self.phase)
        self.invlog = []; self.phase = 'fix'
        self.push_frame(t, f, [K][:len(f.params)], None, 'sync', None, None)
        mark = len(t.pc)
        w = []
        while len(t.frames) > d: self.step(t, w)
        if w: raise EngineError('invariant function %s branches' % inv + (' %r' % [(x.frames[-1].fn.name, x.pc[-1]) for x in w] if __import__('os').environ.get('VP_DBG') else ''))
        r = self.invlog
        self.invlog, self.phase = old
        w = lambda x: x[1].startswith('the invariant is well defined')
        r = [x for x in r if not w(x)] + [x for x in r if w(x)]     # the same places in every run
        self.invpc = t.pc[mark:]
        self.invaddr = t.rmap.get(('addressed',))
        return r

    invlog = None
    stage0 = False          # exploring for changed locations only: a path may be dropped, the next round starts again

    def b_vp_inv(self, s, a, rt):
        if self.invlog is None: raise EngineError('vp_inv outside an invariant function')
        self.invlog.append(('inv', self.cstr(s, a[1]), a[0])); return None

    def b_vp_cand(self, s, a, rt):
        if self.invlog is None: raise EngineError('vp_cand outside an invariant function')
        self.invlog.append(('cand', '', a[0])); return None

    def b_vp_candp(self, s, a, rt):
        self.invlog.append(('cand', '', a[0])); return None

    # ------------------------------------------------------------- helpers
    def same(self, s, a, b):
        """provably equal under s.pc"""
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr): a = self.int_ptr(a)
            if not isinstance(b, Ptr): b = self.int_ptr(b)
            if a.r != b.r: return False
            a, b = a.o, b.o
        if isinstance(a, list): return len(a) == len(b) and all(self.same(s, x, y) for x, y in zip(a, b))
        if isinstance(a, float) or isinstance(b, float):
            if not isz(a) and not isz(b): return a == b
            return False
        if not isz(a) and not isz(b): return a == b
        if isz(a) and isz(b) and a.eq(b): return True
        if isz(a): c = a != (b if isz(b) else (z3.BoolVal(bool(b)) if z3.is_bool(a) else z3.BitVecVal(b, a.size())))
        else: c = (z3.BoolVal(bool(a)) if z3.is_bool(b) else z3.BitVecVal(a, b.size())) != b
        return self.check(s.pc, c) == 'unsat'

    def width(self, v, k=None):
        if isinstance(v, Ptr): return 'p'
        if isz(v): return 1 if z3.is_bool(v) else (v.size() if z3.is_bv(v) else 'f')
        return None

    def get_slot(self, s, key):
        if key[0] == 'r': return s.frames[key[1] - 1].regs[key[2]]
        if key[0] == 'a': return s.regions[key[1]].arr
        r = s.regions[key[1]]
        return self.load_at(s, r, key[2], key[3])

    def set_slot(self, s, key, v):
        if key[0] == 'r': s.frames[key[1] - 1].regs[key[2]] = v
        elif key[0] == 'a': s.rw(key[1]).arr = v
        else: self.put(s.rw(key[1]), key[2], key[3], v)

    def summarize(self, s, depth, label, body, inv):
        fname = self.dem.get(s.frames[-1].fn.name, s.frames[-1].fn.name).split('(')[0][-60:]
        blk = self.m.blocks(s.frames[-1].fn)[label]
        phis = []
        for ins in blk:
            if ins[0] != 'phi': break
            phis.append((ins[1], ins[2]))
        regs = [('r', depth, d) for d, t in phis]
        types = {('r', depth, d): t for d, t in phis}
        for rid in list(s.regions):
            if s.regions[rid].init is not None and not s.regions[rid].const: self.materialise(s, s.regions[rid])
        self.used_loops.add(fname)
        H = {}                  # slot -> 'havoc' | ('lin', d)
        nolin = set()
        dropped = set()         # candidate keys
        atoms = {}              # candidate atoms  key -> builder
        K = self.fresh(64, 'K')
        entry = s.copy()
        outer = self.phase
        elog = self.run_inv(entry, inv, 0)
        epc = list(entry.pc) + (self.invpc if inv else [])
        if outer == 'final':
            for kind, name, c in elog:
                if kind == 'inv':
                    t = entry.copy(); t.pc = list(epc)
                    try: self.oblige(t, c, 'loop invariant on entry: ' + name, 'loop')
                    except PathEnd: pass
        stage = 0               # 0: which locations change; 1: with candidate conjuncts
        for rnd in range(80):
            # ---- head state
            self.freshn += 1
            mark = self.freshn
            h = s.copy()
            h.frames[-1].cuts = dict(h.frames[-1].cuts or {}); h.frames[-1].cuts[label] = 1
            h.frames[-1].visits = {}
            sym = {}            # slot -> (initial value, head value)
            for key, how in H.items():
                v0 = self.get_slot(entry, key)
                if key[0] == 'a':
                    nv = z3.Array('arr!%d' % self.bump(), z3.BitVecSort(64), v0.sort().range())
                elif isinstance(how, tuple):
                    w = self.slot_width(key, v0, types)
                    kk = K if w >= 64 else z3.Extract(w - 1, 0, K)
                    if isinstance(v0, Ptr): nv = Ptr(v0.r, simp(bv(v0.o, 64) + how[1] * K))
                    else: nv = simp(bv(v0, w) + how[1] * kk)
                elif how == 'havocp' or (isinstance(v0, Ptr) and v0.r == 0):
                    nv = Ptr(0, self.fresh(64, 'hp'))
                elif isinstance(v0, Ptr):
                    nv = Ptr(v0.r, self.fresh(64, 'ho'))
                elif isinstance(v0, float) or (isz(v0) and z3.is_fp(v0)):
                    self.bump(); nv = z3.FP('hf!%d' % self.freshn, z3.Float64())
                else:
                    nv = self.fresh(self.slot_width(key, v0, types), 'hv')
                self.set_slot(h, key, nv)
                sym[key] = (v0, nv)
            # ---- assume the invariant
            hlog = self.run_inv(h, inv, K)
            if inv:
                h.pc.extend(self.invpc)
                if self.invaddr: h.rmap[('addressed',)] = self.invaddr      # with the facts just added
            ncand = {}
            for i, (kind, name, c) in enumerate(hlog):
                if kind == 'inv':
                    c = boolz(c); h.pc.append(c)
            def cand_eq(v, t):
                """slot value v equals candidate term t (adapted to the slot's type)"""
                if isinstance(t, Ptr):
                    if not isinstance(v, Ptr): return None
                    if v.r != t.r:
                        if not ((v.r == 0 and isz(v.o)) or (t.r == 0 and isz(t.o))): return None
                        return bv(self.ptr_int(v), 64) == bv(self.ptr_int(t), 64)
                    return bv(v.o, 64) == bv(t.o, 64)
                if isinstance(v, Ptr): return None
                if isinstance(v, float) or (isz(v) and not (z3.is_bv(v) or z3.is_bool(v))): return None
                if isz(v) and z3.is_bool(v): return v == (bv(t, 64) != 0)
                w = v.size() if isz(v) else None
                if w is None: return ('const', v)
                if w > 64: return None
                return v == z3.Extract(w - 1, 0, bv(t, 64))
            used = []           # (key, slot, index)
            for key in sym:
                if key[0] == 'a' or isinstance(H[key], tuple) or not stage: continue
                v0, nv = sym[key]
                for i, (kind, name, t) in enumerate(hlog):
                    if kind != 'cand': continue
                    ck = ('c', key, i)
                    if ck in dropped: continue
                    e = cand_eq(nv, t)
                    if e is None: dropped.add(ck); continue
                    # holds on entry?
                    w = 'p' if isinstance(nv, Ptr) else (1 if z3.is_bool(nv) else nv.size())
                    e0 = cand_eq(v0 if w == 'p' else (boolz(v0) if w == 1 else bv(v0, w)), elog[i][2])
                    if e0 is None or self.check(epc, z3.Not(e0)) != 'unsat': dropped.add(ck); continue
                    h.pc.append(e); used.append((ck, key, i))
            subs0 = self.subst(sym, lambda k: sym[k][0], K, z3.BitVecVal(0, 64))
            aused = []
            for ak, (term, syms) in list(atoms.items()):
                if ak in dropped or not stage: continue
                # rebuilt over this round's head values
                t = z3.substitute(term, *self.remap(syms, sym)) if syms else term
                e0 = z3.simplify(z3.substitute(t, *subs0)) if subs0 else t
                if self.check(epc, z3.Not(e0)) != 'unsat': dropped.add(ak); continue
                h.pc.append(t); aused.append((ak, t))
            # ---- run the body
            self.phase = 'fix'
            self.atomlog = {}
            h0 = h.copy()
            first, self.stage0 = self.stage0, not stage
            backs, exits = self.explore(h, depth, label, body)
            self.stage0 = first
            log, self.atomlog = self.atomlog, None
            self.phase = outer
            # ---- compare
            change = False
            # a path releasing an object from before the loop may still turn out infeasible
            good = [b for b in backs if not self.releases(h0, b)]
            badback = len(good) != len(backs)
            if good: backs = good
            newH = dict(H)
            for b in backs:
                blog = self.run_inv(b, inv, simp(K + 1))
                bpc = b.pc + (self.invpc if inv else [])
                for key in self.changed(entry, h0, b, regs, depth):
                    if key in newH:
                        pass
                    else:
                        v0 = self.get_slot(h0, key)
                        if key[0] == 'a' or not self.same(b, self.get_slot(b, key), v0):
                            nb = None if key[0] == 'a' else self.get_slot(b, key)
                            bad = isinstance(v0, Ptr) and (not isinstance(nb, Ptr) or nb.r != v0.r)
                            bad = bad or (isinstance(nb, Ptr) and not isinstance(v0, Ptr))
                            if isinstance(v0, Ptr) and not bad:
                                # a candidate that chooses between objects
                                for i, (kind, name, t) in enumerate(elog):
                                    if kind == 'cand' and isinstance(t, Ptr) and t.r == 0 and isz(t.o):
                                        e0 = cand_eq(self.get_slot(entry, key), t)
                                        if e0 is not None and self.check(epc, z3.Not(boolz(e0))) == 'unsat': bad = True; break
                            newH[key] = 'havocp' if bad else 'havoc'; change = True
                            for k2 in [k for k in newH if k != key and k[0] == 'm' and key[0] == 'm' and k[1] == key[1] and k[2] < key[2] + key[3] and key[2] < k[2] + k[3]]:
                                del newH[k2]
                for key, how in H.items():
                    if key not in newH: change = True; continue
                    if key[0] == 'a': continue
                    v0, nv = sym[key]
                    bvv = self.get_slot(b, key)
                    if isinstance(how, tuple):
                        if isinstance(v0, Ptr):
                            want = Ptr(v0.r, simp(bv(v0.o, 64) + how[1] * (K + 1)))
                        else:
                            w = self.slot_width(key, v0, types)
                            k1 = K + 1 if w >= 64 else z3.Extract(w - 1, 0, K + 1)
                            want = simp(bv(v0, w) + how[1] * k1)
                        if not self.same(b, bvv, want):
                            newH[key] = 'havoc'; nolin.add(key); change = True
                    elif how == 'havoc':
                        if stage and isinstance(nv, Ptr) and (not isinstance(bvv, Ptr) or bvv.r != nv.r) and nv.r:
                            newH[key] = 'havocp'; change = True
                for ck, key, i in used:
                    if ck in dropped: continue
                    bvv = self.get_slot(b, key); nv = sym[key][1]
                    w = 'p' if isinstance(nv, Ptr) else (1 if z3.is_bool(nv) else nv.size())
                    e = None
                    if (w == 'p') == isinstance(bvv, Ptr):
                        e = cand_eq(bvv if w == 'p' else (boolz(bvv) if w == 1 else bv(bvv, w)), blog[i][2])
                    if e is None or self.hard_valid(bpc, e) is not True:
                        dropped.add(ck); change = True
                subs = self.subst(sym, lambda k: self.get_slot(b, k), K, K + 1)
                for ak, t in aused:
                    if ak in dropped: continue
                    e = z3.simplify(z3.substitute(t, *subs)) if subs else t
                    if self.check(b.pc, z3.Not(e)) != 'unsat':
                        dropped.add(ak); change = True
            # ---- constant change per iteration
            for key, how in list(newH.items()):
                if how != 'havoc' or key not in H or H[key] != 'havoc' or key in nolin or key[0] == 'a': continue
                v0, nv = sym[key]
                ds = set()
                for b in backs:
                    x = self.get_slot(b, key)
                    if isinstance(nv, Ptr): d = sub64(x.o, nv.o) if isinstance(x, Ptr) else None
                    elif isz(nv) and z3.is_bv(nv):
                        if isinstance(x, (Ptr, float)): d = None
                        else:
                            d = simp(bv(x, nv.size()) - nv)
                            if isz(d) and d.size() > 0:
                                # constant under the path condition?
                                d = self.const_under(b, d)
                    else: d = None
                    ds.add(d if d is not None and not isz(d) else None)
                if len(ds) == 1 and None not in ds:
                    newH[key] = ('lin', ds.pop()); change = True
                else: nolin.add(key)
            # ---- new candidates from the comparisons of the body
            if len(atoms) < 60 and stage:
                for a, b_ in log.values():
                    for mk in (z3.ULE, lambda x, y: z3.ULE(y, x), lambda x, y: x <= y, lambda x, y: y <= x, lambda x, y: x != y):
                        t = z3.simplify(mk(a, b_))
                        if z3.is_true(t) or z3.is_false(t): continue
                        if not self.only_old(t, mark, sym, K): continue
                        # canonical key: slots by position
                        t2, syms = self.abstract(t, sym)
                        ak = t2.sexpr()
                        if ak in atoms or ak in dropped: continue
                        atoms[ak] = (t2, syms); change = True
            H = newH
            if not change:
                if stage:
                    if badback: raise EngineError('a loop body releases an object that exists before the loop (%s): not supported by the loop rule' % fname)
                    break
                stage = 1
        else:
            raise EngineError('loop generalisation in %s does not settle' % fname)
        if outer != 'final':
            return self.released(exits, depth, label)
        # ---- final pass: everything the body must prove, from the general state
        h = h0.copy()
        h.pc = list(h0.pc)
        backs, exits = self.explore(h, depth, label, body)
        for b in backs:
            blog = self.run_inv(b, inv, simp(K + 1))
            t = b.copy(); t.pc = b.pc + (self.invpc if inv else [])
            for kind, name, c in blog:
                if kind == 'inv':
                    try: self.oblige(t, c, 'loop invariant preserved: ' + name, 'loop')
                    except PathEnd: break
        return self.released(exits, depth, label)

    def hard_valid(self, pc, e):
        ob = Obligation('cand', 'loop', '')
        r = self.prove(pc, z3.Not(e), ob)
        return r == 'unsat'

    def const_under(self, s, d):
        if self.check(s.pc) != 'sat': return None
        self.sync(s.pc)
        if str(self.solver.check()) != 'sat': return None
        v = simp(self.solver.model().eval(d, model_completion=True))
        if isz(v): return None
        return v if self.check(s.pc, d != z3.BitVecVal(v, d.size())) == 'unsat' else None

    def bump(self):
        self.freshn += 1
        return self.freshn

    def slot_width(self, key, v0, types):
        if key[0] == 'm': return 8 * key[3] if not isinstance(v0, Ptr) else 64
        t = types[key]
        return 64 if t.k == 'ptr' else t.n

    def released(self, exits, depth, label):
        for e in exits:
            if len(e.frames) >= depth:
                fr = e.frames[depth - 1]
                if fr.cuts and label in fr.cuts:
                    fr.cuts = {k: v for k, v in fr.cuts.items() if k != label}
        return exits

    def explore(self, h, depth, label, body):
        work = [h]; backs = []; exits = []
        n = 0
        while work:
            s = work.pop()
            try:
                while True:
                    if len(s.frames) < depth or (len(s.frames) == depth and s.frames[-1].blk not in body):
                        exits.append(s); break
                    if s.pend == (depth, label) and len(s.frames) == depth:
                        s.pend = None
                        backs.append(s); break
                    self.step(s, work)
            except PathEnd:
                pass
            n += 1
            if n > self.o['max_paths']: raise EngineError('more than %d paths in a loop body' % self.o['max_paths'])
        return backs, exits

    def releases(self, h, b):
        return any(hr.alive and rid in b.regions and not b.regions[rid].alive for rid, hr in h.regions.items())

    def changed(self, entry, h, b, regs, depth):
        out = list(regs)
        for rid, hr in list(h.regions.items()):
            br = b.regions.get(rid)
            if br is None: continue
            if br is hr: continue
            if hr.alive and not br.alive:
                raise EngineError('a loop body releases an object that exists before the loop (%s): not supported by the loop rule' % hr.name)
            if hr.arr is not None or br.arr is not None:
                if hr.arr is None: raise EngineError('array region created in loop')
                if not hr.arr.eq(br.arr): out.append(('a', rid))
                continue
            if hr.init is not None: self.materialise(h, hr); hr = h.regions[rid]
            if br.init is not None: continue
            cov = set()
            for o, (k, v) in sorted(br.cells.items()):
                c = hr.cells.get(o)
                if c is not None and c[0] == k:
                    cov.update(range(o, o + k))
                    if c[1] is v or (not isz(v) and not isinstance(v, (Ptr, float)) and not isz(c[1]) and c[1] == v): continue
                    out.append(('m', rid, o, k)); continue
                inside = [(o2, k2) for o2, (k2, _) in hr.cells.items() if o2 < o + k and o < o2 + k2]
                if not inside:
                    if hr.fill == 'zero': out.append(('m', rid, o, k)); cov.update(range(o, o + k))
                    continue
                if all(o <= o2 and o2 + k2 <= o + k for o2, k2 in inside):
                    out.append(('m', rid, o, k)); cov.update(range(o, o + k))
                else:
                    for o2, k2 in inside:
                        if o2 not in cov: out.append(('m', rid, o2, k2)); cov.update(range(o2, o2 + k2))
            for o, (k, v) in hr.cells.items():
                if o not in cov and (br.cells.get(o) is None or br.cells[o][0] != k): out.append(('m', rid, o, k))
        return list(dict.fromkeys(out))

    # --- substitution between head symbols and other values
    def leaf(self, v):
        if isinstance(v, Ptr): v = v.o
        return v if isz(v) and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED else None

    def subst(self, sym, get, K, kval):
        out = [(K, kval)]
        for k, (v0, nv) in sym.items():
            l = self.leaf(nv)
            if l is None: continue
            x = get(k)
            if isinstance(nv, Ptr):
                if not isinstance(x, Ptr): x = self.int_ptr(x)
                x = x.o if x.r == nv.r else self.ptr_int(x)
                out.append((l, bv(x, 64)))
            elif z3.is_bool(l): out.append((l, boolz(x)))
            elif z3.is_bv(l): out.append((l, bv(x if not isinstance(x, Ptr) else self.ptr_int(x), l.size())))
            elif z3.is_array(l): out.append((l, x))
        return out

    def abstract(self, t, sym):
        """replace head symbols by names that depend only on the slot"""
        sub = []; syms = []
        for k, (v0, nv) in sym.items():
            l = self.leaf(nv)
            if l is None or not contains(t, l): continue
            nm = z3.Const('slot_%s' % '_'.join(map(str, k)), l.sort())
            sub.append((l, nm)); syms.append((k, nm))
        return (z3.substitute(t, *sub) if sub else t), syms

    def remap(self, syms, sym):
        out = []
        for k, nm in syms:
            if k in sym:
                v = sym[k][1]
                v = v.o if isinstance(v, Ptr) else v
                if isz(v) and v.sort() == nm.sort(): out.append((nm, v))
        return out

    def only_old(self, t, mark, sym, K):
        ok = {K.get_id()}
        for k, (v0, nv) in sym.items():
            l = self.leaf(nv)
            if l is not None: ok.add(l.get_id())
        st = [t]; seen = set(); hit = False
        while st:
            e = st.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if len(seen) > 200: return False
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if e.get_id() in ok: hit = True; continue
                m = re.search(r'!(\d+)$', str(e))
                if m and int(m.group(1)) >= mark: return False
            st.extend(e.children())
        return hit

    def note_atoms(self, c):
        if self.atomlog is None: return
        st = [c]; n = 0
        while st and n < 60:
            e = st.pop(); n += 1
            k = e.decl().kind()
            if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ, z3.Z3_OP_ULT, z3.Z3_OP_SLT) or (k == z3.Z3_OP_EQ and z3.is_bv(e.arg(0))):
                self.atomlog[e.get_id()] = (e.arg(0), e.arg(1))
            elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT): st.extend(e.children())

    atomlog = None


class BackEdge(Exception):
    pass
