"""Instruction semantics, calls, exceptions, and the vp_* contract intrinsics."""
import re, time
import z3
import ll
from ll import I, PTR, ParseError
from sym import *
from loops import LoopMixin


class Thrown(Exception):
    pass


class Exec(LoopMixin, Engine):

    # ---------------- driver ------------------------------------------------
    def run(self, fname, args=None, init_state=None):
        """explore every path of harness fname"""
        s = init_state.copy() if init_state else State()
        f = self.m.fns[fname]
        self.push_frame(s, f, args or [], None, None, None, None)
        work = [s]
        self.end_states = []
        npaths = 0
        self.reached_end = 0
        while work:
            s = work.pop()
            try:
                while True:
                    self.step(s, work)
            except PathEnd as e:
                npaths += 1
                self.done_paths += 1
                if npaths > self.o['max_paths']:
                    raise EngineError('more than %d paths' % self.o['max_paths'])
        return npaths

    def push_frame(self, s, f, args, dst, rt, nl, ul):
        if f.lines is None:
            raise EngineError('call to unmodelled external function: ' + self.dem.get(f.name, f.name))
        blocks = self.m.blocks(f)
        fr = Frame(f)
        fr.blk = f.order[0]; fr.ip = 0
        fr.dst = dst; fr.rt = rt; fr.nl = nl; fr.ul = ul
        for (t, nm, a), v in zip(f.params, args):
            if 'byval' in a:
                # callee owns a copy
                ty = a['byval']
                np_ = self.new_region(s, ty.size, 'stack', 'byval')
                self.memcpy(s, np_, v, ty.size)
                v = np_
            fr.regs[nm] = v
        s.frames.append(fr)
        if len(s.frames) > 400:
            raise EngineError('call depth > 400 (unbounded recursion needs a contract stub)')
        if f.name not in self.used_fns: self.used_fns[f.name] = 0
        self.used_fns[f.name] += 1

    def goto(self, s, fr, label):
        fr.prev = fr.blk
        fr.blk = label
        fr.ip = 0
        blk = self.m.blocks(fr.fn)[label]
        # phis, evaluated in parallel
        vals = []
        i = 0
        for ins in blk:
            if ins[0] != 'phi': break
            vals.append((ins[1], self.val(s, ins[2], ins[3][fr.prev])))
            i += 1
        for d, v in vals: fr.regs[d] = v
        fr.ip = i
        n = fr.visits.get(label, 0) + 1
        fr.visits[label] = n
        if n > self.o['max_visits']:
            raise EngineError('loop unwinding limit (%d) in %s' % (self.o['max_visits'], self.dem.get(fr.fn.name, fr.fn.name)))
        if self.loops: self.at_header(s, fr, label)

    def step(self, s, work):
        if s.pend is not None: self.cut(s, work)
        fr = s.frames[-1]
        ins = self.m.blocks(fr.fn)[fr.blk][fr.ip]
        s.steps += 1
        if s.steps > self.o['max_steps']:
            raise EngineError('step limit')
        if self.deadline and s.steps % 256 == 0 and time.time() > self.deadline:
            raise EngineError('time budget exhausted')
        try:
            self.ex(s, fr, ins, work)
        except Fork as fk:
            alive = []
            for cond, e, v in fk.alts:
                c = norm(z3.simplify(boolz(cond))) if isz(cond) else cond
                if not isz(c):
                    if not c: continue
                    alive.append((None, e, v)); continue
                if self.check(s.pc, c) != 'unsat': alive.append((c, e, v))
            if not alive: raise PathEnd('no feasible case')
            for k, (c, e, v) in enumerate(alive):
                t = s if k == len(alive) - 1 else s.copy()
                if c is not None: t.pc.append(c)
                if e is not None: t.conc[e.get_id()] = (e, v)
                if t is not s: work.append(t)
        except ChoiceFork as c:
            for v in range(c.n - 1, 0, -1):
                t = s.copy(); t.flags[c.key] = v; work.append(t)
            s.flags[c.key] = 0
        except Thrown:
            self.unwind(s)

    def branch(self, s, cond, work):
        """returns True/False for the current state; the other side is queued"""
        c = boolz(cond)
        tf = self.check(s.pc, c)
        ff = self.check(s.pc, z3.Not(c)) if tf != 'unsat' else 'sat'
        if tf == 'unsat': return False, None
        if ff == 'unsat': return True, None
        t = s.copy()
        s.pc.append(c)
        t.pc.append(z3.simplify(z3.Not(c)))
        return True, t

    # ---------------- instructions -----------------------------------------
    def ex(self, s, fr, ins, work):
        op = ins[0]
        V = self.val
        if op == 'call':
            self.call(s, fr, ins, work); return
        if op == 'br':
            self.goto(s, fr, ins[1]); return
        if op == 'cbr':
            c = V(s, I(1), ins[1])
            if not isz(c):
                self.goto(s, fr, ins[2] if c else ins[3]); return
            if self.atomlog is not None: self.note_atoms(c)
            r, other = self.branch(s, c, work)
            if other is not None:
                work.append(other)
                try:
                    self.goto(other, other.frames[-1], ins[3])
                except PathEnd:
                    work.remove(other)
            self.goto(s, fr, ins[2] if r else ins[3]); return
        if op == 'ret':
            v = V(s, ins[1], ins[2]) if ins[1] is not None else None
            self.do_ret(s, v); return
        if op == 'switch':
            self.switch(s, fr, ins, work); return
        if op == 'unreachable':
            self.oblige(s, 0, 'unreachable code reached', 'ub')
            raise PathEnd('unreachable')
        if op == 'resume':
            s.frames[-1].regs['%resume'] = 1
            self.unwind(s); return
        # plain instructions
        d = None
        if op == 'load':
            p = V(s, PTR, ins[3])
            v = self.load(s, ins[2], p); d = ins[1]
        elif op == 'store':
            p = V(s, PTR, ins[3])
            x = V(s, ins[1], ins[2])
            self.store(s, ins[1], x, p)
        elif op == 'gep':
            v = self.gep(s, ins[2], V(s, PTR, ins[3]), [(t, V(s, t, x)) for t, x in ins[4]]); d = ins[1]
        elif op == 'bin':
            v = self.binop(s, ins[2], ins[3], V(s, ins[3], ins[4]), V(s, ins[3], ins[5]), ins[6]); d = ins[1]
        elif op == 'icmp':
            v = self.icmp(s, ins[2], ins[3], V(s, ins[3], ins[4]), V(s, ins[3], ins[5])); d = ins[1]
        elif op == 'fcmp':
            v = self.fcmp(s, ins[2], ins[3], V(s, ins[3], ins[4]), V(s, ins[3], ins[5])); d = ins[1]
        elif op == 'cast':
            v = self.cast(s, ins[2], ins[3], V(s, ins[3], ins[4]), ins[5]); d = ins[1]
        elif op == 'alloca':
            n = 1
            if ins[3] is not None:
                n = V(s, ins[3][0], ins[3][1])
                if isz(n): raise EngineError('alloca of symbolic size')
            v = self.new_region(s, ins[2].size * n, 'stack', 'local'); d = ins[1]
            fr.allocas.append(v.r)
        elif op == 'select':
            c = V(s, I(1), ins[3]); a = V(s, ins[2], ins[4]); b = V(s, ins[2], ins[5]); d = ins[1]
            v = self.select(s, ins[2], c, a, b)
        elif op == 'exv':
            v = V(s, ins[2], ins[3]); d = ins[1]
            for i in ins[4]: v = v[i]
        elif op == 'insv':
            agg = V(s, ins[2], ins[3]); e = V(s, ins[4], ins[5]); d = ins[1]
            def put(a, ix):
                a = list(a)
                if len(ix) == 1: a[ix[0]] = e
                else: a[ix[0]] = put(a[ix[0]], ix[1:])
                return a
            v = put(agg, ins[6])
        elif op == 'freeze':
            v = V(s, ins[2], ins[3]); d = ins[1]
        elif op == 'fneg':
            x = V(s, ins[2], ins[3]); d = ins[1]
            v = -x if not isz(x) else z3.fpNeg(x)
        elif op == 'cmpxchg':
            p = V(s, PTR, ins[3]); t = ins[2]
            old = self.load(s, t, p)
            exp = V(s, t, ins[4]); new = V(s, t, ins[5])
            eq = self.icmp(s, 'eq', t, old, exp)
            d = ins[1]
            if isz(eq):
                if isinstance(old, Ptr) or isinstance(new, Ptr):
                    k = eq
                    e = s.conc.get(k.get_id())
                    if e is None or not e[0].eq(k):
                        raise Fork([(k, k, 1), (z3.Not(k), k, 0)])
                    eq = e[1]
                    if eq: self.store(s, t, new, p)
                else:
                    self.store(s, t, norm(z3.If(eq, bv(new, t.n), bv(old, t.n))), p)
            elif eq:
                self.store(s, t, new, p)
            v = [old, eq]
        elif op == 'rmw':
            p = V(s, PTR, ins[4]); t = ins[3]
            old = self.load(s, t, p); x = V(s, t, ins[5])
            o = ins[2]; d = ins[1]
            if o == 'xchg': new = x
            elif o in ('add', 'sub', 'and', 'or', 'xor'): new = self.binop(s, o, t, old, x, [])
            else: raise EngineError('atomicrmw ' + o)
            self.store(s, t, new, p)
            v = old
        elif op == 'nop':
            pass
        elif op == 'lpad':
            v = self.landing(s, ins); d = ins[1]
        else:
            raise EngineError('instruction ' + op)
        if d is not None: fr.regs[d] = v
        fr.ip += 1


    def select(self, s, t, c, a, b):
        if not isz(c): return a if c else b
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                if not isz(a.o) and not isz(b.o) and a.o == b.o: return a
                return Ptr(a.r, simp(z3.If(c, bv(a.o, 64), bv(b.o, 64))))
            k = c
            e = s.conc.get(k.get_id())
            if e is not None and e[0].eq(k): return a if e[1] else b
            raise Fork([(k, k, 1), (z3.Not(k), k, 0)])
        if isinstance(a, list):
            return [self.select(s, e, c, x, y) for e, x, y in zip(t.el, a, b)]
        if t.k in ('double', 'float'):
            return z3.If(c, self.fpz(a, t), self.fpz(b, t))
        if t.n == 1: return norm(z3.simplify(z3.If(c, boolz(a), boolz(b))))
        return simp(z3.If(c, bv(a, t.n), bv(b, t.n)))

    def switch(self, s, fr, ins, work):
        t = ins[1]
        v = self.val(s, t, ins[2])
        if isinstance(v, Ptr): v = self.ptr_int(v)
        if isz(v):
            e = s.conc.get(v.get_id())
            if e is not None and e[0].eq(v): v = e[1]
        if not isz(v):
            for c, l in ins[4]:
                if c == v: self.goto(s, fr, l); return
            self.goto(s, fr, ins[3]); return
        # group by label
        groups = {}
        for c, l in ins[4]: groups.setdefault(l, []).append(c)
        alts = []
        rest = []
        for l, cs in groups.items():
            if l == ins[3]: continue
            cond = z3.Or(*[v == z3.BitVecVal(c, t.n) for c in cs]) if len(cs) > 1 else (v == z3.BitVecVal(cs[0], t.n))
            alts.append((cond, l)); rest.append(z3.Not(cond))
        alts.append((z3.And(*rest) if rest else z3.BoolVal(True), ins[3]))
        alive = [(c, l) for c, l in alts if self.check(s.pc, c) != 'unsat']
        if not alive: raise PathEnd('switch')
        for k, (c, l) in enumerate(alive[:-1]):
            o = s.copy(); o.pc.append(c)
            work.append(o)
            try: self.goto(o, o.frames[-1], l)
            except PathEnd: work.remove(o)
        c, l = alive[-1]
        s.pc.append(c)
        self.goto(s, fr, l)

    def do_ret(self, s, v):
        fr = s.frames.pop()
        for rid in fr.allocas:
            if rid in s.regions:
                r = s.rw(rid); r.alive = False
        if fr.onret is not None:
            fr.onret(s, v)
        if not s.frames:
            self.finish(s)
            raise PathEnd('end')
        c = s.frames[-1]
        if fr.dst is not None: c.regs[fr.dst] = v
        if fr.rt == 'sync': return
        if fr.nl is not None: self.goto(s, c, fr.nl)
        else: c.ip += 1

    def finish(self, s):
        if self.check(s.pc) == 'sat':
            self.reached_end += 1
        self.on_end(s)

    def on_end(self, s):
        pass

    # ---------------- exceptions -------------------------------------------
    def throw(self, s, ptr, ti):
        s.exc = (ptr, ti)
        raise Thrown()

    def throw_opaque(self, s, what):
        p = self.new_region(s, 512, 'exc', 'exception ' + what)
        self.throw(s, p, 'opaque:' + what)

    def unwind(self, s):
        """unwind from the current instruction of the top frame"""
        while True:
            if not s.frames:
                self.oblige(s, 0, 'exception escapes the harness: ' + self.dem.get(str(s.exc[1]), str(s.exc[1])), 'exception')
                raise PathEnd('exception')
            fr = s.frames[-1]
            ins = self.m.blocks(fr.fn)[fr.blk][fr.ip]
            if ins[0] == 'call' and ins[6] is not None and '%resume' not in fr.regs:
                self.goto(s, fr, ins[6])
                return
            fr.regs.pop('%resume', None)
            s.frames.pop()
            for rid in fr.allocas:
                if rid in s.regions: s.rw(rid).alive = False
            # the calling frame's ip is still at its call/invoke

    def ti_match(self, thrown, catch):
        """does a handler for type info `catch` accept an exception of type info `thrown`"""
        if thrown == catch: return True
        if thrown.startswith('opaque:'):
            n = self.dem.get(catch, catch)
            return n in ('typeinfo for LightSpeed::Exception', 'typeinfo for LightSpeed::IException', 'typeinfo for std::exception')
        seen = set(); st = [thrown]
        while st:
            t = st.pop()
            if t in seen: continue
            seen.add(t)
            if t == catch: return True
            g = self.m.globs.get(t)
            if g is None or g.init is None: continue
            def refs(v):
                if v[0] == 'g':
                    if v[1].startswith('_ZTI'): st.append(v[1])
                elif v[0] == 'agg':
                    for x in v[2]: refs(x)
            refs(g.init)
        return False

    def landing(self, s, ins):
        ptr, ti = s.exc
        sel = 0
        for k, v in ins[4]:
            if k == 'catch':
                if v[0] == 'null': sel = 0x7fff; break
                if self.ti_match(ti, v[1]): sel = self.typeid(v[1]); break
            else:
                raise EngineError('landingpad filter')
        else:
            if not ins[3]:
                # nothing matches: continue unwinding
                s.frames[-1].regs['%resume'] = 1
                raise Thrown()
        return [ptr, sel]

    def typeid(self, name):
        self.tids = getattr(self, 'tids', {})
        return self.tids.setdefault(name, len(self.tids) + 1)

    # ---------------- calls -------------------------------------------------
    def dispatch(self, name):
        r = self.dispatch_cache.get(name)
        if r is None:
            r = self.dispatch_(name)
            self.dispatch_cache[name] = r
        return r

    def dispatch_(self, name):
        d = self.dem.get(name, name)
        for rx, target in self.replace:
            if rx.search(d) and name != target:
                return ('replace', target)
        m = getattr(self, 'b_' + name.replace('.', '_'), None)
        if m is not None: return ('builtin', m)
        for pre, m in (('llvm.memcpy', self.b_memcpy), ('llvm.memmove', self.b_memmove), ('llvm.memset', self.b_memset)):
            if name.startswith(pre): return ('builtin', m)
        m = re.match(r'llvm\.([a-z.]+?)\.(?:i|f)\d+$', name)
        if m:
            g = getattr(self, 'i_' + m.group(1).replace('.', '_'), None)
            if g is not None: return ('intr', g)
        m = re.match(r'llvm\.(\w+)', name)
        if m and m.group(1) in ('lifetime', 'dbg', 'assume', 'experimental', 'donothing', 'prefetch', 'var', 'invariant'):
            return ('nop', None)
        for rx, act in self.stubs:
            if rx.search(d):
                return ('stub', act)
        f = self.m.fns.get(name)
        if f is not None and f.lines is not None:
            return ('fn', f)
        if re.match(r'LightSpeed::throw\w+\(', d):
            return ('throw', d)
        return ('unknown', d)

    def call(self, s, fr, ins, work):
        _, dst, rt, callee, args, nl, ul = ins
        if callee[0] == 'asm':
            if callee[1].strip('"') == '':
                self.callret(s, fr, ins, None); return
            raise EngineError('inline asm ' + callee[1])
        if callee[0] == 'g':
            name = callee[1]
        else:
            p = self.val(s, PTR, callee)
            if not isinstance(p, Ptr) or p.r not in self.fnregions or isz(p.o) or p.o != 0:
                self.oblige(s, 0, 'call through an invalid function pointer', 'memory')
                raise EngineError('indirect call to ' + repr(p))
            name = self.fnregions[p.r]
        a = self.m.aliases.get(name)
        if a is not None: name = a[1]
        kind, h = self.dispatch(name)
        if kind == 'nop':
            self.callret(s, fr, ins, None if rt.k == 'void' else self.undef(s, rt)); return
        av = [self.val(s, t, v) if v is not None else None for t, v, _ in args]
        if kind == 'fn':
            for rx, target in self.recursive:
                if rx.search(self.dem.get(name, name)) and any(f.fn.name == name or rx.search(self.dem.get(f.fn.name, f.fn.name)) for f in s.frames):
                    self.used_stubs.setdefault('contract of the recursive call: %s' % self.dem.get(name, name), 0)
                    h = self.m.fns[target]; break
            self.push_frame(s, h, av, dst, rt, nl, ul); return
        if kind == 'replace':
            self.used_stubs.setdefault('contract: %s' % self.dem.get(name, name), 0)
            self.push_frame(s, self.m.fns[h], av, dst, rt, nl, ul); return
        if kind == 'builtin':
            r = h(s, av, rt)
            if r is NotImplemented: return       # builtin changed control itself
            self.callret(s, fr, ins, r); return
        if kind == 'intr':
            r = h(s, rt, av)
            self.callret(s, fr, ins, r); return
        if kind == 'stub':
            self.used_stubs[self.dem.get(name, name)] = h
            if h == 'nop':
                r = None if rt.k == 'void' else (av[0] if rt.k == 'ptr' and av else self.undef(s, rt))
                self.callret(s, fr, ins, r); return
            if h == 'havoc':
                self.callret(s, fr, ins, None if rt.k == 'void' else self.undef(s, rt)); return
            if h == 'zero':
                self.callret(s, fr, ins, None if rt.k == 'void' else self.zero(rt)); return
            if h == 'throw':
                self.throw_opaque(s, self.dem.get(name, name))
            if h == 'violation':
                self.oblige(s, 0, 'call of ' + self.dem.get(name, name), 'forbidden')
                raise PathEnd('forbidden')
            raise EngineError('stub action ' + h)
        if kind == 'throw':
            self.used_stubs[h] = 'throws'
            self.throw_opaque(s, h)
        raise EngineError('call to unmodelled external function: ' + h)

    def callret(self, s, fr, ins, v):
        fr = s.frames[-1]
        if ins[1] is not None: fr.regs[ins[1]] = v
        if ins[5] is not None: self.goto(s, fr, ins[5])
        else: fr.ip += 1

    # ---------------- memory builtins ---------------------------------------
    def memcpy(self, s, d, sr, n):
        if isz(n):
            e = s.conc.get(n.get_id())
            if e is not None and e[0].eq(n): n = e[1]
        if isz(n):
            return self.memcpy_sym(s, d, sr, n)
        if n == 0: return
        rs, os_ = self.access(s, sr, n, 'read (memcpy)')
        rd, od = self.access(s, d, n, 'write (memcpy)')
        if rd.const: self.oblige(s, 0, 'write to constant memory', 'memory')
        if rs.init is not None: self.materialise(s, rs); rs = s.regions[rs.id]
        if rd.init is not None: self.materialise(s, rd); rd = s.regions[rd.id]
        if isz(os_) or isz(od) or rs.arr is not None or rd.arr is not None:
            es = rs.es if rs.arr is not None else (rd.es if rd.arr is not None else 1)
            if n % es: raise EngineError('memcpy of partial elements')
            tmp = [self.load_raw(s, Ptr(sr.r, add64(sr.o, i)), es) for i in range(0, n, es)]
            for i, v in enumerate(tmp): self.store_raw(s, Ptr(d.r, add64(d.o, i * es)), es, v)
            return
        items = []
        b = os_
        end = os_ + n
        cs = rs.cells
        if n > 4096 and rs.fill == 'zero' and not cs and rd.fill == 'zero' and not rd.cells: return
        # cells fully inside, others bytewise
        covered = []
        pos = os_
        while pos < end:
            c = cs.get(pos)
            if c is not None and pos + c[0] <= end:
                covered.append((pos - os_, c[0], c[1])); pos += c[0]
            else:
                # a piece of memory not starting with a cell here
                over = False
                for q in range(max(0, pos - 15), pos):
                    c2 = cs.get(q)
                    if c2 is not None and q + c2[0] > pos: over = True
                if over or c is not None:
                    v = self.load_at(s, rs, pos, 1); rs = s.regions[rs.id]; cs = rs.cells
                    covered.append((pos - os_, 1, v)); pos += 1
                else:
                    # gap: width up to next cell
                    k = 1
                    while pos + k < end and k < 8 and (pos + k) not in cs: k += 1
                    k = 8 if k >= 8 and pos % 8 == 0 else (4 if k >= 4 and pos % 4 == 0 else 1)
                    v = self.load_at(s, rs, pos, k); rs = s.regions[rs.id]; cs = rs.cells
                    covered.append((pos - os_, k, v)); pos += k
        rd = s.rw(rd.id)
        for o, k, v in covered: self.put(rd, od + o, k, v)

    def memcpy_sym(self, s, d, sr, n):
        rs, os_ = self.access(s, sr, 0, 'read (memcpy)')
        rd, od = self.access(s, d, 0, 'write (memcpy)')
        n64 = bv(n, 64)
        for r, o, w in ((rs, os_, 'read'), (rd, od, 'write')):
            S = bv(r.size, 64); O = bv(o, 64)
            self.oblige(s, z3.And(z3.ULE(O, S), z3.ULE(n64, S - O)), 'memcpy %s out of bounds (%s)' % (w, r.name), 'memory')
        if rs.arr is None or rd.arr is None or rs.es != rd.es:
            # into a small object: byte by byte, guarded by the length
            lim = None
            if isz(od) and rd.arr is None and not isz(rd.size) and rd.size <= 256: self.enum_values(s, od)
            if isz(os_) and rs.arr is None and not isz(rs.size) and rs.size <= 256: self.enum_values(s, os_)
            for r, o in ((rd, od), (rs, os_)):
                if r.arr is None and r.init is None and not isz(o) and not isz(r.size) and r.size - o <= 128:
                    lim = r.size - o if lim is None else min(lim, r.size - o)
            if lim is None or any(r.arr is not None and r.es != 1 for r in (rs, rd)) or isz(od) and rd.arr is None or isz(os_) and rs.arr is None:
                self.enum_values(s, n)
            vals = []
            for i in range(lim):
                v = self.load_at(s, s.regions[rs.id], os_ + i, 1) if rs.arr is None else simp(z3.Select(rs.arr, bv(os_, 64) + i))
                if isinstance(v, Ptr): self.enum_values(s, n)
                vals.append(v)
            for i, v in enumerate(vals):
                if rd.arr is not None:
                    r = s.rw(rd.id)
                    r.arr = z3.Store(r.arr, bv(od, 64) + i, z3.If(z3.UGT(n64, i), bv(v, 8), z3.Select(r.arr, bv(od, 64) + i)))
                else:
                    old = self.load_at(s, s.regions[rd.id], od + i, 1)
                    if isinstance(old, Ptr): self.enum_values(s, n)
                    self.put(s.rw(rd.id), od + i, 1, simp(z3.If(z3.UGT(n64, i), bv(v, 8), bv(old, 8))))
            return
        i = z3.BitVec('mc!i', 64)
        D = bv(od, 64); S_ = bv(os_, 64)
        rd = s.rw(rd.id)
        rd.arr = z3.Lambda([i], z3.If(z3.ULT(i - D, n64), z3.Select(rs.arr, i - D + S_), z3.Select(rd.arr, i)))

    def b_memcpy(self, s, a, rt):
        self.memcpy(s, a[0], a[1], a[2]); return a[0]

    b_memmove = b_memcpy

    def b_memset(self, s, a, rt):
        n = a[2]
        if isz(n):
            e = s.conc.get(n.get_id())
            if e is None: self.enum_values(s, n)
            n = e[1]
        b = a[1]
        if isz(b) and b.size() > 8: b = simp(z3.Extract(7, 0, b))
        elif not isz(b): b &= 255
        if n:
            r, o = self.access(s, a[0], n, 'write (memset)')
            if isz(o) or r.arr is not None:
                for i in range(n): self.store_raw(s, Ptr(a[0].r, add64(a[0].o, i)), 1, b)
            else:
                if r.init is not None: self.materialise(s, r)
                r = s.rw(r.id)
                if n == r.size and b == 0:
                    r.cells.clear(); r.fill = 'zero'
                else:
                    i = 0
                    while i < n:
                        if not isz(b) and i + 8 <= n and (o + i) % 8 == 0:
                            self.put(r, o + i, 8, b * 0x0101010101010101); i += 8
                        else:
                            self.put(r, o + i, 1, b); i += 1
        return a[0]

    def concrete(self, s, v, what, limit=64):
        if isinstance(v, Ptr):
            if v.r == 0: v = v.o
            else: raise EngineError(what)
        if not isz(v): return v
        e = s.conc.get(v.get_id())
        if e is not None and e[0].eq(v): return e[1]
        self.enum_values(s, v, limit)

    def b_memcmp(self, s, a, rt):
        n = self.concrete(s, a[2], 'memcmp length')
        for i in range(n):
            x = self.load_raw(s, Ptr(a[0].r, add64(a[0].o, i)), 1); y = self.load_raw(s, Ptr(a[1].r, add64(a[1].o, i)), 1)
            eq = self.icmp(s, 'eq', I(8), x, y)
            if isz(eq):
                e = s.conc.get(eq.get_id())
                if e is None: raise Fork([(eq, eq, 1), (z3.Not(eq), eq, 0)])
                eq = e[1]
            if not eq:
                lt = self.icmp(s, 'ult', I(8), x, y)
                return norm(z3.If(boolz(lt), z3.BitVecVal(0xffffffff, 32), z3.BitVecVal(1, 32))) if isz(lt) else (0xffffffff if lt else 1)
        return 0

    def b_strlen(self, s, a, rt):
        i = 0
        while True:
            x = self.load_raw(s, Ptr(a[0].r, add64(a[0].o, i)), 1)
            z = self.icmp(s, 'eq', I(8), x, 0)
            if isz(z):
                e = s.conc.get(z.get_id())
                if e is None: raise Fork([(z, z, 1), (z3.Not(z), z, 0)])
                z = e[1]
            if z: return i
            i += 1
            if i > 4096: raise EngineError('strlen')

    def _case(self, s, v, lo, hi, d):
        self.assumes.add('toupper/tolower/isdigit... follow the C locale')
        if not isz(v): return (v + d) & 0xffffffff if lo <= v <= hi else v
        return simp(z3.If(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)), v + d, v))

    def b_toupper(self, s, a, rt): return self._case(s, a[0], 97, 122, -32)
    def b_tolower(self, s, a, rt): return self._case(s, a[0], 65, 90, 32)

    def b_malloc(self, s, a, rt):
        n = a[0]
        if isz(n):
            e = s.conc.get(n.get_id())
            if e is not None and e[0].eq(n): n = e[1]
        self.assumes.add('memory allocation succeeds (operator new/malloc never fails)')
        return self.new_region(s, n, 'heap', 'heap block')

    b__Znwm = b__Znam = b_malloc

    def b_calloc(self, s, a, rt):
        n = self.concrete(s, a[0], 'calloc') * self.concrete(s, a[1], 'calloc')
        return self.new_region(s, n, 'heap', 'heap block', 'zero')

    def b_free(self, s, a, rt):
        p = a[0]
        if isinstance(p, Ptr) and p.r == 0 and not isz(p.o) and p.o == 0: return None
        if not isinstance(p, Ptr) or p.r == 0:
            self.oblige(s, 0, 'free of an invalid pointer', 'memory'); return None
        r = s.regions[p.r]
        if r.kind != 'heap' or isz(p.o) or p.o != 0:
            self.oblige(s, 0, 'free of a non-heap pointer', 'memory')
        if not r.alive:
            self.oblige(s, 0, 'double free', 'memory')
        s.rw(p.r).alive = False
        return None

    def b__ZdlPv(self, s, a, rt): return self.b_free(s, a[:1], rt)
    b__ZdaPv = b__ZdlPvm = b__ZdaPvm = b__ZdlPv

    # ---------------- runtime -----------------------------------------------
    def b___cxa_allocate_exception(self, s, a, rt):
        n = self.concrete(s, a[0], 'exc size')
        return self.new_region(s, max(n, 64), 'exc', 'exception object')

    def b___cxa_free_exception(self, s, a, rt): return None

    def b___cxa_throw(self, s, a, rt):
        ti = self.fnregions.get(a[1].r, '?')
        self.throw(s, a[0], ti)

    def b___cxa_rethrow(self, s, a, rt):
        s.exc = s.caught[-1]
        raise Thrown()

    def b___cxa_begin_catch(self, s, a, rt):
        s.caught.append(s.exc)
        return a[0]

    def b___cxa_end_catch(self, s, a, rt):
        if s.caught: s.caught.pop()
        return None

    def b___clang_call_terminate(self, s, a, rt):
        self.oblige(s, 0, 'std::terminate: exception thrown during unwinding or from noexcept', 'exception')
        raise PathEnd('terminate')

    def b__ZSt9terminatev(self, s, a, rt):
        self.oblige(s, 0, 'std::terminate called', 'exception')
        raise PathEnd('terminate')

    def b_abort(self, s, a, rt):
        self.oblige(s, 0, 'abort() called', 'exception')
        raise PathEnd('abort')

    def b___cxa_pure_virtual(self, s, a, rt):
        self.oblige(s, 0, 'pure virtual call', 'memory')
        raise PathEnd('pure')

    def b_llvm_eh_typeid_for(self, s, a, rt):
        return self.typeid(self.fnregions[a[0].r])

    def b___cxa_atexit(self, s, a, rt): return 0

    def b___cxa_guard_acquire(self, s, a, rt):
        v = self.load(s, I(8), a[0])
        if isz(v): raise EngineError('guard')
        return 0 if v else 1

    def b___cxa_guard_release(self, s, a, rt):
        self.store(s, I(8), 1, a[0]); return None

    def b___cxa_guard_abort(self, s, a, rt): return None

    def b__ZSt18uncaught_exceptionv(self, s, a, rt): return 0

    def b_llvm_trap(self, s, a, rt):
        self.oblige(s, 0, 'undefined-behaviour trap', 'ub')
        raise PathEnd('trap')

    def b_llvm_ubsantrap(self, s, a, rt):
        names = {0: 'signed add overflow', 1: 'builtin unreachable', 3: 'divrem overflow', 12: 'signed mul overflow', 13: 'negate overflow',
                 20: 'shift out of bounds', 21: 'signed sub overflow', 24: 'vla bound', 18: 'out of bounds index'}
        k = a[0]
        self.oblige(s, 0, 'undefined behaviour: ' + names.get(k, 'ubsan trap %s' % k), 'ub')
        raise PathEnd('trap')

    def i_umul_with_overflow(self, s, rt, a):
        n = rt.el[0].n
        if not isz(a[0]) and not isz(a[1]):
            r = a[0] * a[1]
            return [r & ((1 << n) - 1), int(r >> n != 0)]
        A, B = bv(a[0], n), bv(a[1], n)
        if not isz(a[1]) and a[1]:
            ov = z3.UGT(A, z3.BitVecVal(((1 << n) - 1) // a[1], n))
        elif not isz(a[0]) and a[0]:
            ov = z3.UGT(B, z3.BitVecVal(((1 << n) - 1) // a[0], n))
        else:
            ov = z3.Extract(2 * n - 1, n, z3.ZeroExt(n, A) * z3.ZeroExt(n, B)) != 0
        return [simp(A * B), norm(z3.simplify(ov))]

    def i_uadd_with_overflow(self, s, rt, a):
        n = rt.el[0].n
        if not isz(a[0]) and not isz(a[1]):
            r = a[0] + a[1]
            return [r & ((1 << n) - 1), int(r >> n != 0)]
        A, B = bv(a[0], n), bv(a[1], n)
        return [simp(A + B), norm(z3.simplify(z3.ULT(A + B, A)))]

    def _sov(self, s, rt, a, op):
        n = rt.el[0].n
        if not isz(a[0]) and not isz(a[1]):
            x, y = sgn(a[0], n), sgn(a[1], n)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            return [r & ((1 << n) - 1), int(not (-(1 << (n - 1)) <= r < (1 << (n - 1))))]
        A, B = bv(a[0], n), bv(a[1], n)
        if op == 'mul':
            w = z3.SignExt(n, A) * z3.SignExt(n, B)
            return [simp(A * B), norm(z3.simplify(w != z3.SignExt(n, z3.Extract(n - 1, 0, w))))]
        w = z3.SignExt(1, A) + z3.SignExt(1, B) if op == 'add' else z3.SignExt(1, A) - z3.SignExt(1, B)
        r = A + B if op == 'add' else A - B
        return [simp(r), norm(z3.simplify(z3.Extract(n, n, w) != z3.Extract(n - 1, n - 1, w)))]

    def i_sadd_with_overflow(self, s, rt, a): return self._sov(s, rt, a, 'add')
    def i_ssub_with_overflow(self, s, rt, a): return self._sov(s, rt, a, 'sub')
    def i_smul_with_overflow(self, s, rt, a): return self._sov(s, rt, a, 'mul')

    def i_usub_with_overflow(self, s, rt, a):
        n = rt.el[0].n
        if not isz(a[0]) and not isz(a[1]):
            return [(a[0] - a[1]) & ((1 << n) - 1), int(a[0] < a[1])]
        A, B = bv(a[0], n), bv(a[1], n)
        return [simp(A - B), norm(z3.simplify(z3.ULT(A, B)))]

    def i_expect(self, s, rt, a): return a[0]
    def i_fabs(self, s, rt, a): return abs(a[0]) if not isz(a[0]) else z3.fpAbs(a[0])

    def _mm(self, s, rt, a, pr):
        c = self.icmp(s, pr, rt, a[0], a[1])
        return self.select(s, rt, c, a[0], a[1])
    def i_umin(self, s, rt, a): return self._mm(s, rt, a, 'ult')
    def i_umax(self, s, rt, a): return self._mm(s, rt, a, 'ugt')
    def i_smin(self, s, rt, a): return self._mm(s, rt, a, 'slt')
    def i_smax(self, s, rt, a): return self._mm(s, rt, a, 'sgt')

    def i_bswap(self, s, rt, a):
        n = rt.n
        bs = self.cell_bytes(a[0], n // 8)
        return self.join_bytes(list(reversed(bs)))

    def i_fshl(self, s, rt, a):
        n = rt.n
        if isz(a[2]): raise EngineError('fshl by symbolic amount')
        k = a[2] % n
        if k == 0: return a[0]
        return simp((bv(a[0], n) << k) | z3.LShR(bv(a[1], n), n - k))

    # ---------------- vp intrinsics -----------------------------------------
    def cstr(self, s, p):
        out = []
        r = s.regions.get(p.r)
        i = p.o
        while True:
            b = self.load_at(s, s.regions[p.r], i, 1)
            if isz(b): raise EngineError('symbolic string constant')
            if b == 0: break
            out.append(chr(b)); i += 1
        return ''.join(out)

    def vp_input(self, s, n, kind):
        v = self.fresh(n, kind)
        s.inputs.append((kind, v))
        return v

    def b_vp_u8(self, s, a, rt): return self.vp_input(s, 8, 'u8')
    def b_vp_u16(self, s, a, rt): return self.vp_input(s, 16, 'u16')
    def b_vp_u32(self, s, a, rt): return self.vp_input(s, 32, 'u32')
    def b_vp_u64(self, s, a, rt): return self.vp_input(s, 64, 'u64')

    def b_vp_bool(self, s, a, rt):
        return self.vp_input(s, 1, 'bool')

    def b_vp_range(self, s, a, rt):
        v = self.vp_input(s, 64, 'range')
        self.assume(s, z3.And(z3.UGE(v, bv(a[0], 64)), z3.ULE(v, bv(a[1], 64))))
        return v

    def b_vp_choice(self, s, a, rt):
        n = a[0]
        if isz(n): raise EngineError('vp_choice of symbolic count')
        k = s.flags.get('choice')
        key = ('ch', len(s.inputs))
        if key in s.flags:
            v = s.flags.pop(key)
            s.inputs.append(('choice', v))
            return v
        if n == 0: raise PathEnd('vp_choice(0)')
        if n == 1:
            s.inputs.append(('choice', 0)); return 0
        # fork: queue others
        raise ChoiceFork(n, key)

    def assume(self, s, c):
        c = norm(c)
        if not isz(c):
            if not c: raise PathEnd('assume false')
            return
        s.pc.append(c)
        if self.check(s.pc) == 'unsat': raise PathEnd('assume unsat')

    def b_vp_assume(self, s, a, rt):
        self.assume(s, a[0]); return None

    def b_vp_assert(self, s, a, rt):
        self.oblige(s, a[0], self.cstr(s, a[1]), 'assert'); return None

    def b_vp_cover(self, s, a, rt):
        n = self.cstr(s, a[0])
        if not self.covers.get(n):
            self.covers[n] = self.check(s.pc) == 'sat'
        return None

    def b_vp_end(self, s, a, rt):
        raise PathEnd('vp_end')

    def b_vp_fun(self, s, a, rt):
        B = z3.BitVecSort(64)
        f = z3.Function('spec%d' % a[0], B, B, B)
        return f(bv(a[1], 64), bv(a[2], 64))

    def b_vp_symbolic(self, s, a, rt): return 1

    def b_vp_alloc(self, s, a, rt):
        n = a[0]
        return self.new_region(s, n, 'heap', 'harness block')

    def b_vp_array(self, s, a, rt):
        """vp_array(elem_size, count): array of arbitrary contents, count may be symbolic"""
        es, n = a
        if isz(es): raise EngineError('vp_array element size')
        if isz(n): size = simp(bv(n, 64) * es)
        else: size = n * es
        p = self.new_region(s, size, 'heap', 'array')
        r = s.regions[p.r]
        r.es = es
        self.freshn += 1
        r.arr = z3.Array('arr!%d' % self.freshn, z3.BitVecSort(64), z3.BitVecSort(8 * es))
        return p

    def b_vp_havoc_array(self, s, a, rt):
        p = a[0]
        r = s.rw(p.r)
        if r.arr is None: raise EngineError('vp_havoc_array of something else')
        self.freshn += 1
        r.arr = z3.Array('arr!%d' % self.freshn, z3.BitVecSort(64), r.arr.sort().range())
        return None

    def b_vp_havoc(self, s, a, rt):
        n = self.concrete(s, a[1], 'vp_havoc size')
        r, o = self.access(s, a[0], n, 'havoc')
        if r.init is not None: self.materialise(s, r)
        r = s.rw(r.id)
        if isz(o): raise EngineError('vp_havoc symbolic')
        for b in list(r.cells):
            k, v = r.cells[b]
            if o <= b and b + k <= o + n: del r.cells[b]
            elif b < o + n and b + k > o: raise EngineError('vp_havoc splits a cell')
        if o == 0 and n == r.size: r.fill = 'undef'
        else:
            for i in range(n): r.cells[o + i] = (1, self.fresh(8, 'hav'))
        return None

    def b_vp_and(self, s, a, rt): return self.binop(s, 'and', I(1), a[0], a[1], [])
    def b_vp_or(self, s, a, rt): return self.binop(s, 'or', I(1), a[0], a[1], [])
    def b_vp_implies(self, s, a, rt):
        if not isz(a[0]): return a[1] if a[0] else 1
        return norm(z3.simplify(z3.Implies(a[0], boolz(a[1]))))
    def b_vp_ite(self, s, a, rt): return self.select(s, rt, a[0], a[1], a[2])
    def b_vp_ite64(self, s, a, rt):
        if isz(a[0]) and (isinstance(a[1], Ptr) or isinstance(a[2], Ptr)) and not (isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and a[1].r == a[2].r):
            for x in a[1:3]:
                if isinstance(x, Ptr): self.addressed(s, x.r)
            return simp(z3.If(a[0], bv(self.ptr_int(a[1]), 64), bv(self.ptr_int(a[2]), 64)))
        return self.select(s, rt, a[0], a[1], a[2])

    def b_vp_concrete(self, s, a, rt):
        """case split: returns the value as a constant on each path"""
        return self.concrete(s, a[0], 'vp_concrete', 4096)

    def b_vp_no_exception(self, s, a, rt): return 0

    # representation-independent induction: cells that return to their value at
    # the start of every cycle stay fixed, every other byte is arbitrary
    def b_vp_cycle_begin(self, s, a, rt):
        key = self.cstr(s, a[2])
        n = self.concrete(s, a[1], 'cycle size')
        r, o = self.access(s, a[0], n, 'cycle')
        if r.init is not None: self.materialise(s, r)
        st = self.houdini.get(key)
        r = s.rw(r.id)
        if r.fill == 'zero':
            if isz(r.size): raise EngineError('cycle on zero-filled region of symbolic size')
            cov = set()
            for b, (k, v) in r.cells.items(): cov.update(range(b, b + k))
            for b in range(r.size):
                if b not in cov: r.cells[b] = (1, 0)
            r.fill = 'undef'
        here = {}
        for b, (k, v) in r.cells.items():
            if o <= b < o + n:
                if not isz(v) or (isinstance(v, Ptr)): here[b - o] = (k, v)
        if st is None:
            # initial candidate: every concrete cell after construction
            self.houdini[key] = st = {b: (k, ser(self, v)) for b, (k, v) in here.items()}
            self.hou_changed = True
        for b in list(st):
            k, v = st[b]
            if b not in here or here[b][0] != k or ser(self, here[b][1]) != v:
                del st[b]; self.hou_changed = True
        for b in list(r.cells):
            if o <= b < o + n and (b - o) not in st: del r.cells[b]
        return None

    def b_vp_cycle_end(self, s, a, rt):
        key = self.cstr(s, a[2])
        n = self.concrete(s, a[1], 'cycle size')
        r, o = self.access(s, a[0], n, 'cycle')
        st = self.houdini[key]
        for b in sorted(st):
            k, v = st[b]
            c = self.load_at(s, s.regions[r.id], o + b, k)
            if isz(c):
                if isinstance(v, tuple) or self.check(s.pc, c != bv(v, 8 * k)) != 'unsat':
                    del st[b]; self.hou_changed = True
            elif ser(self, c) != v:
                if self.check(s.pc) != 'unsat':
                    del st[b]; self.hou_changed = True
        return None

    def run_fix(self, fname, init_state=None):
        """run with Houdini refinement until the stable cells are inductive"""
        rid0 = self.regionid
        while True:
            self.hou_changed = False
            self.nfailed = 0
            self.regionid = rid0
            mark = len(self.obls)
            try:
                n = self.run(fname, init_state=init_state)
            except TooMany:
                if not self.hou_changed: return self.done_paths
            if not self.hou_changed: return n
            del self.obls[mark:]
            self.covers = {}


class ChoiceFork(Exception):
    def __init__(self, n, key):
        self.n = n; self.key = key


def ser(e, v):
    if isinstance(v, Ptr):
        if v.r == 0 and not isz(v.o): return v.o
        if v.r in e.fnregions: return ('g', e.fnregions[v.r], v.o if not isz(v.o) else str(v.o))
        return ('p', v.r, v.o if not isz(v.o) else str(v.o))
    if isinstance(v, float): return ('f', v)
    return v
