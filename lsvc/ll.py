"""Parser for textual LLVM 18 IR (opaque pointers), as printed by `opt -S`.

It covers the subset clang -O0 + sroa/simplifycfg emits for the contract units.
Anything it does not know raises ParseError: the check then ends with an error
exit, it never silently drops code.
"""
import re

class ParseError(Exception):
    pass

TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<cmt>;[^\n]*)
  | (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)?)
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KHLMR]?[0-9A-Fa-f]+|-?\d+)
  | (?P<id>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[()\[\]{}<>,=*:|^])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise ParseError("cannot tokenize: " + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k in ('ws', 'cmt'):
            continue
        out.append((k, m.group(0)))
    return out


# ---- types -----------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'n', 'el', 'name', '_size', '_align', '_offs', 'packed')

    def __init__(self, k, n=0, el=None, name=None, packed=False):
        self.k = k; self.n = n; self.el = el; self.name = name
        self._size = None; self._align = None; self._offs = None; self.packed = packed

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'array': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return self.name or '{%s}' % ','.join(map(repr, self.el))
        return self.k

    def layout(self):
        if self._size is not None:
            return
        k = self.k
        if k == 'int':
            b = (self.n + 7) // 8
            s = 1
            while s < b: s *= 2
            if self.n > 64: s = (b + 15) // 16 * 16
            self._size = s; self._align = min(s, 16)
        elif k == 'ptr':
            self._size = 8; self._align = 8
        elif k == 'float':
            self._size = 4; self._align = 4
        elif k == 'double':
            self._size = 8; self._align = 8
        elif k == 'x86_fp80':
            self._size = 16; self._align = 16
        elif k in ('array', 'vec'):
            self._size = self.n * self.el.size; self._align = self.el.align
        elif k == 'struct':
            if self.el is None:
                raise ParseError('opaque struct ' + str(self.name))
            off = 0; al = 1; offs = []
            for e in self.el:
                a = 1 if self.packed else e.align
                off = (off + a - 1) // a * a
                offs.append(off)
                off += e.size
                al = max(al, a)
            off = (off + al - 1) // al * al
            self._size = off; self._align = al; self._offs = offs
        elif k == 'void':
            self._size = 0; self._align = 1
        else:
            raise ParseError('no layout for ' + k)

    @property
    def size(self):
        self.layout(); return self._size

    @property
    def align(self):
        self.layout(); return self._align

    @property
    def offs(self):
        self.layout(); return self._offs


INTS = {}
def I(n):
    t = INTS.get(n)
    if t is None:
        t = INTS[n] = Ty('int', n)
    return t
PTR = Ty('ptr'); VOID = Ty('void'); FLOAT = Ty('float'); DOUBLE = Ty('double'); FP80 = Ty('x86_fp80')
LABEL = Ty('label'); META = Ty('metadata')

# ---- operands: ('c',ty,value) ('r',name) ('g',name) ('undef',ty) ('zero',ty)
#      ('agg',ty,[ops]) ('gep',srcty,base,[idx]) ('cast',op,operand,ty) ('bin',op,a,b)

CCS = {'fastcc', 'coldcc', 'ccc', 'tail', 'musttail', 'notail'}
PATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
          'returned', 'immarg', 'nofree', 'inreg', 'swiftself', 'nest', 'noreturn', 'allocalign', 'allocptr', 'writable',
          'dead_on_unwind', 'noext'}
PATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'range', 'captures', 'elementtype',
            'byref', 'preallocated', 'inalloca', 'nofpclass', 'memory', 'initializes'}
FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc',
         'fpext', 'addrspacecast'}
LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
        'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'unnamed_addr', 'local_unnamed_addr',
        'hidden', 'protected', 'default', 'externally_initialized', 'thread_local', 'dllimport', 'dllexport'}


class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod

    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        t = self.peek(); self.i += 1; return t

    def at(self, s):
        return self.peek()[1] == s

    def acc(self, s):
        if self.peek()[1] == s:
            self.i += 1; return True
        return False

    def exp(self, s):
        if not self.acc(s):
            raise ParseError('expected %s near %s' % (s, ' '.join(x[1] for x in self.t[max(0, self.i - 8):self.i + 8])))

    def skip_parens(self):
        self.exp('(')
        d = 1
        while d:
            t = self.next()
            if t[1] == '(': d += 1
            elif t[1] == ')': d -= 1
            elif t[0] == 'eof': raise ParseError('eof')

    def skip_attrs(self):
        res = {}
        while True:
            k, v = self.peek()
            if v in PATTRS: self.next()
            elif v in PATTRS_P:
                self.next()
                if self.at('('):
                    if v in ('byval', 'sret'):
                        self.exp('('); res[v] = self.type(); self.exp(')')
                    else:
                        self.skip_parens()
                elif v == 'align': self.next()
            elif k == 'str' and not v.startswith('c'):   # string attribute
                self.next()
                if self.acc('='): self.next()
            else:
                return res

    def type(self):
        k, v = self.next()
        t = None
        if k == 'id':
            if v == 'ptr':
                t = PTR
                if self.at('addrspace'): self.next(); self.skip_parens()
            elif v == 'void': t = VOID
            elif v == 'float': t = FLOAT
            elif v == 'double': t = DOUBLE
            elif v == 'x86_fp80': t = FP80
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'opaque': t = Ty('struct', el=None)
            elif re.match(r'i\d+$', v): t = I(int(v[1:]))
            else: raise ParseError('type? ' + v + ' near ' + ' '.join(x[1] for x in self.t[max(0, self.i - 8):self.i + 8]))
        elif k == 'loc':
            t = self.m.named(v)
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']')
            t = Ty('array', n, e)
        elif v == '{':
            els = []
            if not self.acc('}'):
                while True:
                    els.append(self.type())
                    if self.acc('}'): break
                    self.exp(',')
            t = Ty('struct', el=els)
        elif v == '<':
            if self.at('{'):
                t = self.type(); self.exp('>')
                t = Ty('struct', el=t.el, packed=True)
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp('>')
                t = Ty('vec', n, e)
        else:
            raise ParseError('type? ' + v)
        # function type suffix
        while self.at('(') :
            # function type: ret (args)
            self.skip_parens()
            t = Ty('fn', el=t)
        return t

    def value(self, ty):
        k, v = self.next()
        if k == 'loc': return ('r', v)
        if k == 'glob': return ('g', unq(v))
        if k == 'num':
            if ty.k == 'int': return ('c', ty, int(v) & ((1 << ty.n) - 1)) if not v.startswith('0x') else ('c', ty, int(v, 16))
            if ty.k in ('double', 'float', 'x86_fp80'): return ('fp', ty, v)
            raise ParseError('num for ' + repr(ty))
        if k == 'str' and v.startswith('c"'):
            return ('bytes', ty, unesc(v[2:-1]))
        if v == 'true': return ('c', ty, 1)
        if v == 'false': return ('c', ty, 0)
        if v == 'null': return ('null',)
        if v == 'none': return ('undef', ty)
        if v in ('undef', 'poison'): return ('undef', ty)
        if v == 'zeroinitializer': return ('zero', ty)
        if v in ('{', '[') or v == '<':
            close = {'{': '}', '[': ']', '<': '>'}[v]
            els = []
            if v == '<' and self.at('{'):
                self.next(); close = '}'
            if not self.acc(close):
                while True:
                    t = self.type(); els.append(self.value(t))
                    if self.acc(close): break
                    self.exp(',')
            if v == '<' and close == '}': self.exp('>')
            return ('agg', ty, els)
        if v == 'getelementptr':
            while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                if self.next()[1] == 'inrange' and self.at('('): self.skip_parens()
            self.exp('(')
            st = self.type(); self.exp(',')
            base = None; idx = []
            bt = self.type(); base = self.value(bt)
            while self.acc(','):
                self.acc('inrange')
                t = self.type(); idx.append((t, self.value(t)))
            self.exp(')')
            return ('gep', st, base, idx)
        if v in CASTS:
            self.exp('('); t = self.type(); x = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
            return ('cast', v, t, x, t2)
        if v in BIN:
            while self.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'): self.next()
            self.exp('('); t = self.type(); a = self.value(t); self.exp(','); t2 = self.type(); b = self.value(t2); self.exp(')')
            return ('bin', v, t, a, b)
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return self.value(ty)
        raise ParseError('value? %s near %s' % (v, ' '.join(x[1] for x in self.t[max(0, self.i - 10):self.i + 8])))

    def tv(self):
        t = self.type()
        a = self.skip_attrs()
        if t.k == 'metadata':
            # skip metadata operand
            k, v = self.next()
            if v == '!DIExpression' or self.at('('): self.skip_parens()
            return (t, None, a)
        return (t, self.value(t), a)


def unq(v):
    s = v[1:]
    if s.startswith('"'): s = s[1:-1]
    return s


def unesc(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Fn:
    def __init__(self, name, ret, params, vararg):
        self.name = name; self.ret = ret; self.params = params; self.vararg = vararg
        self.lines = None      # raw body
        self._blocks = None
        self.order = None


class Glob:
    def __init__(self, name, ty, init, const, ext):
        self.name = name; self.ty = ty; self.init = init; self.const = const; self.ext = ext


class Module:
    def __init__(self, text):
        self.types = {}
        self.typedefs = {}
        self.globs = {}
        self.fns = {}
        self.aliases = {}
        self._parse(text)

    def named(self, v):
        t = self.types.get(v)
        if t is None:
            t = Ty('struct', el=None, name=v)
            self.types[v] = t
            d = self.typedefs.get(v)
            if d is not None:
                p = P(tokenize(d), self)
                r = p.type()
                t.el = r.el; t.packed = r.packed
        return t

    def _parse(self, text):
        lines = text.split('\n')
        # pass 1: type definitions
        for l in lines:
            if l.startswith('%') and ' = type ' in l:
                n, d = l.split(' = type ', 1)
                self.typedefs[n.strip()] = d
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                hdr = l
                f = self._fnhdr(hdr)
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                f.lines = body
                self.fns[f.name] = f
            elif l.startswith('declare '):
                f = self._fnhdr(l)
                self.fns.setdefault(f.name, f)
            elif l.startswith('@'):
                self._glob(l)
            i += 1

    def _fnhdr(self, l):
        p = P(tokenize(l), self)
        p.next()
        while True:
            k, v = p.peek()
            if v in LINK or v in CCS: p.next()
            else: break
            if p.at('('): p.skip_parens()
        p.skip_attrs()
        ret = p.type()
        p.skip_attrs()
        # p.type may have swallowed nothing as the name comes first
        k, v = p.next()
        if k != 'glob': raise ParseError('fn header ' + l[:100])
        name = unq(v)
        p.exp('(')
        params = []
        vararg = False
        if not p.acc(')'):
            cnt = 0
            while True:
                if p.peek()[1] == '...':
                    p.next(); vararg = True
                else:
                    t = p.type()
                    a = p.skip_attrs()
                    nm = None
                    if p.peek()[0] == 'loc': nm = p.next()[1]
                    elif t.k == 'metadata': pass
                    else: nm = '%%%d' % cnt
                    cnt += 1
                    params.append((t, nm, a))
                if p.acc(')'): break
                p.exp(',')
        f = Fn(name, ret, params, vararg)
        return f

    def _glob(self, l):
        p = P(tokenize(l), self)
        name = unq(p.next()[1])
        p.exp('=')
        ext = False
        while True:
            k, v = p.peek()
            if v in LINK:
                if v in ('external', 'extern_weak'): ext = True
                p.next()
                if p.at('('): p.skip_parens()
            else:
                break
        k, v = p.next()
        if v == 'alias':
            t = p.type(); p.exp(','); p.type()
            self.aliases[name] = p.value(PTR)
            return
        if v not in ('global', 'constant'):
            raise ParseError('global? ' + l[:120])
        ty = p.type()
        init = None
        if not ext:
            init = p.value(ty)
        self.globs[name] = Glob(name, ty, init, v == 'constant', ext)

    # ---- function bodies, parsed lazily ------------------------------------
    def blocks(self, f):
        if f._blocks is None:
            f._blocks = self._body(f)
        return f._blocks

    def _body(self, f):
        # merge continuation lines
        merged = []
        acc = None
        for l in f.lines:
            if not l.strip() or l.lstrip().startswith(';'): continue
            s = l.rstrip()
            if acc is not None:
                acc += ' ' + s.strip()
                if s.strip() == ']' or s.strip().startswith(']'):
                    merged.append(acc); acc = None
                continue
            st = s.strip()
            if st.startswith('switch ') and not re.search(r'\]\s*(,\s*!.*)?$', st):
                acc = s; continue
            if merged and (re.match(r'to label ', st) or
                           re.match(r'(cleanup|catch |filter )', st)):
                merged[-1] += ' ' + st
                continue
            merged.append(s)
        nparams = sum(1 for p in f.params)
        blocks = {}
        order = []
        cur = None
        curname = None
        for s in merged:
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                curname = '%' + m.group(1)
                cur = []
                blocks[curname] = cur; order.append(curname)
                continue
            if cur is None:
                curname = '%' + str(nparams)
                cur = []
                blocks[curname] = cur; order.append(curname)
            cur.append(self._inst(s))
        f.order = order
        return blocks

    def _inst(self, s):
        p = P(tokenize(s), self)
        dst = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            dst = p.next()[1]; p.next()
        k, op = p.next()
        while op in CCS:
            k, op = p.next()
        if op in BIN:
            flags = []
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek()[1] in FMF: flags.append(p.next()[1])
            t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            return ('bin', dst, op, t, a, b, flags)
        if op == 'fneg':
            while p.peek()[1] in FMF: p.next()
            t = p.type(); a = p.value(t)
            return ('fneg', dst, t, a)
        if op in CASTS:
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'): p.next()
            t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type()
            return ('cast', dst, op, t, a, t2)
        if op == 'alloca':
            p.acc('inalloca')
            t = p.type(); cnt = None
            while p.acc(','):
                if p.at('align'): p.next(); p.next()
                elif p.at('addrspace'): p.next(); p.skip_parens()
                elif p.peek()[0] == 'meta': break
                else:
                    ct = p.type(); cnt = (ct, p.value(ct))
            return ('alloca', dst, t, cnt)
        if op == 'load':
            at = p.acc('atomic'); vol = p.acc('volatile')
            t = p.type(); p.exp(','); p.type(); a = p.value(PTR)
            return ('load', dst, t, a, at, vol)
        if op == 'store':
            at = p.acc('atomic'); vol = p.acc('volatile')
            t = p.type(); v = p.value(t); p.exp(','); p.type(); a = p.value(PTR)
            return ('store', t, v, a, at, vol)
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'): p.next()
            st = p.type(); p.exp(','); p.type(); base = p.value(PTR); idx = []
            while p.acc(','):
                if p.peek()[0] == 'meta': break
                t = p.type(); idx.append((t, p.value(t)))
            return ('gep', dst, st, base, idx)
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in FMF: p.next()
            pr = p.next()[1]; t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            return (op, dst, pr, t, a, b)
        if op == 'br':
            if p.at('label'):
                p.next(); return ('br', p.next()[1])
            p.type(); c = p.value(I(1)); p.exp(','); p.exp('label'); a = p.next()[1]; p.exp(','); p.exp('label'); b = p.next()[1]
            return ('cbr', c, a, b)
        if op == 'switch':
            t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = p.next()[1]; p.exp('[')
            cs = []
            while not p.acc(']'):
                p.type(); c = p.value(t); p.exp(','); p.exp('label'); cs.append((c[2], p.next()[1]))
            return ('switch', t, v, d, cs)
        if op == 'ret':
            t = p.type()
            if t.k == 'void': return ('ret', None, None)
            return ('ret', t, p.value(t))
        if op == 'unreachable': return ('unreachable',)
        if op == 'phi':
            while p.peek()[1] in FMF: p.next()
            t = p.type(); inc = {}
            while True:
                p.exp('['); v = p.value(t); p.exp(','); l = p.next()[1]; p.exp(']')
                inc[l] = v
                if not p.acc(','): break
                if p.peek()[0] == 'meta': break
            return ('phi', dst, t, inc)
        if op == 'select':
            while p.peek()[1] in FMF: p.next()
            ct = p.type(); c = p.value(ct); p.exp(','); t = p.type(); a = p.value(t); p.exp(','); p.type(); b = p.value(t)
            return ('select', dst, t, c, a, b)
        if op in ('call', 'invoke'):
            while p.peek()[1] in FMF or p.peek()[1] in CCS: p.next()
            p.skip_attrs()
            rt = p.type()
            p.skip_attrs()
            if rt.k == 'fn': rt = rt.el
            if p.at('asm'):
                p.next()
                while p.peek()[1] in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'): p.next()
                a = p.next()[1]; p.exp(','); b = p.next()[1]
                callee = ('asm', a, b)
            else:
                callee = p.value(PTR)
            p.exp('(')
            args = []
            if not p.acc(')'):
                while True:
                    args.append(p.tv())
                    if p.acc(')'): break
                    p.exp(',')
            if op == 'call': return ('call', dst, rt, callee, args, None, None)
            while not p.at('to'): p.next()
            p.exp('to'); p.exp('label'); n = p.next()[1]; p.exp('unwind'); p.exp('label'); u = p.next()[1]
            return ('call', dst, rt, callee, args, n, u)
        if op == 'landingpad':
            t = p.type(); cl = []; cleanup = False
            while True:
                if p.acc('cleanup'): cleanup = True
                elif p.acc('catch'):
                    tt = p.type(); cl.append(('catch', p.value(tt)))
                elif p.acc('filter'):
                    tt = p.type(); cl.append(('filter', p.value(tt)))
                else: break
            return ('lpad', dst, t, cleanup, cl)
        if op == 'resume':
            t = p.type(); return ('resume', t, p.value(t))
        if op == 'extractvalue':
            t = p.type(); v = p.value(t); ix = []
            while p.acc(','):
                if p.peek()[0] == 'meta': break
                ix.append(int(p.next()[1]))
            return ('exv', dst, t, v, ix)
        if op == 'insertvalue':
            t = p.type(); v = p.value(t); p.exp(','); t2 = p.type(); e = p.value(t2); ix = []
            while p.acc(','):
                if p.peek()[0] == 'meta': break
                ix.append(int(p.next()[1]))
            return ('insv', dst, t, v, t2, e, ix)
        if op == 'cmpxchg':
            p.acc('weak'); p.acc('volatile'); p.type(); a = p.value(PTR); p.exp(','); t = p.type(); c = p.value(t); p.exp(',')
            p.type(); n = p.value(t)
            return ('cmpxchg', dst, t, a, c, n)
        if op == 'atomicrmw':
            p.acc('volatile'); o = p.next()[1]; p.type(); a = p.value(PTR); p.exp(','); t = p.type(); v = p.value(t)
            return ('rmw', dst, o, t, a, v)
        if op == 'fence': return ('nop',)
        if op == 'freeze':
            t = p.type(); return ('freeze', dst, t, p.value(t))
        raise ParseError('inst? ' + s.strip()[:120])
