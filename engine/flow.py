"""Path-wise forward constant and copy propagation with a model of memory.

Every path of a function (or of a region) is followed once; each instruction's value is an expression over the function's
inputs with constants folded; stores, block copies and object-returning calls are remembered per path, so values that
travel through locals, member fields or small aggregates are recognised however the code spells it.  Loops whose exit
conditions fold to constants are followed iteration by iteration; any other loop is entered once in an arbitrary
iteration (its header phis opaque, memory written in it forgotten): 'iter' paths describe what one iteration does, the
remaining paths continue after it.  Undecided branches are taken both ways and remembered for the path.  The domain is
'constant or opaque expression' - no values are chosen, nothing is executed, nothing is handed to a solver."""
from ir import Broken, distance
from ceval import CMP, INV, W, sgn, _bool
import q

SCALARS = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 4, 'long': 8,
           'unsigned long': 8, 'double': 8}


def swapped(fl, st, c, raw):
    """std::swap of two scalars"""
    t = c[len('std::swap<'):].split('>')[0]
    n = 8 if t.endswith('*') else SCALARS.get(t)
    if n is None:
        return None
    a, b = fl.load(st, raw[0], n), fl.load(st, raw[1], n)
    st.mem.append(('st', fl.key(raw[0]), n, b))
    st.mem.append(('st', fl.key(raw[1]), n, a))
    return True


SIZE = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'float': 4, 'double': 8, 'half': 2}
BIN = ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem')
PURE_LLVM = ('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental', 'llvm.stack', 'llvm.expect', 'llvm.type.', 'llvm.public.type')


def isk(e):
    return e[0] == 'c'


def width(t):
    return W.get(t, 64)


def fold(op, a, b, t=None):
    if isk(a) and isk(b):
        x, y = a[1], b[1]
        if op in ('udiv', 'urem', 'sdiv', 'srem') and y == 0:
            return (op, a, b)
        if op in ('udiv', 'urem', 'lshr'):
            m = (1 << width(t)) - 1
            x &= m
            y &= m
        if op in ('shl', 'lshr', 'ashr') and not 0 <= y < width(t):
            return (op, a, b)
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: x >> y, 'ashr': lambda: x >> y,
             'udiv': lambda: x // y, 'urem': lambda: x % y, 'sdiv': lambda: int(x / y),
             'srem': lambda: x - y * int(x / y)}[op]()
        if t in W:
            r = sgn(r, W[t]) if t != 'i1' else r & 1
        return ('c', r)
    if op in ('add', 'or', 'xor') and isk(a) and a[1] == 0:
        return b
    if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and isk(b) and b[1] == 0:
        return a
    if op == 'mul' and isk(b) and b[1] == 1:
        return a
    if op == 'mul' and isk(a) and a[1] == 1:
        return b
    if op == 'and' and (isk(a) and a[1] == 0 or isk(b) and b[1] == 0):
        return ('c', 0)
    if op == 'and' and t == 'i1':
        if isk(a):
            return b
        if isk(b):
            return a
    if op == 'or' and t == 'i1' and (isk(a) and a[1] or isk(b) and b[1]):
        return ('c', 1)
    if op in ('add', 'mul', 'and', 'or', 'xor'):
        if isk(a) or (not isk(b) and repr(b) < repr(a)):
            a, b = b, a
        if op == 'add' and isk(b) and a[0] == 'add' and isk(a[2]):
            return fold('add', a[1], ('c', a[2][1] + b[1]), t)
    return (op, a, b)


class Path:
    __slots__ = ('blocks', 'known', 'lits', 'events', 'end', 'st', 'ret', 'flow')

    def load(self, addr, size=8):
        return self.flow.load(self.st, addr, size)

    def at(self, event, addr, size=8):
        """value of memory just before a call event"""
        return self.flow.load(self.st, addr, size, event[4])

    def calls(self, *names):
        r = []
        for e in self.events:
            if e[0] == 'call' and any(e[2] == n or (e[2] or '').endswith('::' + n) for n in names):
                r.append(e)
        return r

    def stores(self):
        return [e for e in self.events if e[0] == 'store']

    def facts(self):
        return frozenset(self.lits)


class St:
    """state along a path"""
    __slots__ = ('env', 'mem', 'known', 'lits', 'events', 'blocks', 'gen', 'snap', 'count', 'dec')

    def copy(self):
        s = St()
        s.env, s.mem, s.known = dict(self.env), list(self.mem), dict(self.known)
        s.lits, s.events, s.blocks = list(self.lits), list(self.events), list(self.blocks)
        s.gen, s.snap, s.count, s.dec = set(self.gen), dict(self.snap), dict(self.count), set(self.dec)
        return s


class Flow:
    def __init__(self, f, leaf=None, cmp=None, effects=None, limit=3000, maxiter=70, decide=None, inputs=None, throws=False, fresh=None, loads=False):
        """leaf(expr) -> int|expr|None replaces a computed value; cmp(pred,a,b) -> bool|None decides a comparison;
        effects(flow, st, inst, callee, args) -> True when it modelled the call; decide(cond) -> bool|None"""
        self.f, self.leaf, self.cmp, self.effects, self.decide = f, leaf, cmp, effects, decide
        self.limit, self.maxiter = limit, maxiter
        self.keys = {}
        self.header = {h: body for h, body in f.loops}
        self.inputs = inputs or {}
        self.throws = throws
        self.fresh = fresh
        self.loads = loads          # record ('load', inst, address, value) events
        self._lw = {}

    # ---------------------------------------------------------- addresses
    def key(self, e):
        """(root expression, {variable: scale}, constant byte offset)"""
        k = self.keys.get(e)
        if k is not None:
            return k
        if e[0] == 'cgep':
            r, v, c = self.key(e[1])
            return r, v, c + (e[2] if isinstance(e[2], int) else 0)
        if e[0] == 'add' and self.keys.get(e[1]):
            pass
        return e, (), 0

    def gep(self, st, i):
        base = self.val(st, i.args[0])
        e = base
        for p in i.d['p']:
            if p[0] == 'f':
                e = ('fld', e, p[1])
            elif p[0] == 'i':
                x = self.val(st, p[1])
                e = ('idx', e, x, p[2]) if x != ('c', 0) else e
            elif p[0] == 'p':
                x = self.val(st, p[1])
                e = ('ptr', e, x, p[2]) if x != ('c', 0) else e
            else:
                e = ('?', e)
        r, v, c = self.key(base)
        vs = dict(v)
        if 'ko' not in i.d:
            vs[('?', i.id)] = 1
        else:
            c += i.d['ko']
            for o, s in i.d['vo']:
                x = q.strip(self.val(st, o))
                p = q.poly(x)
                for m, k in p.items():
                    if m == ():
                        c += k * s
                    else:
                        vs[m] = vs.get(m, 0) + k * s
        vs = tuple(sorted(((m, k) for m, k in vs.items() if k), key=repr))
        if e != base or (vs, c) == (v, self.key(base)[2]):
            if e in self.keys and self.keys[e] != (r, vs, c):
                pass
            self.keys[e] = (r, vs, c) if e != base else self.key(base)
        return self.canon(e, (r, vs, c))

    def canon(self, e, k):
        """one spelling per address: prefer the one made of member names"""
        if not hasattr(self, 'names'):
            self.names = {}
        o = self.names.get(k)
        if o is None or e[0] == 'fld' and o[0] != 'fld':
            if k[0] != e:
                self.names[k] = e
        return e

    def name(self, e):
        k = self.keys.get(e)
        return self.names.get(k, e) if k is not None and hasattr(self, 'names') else e

    # ------------------------------------------------------------- memory
    def half(self, st, a, k, off, upto):
        b = ('cgep', a, off)
        self.keys[b] = (k[0], k[1], k[2] + off)
        return self.load(st, b, 4, upto)

    def load(self, st, a, size, upto=None):
        k = self.key(a)
        mem = st.mem
        n = len(mem) if upto is None else upto
        while n > 0:
            n -= 1
            m = mem[n]
            if m[0] == 'st':
                o = self.overlap(k, size, m[1], m[2])
                if o == 'no':
                    continue
                if o == 'eq':
                    return m[3]
                if o == 'in' and size in (1, 2, 4) and m[2] == 8 and (isk(m[3]) or m[3][0] == 'xv'):
                    sh = 8 * (k[2] - m[1][2])       # part of a stored integer
                    if isk(m[3]):
                        return ('c', (m[3][1] >> sh) & ((1 << 8 * size) - 1))
                    return ('trunc', 'i%d' % (8 * size), ('lshr', m[3], ('c', sh)) if sh else m[3])
                if o == 'part' and size == 8 and m[2] == 4 and k[0] == m[1][0] and k[1] == m[1][1] and isk(m[3]):
                    lo, hi = self.half(st, a, k, 0, n + 1), self.half(st, a, k, 4, n + 1)
                    if isk(lo) and isk(hi):         # two stored halves
                        return ('c', (lo[1] & 0xffffffff) | (hi[1] & 0xffffffff) << 32)
                return ('clob', a, n)
            if m[0] in ('cp', 'obj', 'zero', 'kill'):
                o = self.overlap(k, size, m[1], m[2])
                if o == 'no':
                    continue
                if m[0] == 'kill' or o == 'may' or o == 'part':
                    return ('clob', a, n)
                if m[0] == 'zero':
                    return m[3]
                off = k[2] - m[1][2]
                if m[0] == 'obj':
                    return ('load', self.rebase(a, m[4], ('ptrto', m[3]), off))
                src = m[3]
                b = self.rebase(a, m[4], src, off)
                kk = self.key(src)
                self.keys[b] = (kk[0], kk[1], kk[2] + off)
                return self.load(st, b, size, n)
            if m[0] == 'loop':
                if self.written(m[1], k, size):
                    return ('clob', a, n)
        r = self.inputs.get(a)
        if r is not None:
            return r
        if k[0][0] in ('g', 's') and not k[1]:
            r = self.constant(k[0], k[2], size)
            if r is not None:
                return r
        return ('load', self.name(a))

    def constant(self, g, off, size):
        """part of a constant table or string"""
        if g[0] == 's':
            b = (g[1].encode() + b'\0') if isinstance(g[1], str) else b''
            return ('c', int.from_bytes(b[off:off + size], 'little')) if 0 <= off and off + size <= len(b) else None
        d = self.f.prog.globals.get(g[1])
        if not d or not d.get('const') or 'flat' not in d or off < 0 or off + size > d['bytes']:
            return None
        hit = [x for x in d['flat'] if x[0] < off + size and off < x[0] + x[1]]
        if not hit:
            return ('c', 0)
        if len(hit) == 1 and hit[0][:2] == [off, size]:
            return self.f.expr(hit[0][2])
        return None

    def rebase(self, a, dst, src, off):
        """a with the part naming dst replaced by src"""
        if off == 0 and self.key(a) == self.key(dst):
            return src
        e, path = a, []
        while e != dst and e[0] in ('fld', 'idx', 'ptr'):
            path.append(e)
            e = e[1]
        if e == dst:
            for p in reversed(path):
                src = (p[0], src) + p[2:]
            return src
        return ('ptr', src, ('c', off), 1) if off else src

    def content(self, st, a):
        """a local aggregate passed by reference: the object it is a plain copy of, when it is one"""
        k = self.key(a)
        if k[0][0] != 'alloca':
            return a
        whole, parts = None, {}
        for m in st.mem:
            if m[0] == 'loop':
                if self.written(m[1], k):
                    whole, parts = None, {}
                continue
            if m[1][0] != k[0]:
                continue
            if m[0] == 'st':
                v = m[3]
                if v[0] == 'trunc':
                    v = v[2]
                parts[m[1][2]] = (v[2], v[1]) if v[0] == 'xv' else (None, 'c') if isk(v) and self.leaf else None
                whole = None
            elif m[0] == 'cp' and m[1] == k and (self.key(m[3])[0][0] != 'alloca'):
                whole, parts = m[3], {}
            elif m[0] == 'cp' and m[1] == k:
                s2 = st.copy()
                s2.mem = s2.mem[:st.mem.index(m)]
                x = self.content(s2, m[3])
                whole, parts = (x if x[0] == 'ptrto' else None), {}
            elif m[0] == 'obj' and m[1] == k:
                whole, parts = ('ptrto', m[3]), {}
            else:
                whole, parts = None, {}
        if whole is not None and not parts:
            return whole
        if parts and None not in parts.values() and len({x[0] for x in parts.values() if x[0]}) == 1 and len(parts) > 1:
            return ('ptrto', next(x[0] for x in parts.values() if x[0]))
        return a

    def comp(self, base, k):
        """address of component k of the Size3 at base"""
        if k == 0:
            return base
        e = ('fld', base, 'xyz'[k])
        if e not in self.keys:
            r, v, c = self.key(base)
            self.keys[e] = (r, v, c + 8 * k)
        return self.canon(e, self.keys[e])

    def overlap(self, k, size, k2, size2):
        r, v, c = k
        r2, v2, c2 = k2
        if r != r2:
            if r[0] == 'phi' or r2[0] == 'phi' or r[0] == 'select' or r2[0] == 'select':
                def cands(x):
                    return x[0] in ('phi', 'select')
                if 'alloca' in (r[0], r2[0]) and not self.escapes(r if r[0] == 'alloca' else r2):
                    return 'no'
            return 'no'
        if v != v2:
            return 'may'
        if size2 is None or size is None:
            return 'in' if size2 is None and c >= c2 else 'no' if size2 is None and size is not None and c + size <= c2 else 'may'
        if c == c2 and size == size2:
            return 'eq'
        if c + size <= c2 or c2 + size2 <= c:
            return 'no'
        if c >= c2 and c + size <= c2 + size2:
            return 'in'
        return 'part'

    def escapes(self, al):
        return False

    def written(self, h, k, size=None):
        """may the loop write to the object with address key k?"""
        w = self._lw.get(h)
        if w is None:
            w = []
            f = self.f
            for b in self.header[h]:
                for i in f.blocks[b].insts:
                    if i.op == 'store':
                        w.append((self.sroot(f, i.args[1]), self.soff(f, i.args[1]), SIZE.get(i.d.get('vt'))))
                    elif i.op in ('call', 'invoke'):
                        c = i.callee or ''
                        if c.startswith(PURE_LLVM):
                            continue
                        if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                            w.append((self.sroot(f, i.args[0]), self.soff(f, i.args[0]), i.args[2][1] if i.args[2][0] == 'c' else None))
                        elif c.startswith('llvm.'):
                            continue
                        else:
                            for n, o in enumerate(i.args):
                                if o[0] == 'v' and not self.readonly(i, n):
                                    r = self.sroot(f, o)
                                    if r and r[0] == 'alloca':
                                        w.append((r, None, None))
            self._lw[h] = w
        kr = k[0]
        ks = self.static.get(repr(kr)) if hasattr(self, 'static') else None
        for r, o, n in w:
            if o is not None and n is not None and size is not None and not k[1] and r is not None and r == kr and (
                    o + n <= k[2] or k[2] + size <= o):
                continue
            if r is None:
                return True
            if r == kr:
                return True
            if kr[0] == 'alloca' or r[0] == 'alloca':
                continue
            # non-local memory: same last member name, or unknown
            if q.deep(r) == q.deep(kr) or r[0] in ('phi', 'select') and kr[0] in ('phi', 'select'):
                return True
        return False

    def soff(self, f, o):
        """constant byte offset of an address operand from its root, or None"""
        c = 0
        while o[0] == 'v' and f.insts[o[1]].op == 'gep':
            i = f.insts[o[1]]
            if 'ko' not in i.d or i.d['vo']:
                return None
            c += i.d['ko']
            o = i.args[0]
        return c

    def sroot(self, f, o):
        while o[0] == 'v':
            i = f.insts[o[1]]
            if i.op == 'gep':
                o = i.args[0]
                continue
            if i.op == 'alloca':
                return ('alloca', i.id)
            return q.strip(f.expr(o)) if i.op in ('load', 'phi', 'select', 'call') else None
        return f.expr(o)

    def readonly(self, i, n):
        c = i.callee or ''
        f = self.f
        m = i.d.get('c') or ''
        g = f.prog.fns.get(m) or (f.prog.fns.get(m.replace('C1E', 'C2E', 1)) if 'C1E' in m else None)
        if n in i.d.get('bv', ()):
            return True
        if n == 2 and c.startswith(('std::find<', 'std::count<')):
            return True
        if f.READERS.search(c) or '::get' in c or c.split('::')[-1].startswith('~') or c.endswith('::clone'):
            return not c.endswith(('push_back', 'push', 'insert', 'erase')) or n > 0
        if g is not None and n < len(g.params):
            t = g.params[n].get('dt', '')
            if t:
                return '&' not in t and '*' not in t or t.startswith('const ') and not t.endswith('*&')
            if n == 0 and g.qual and i.d.get('cm'):
                return True
        return False

    # ------------------------------------------------------------- values
    def val(self, st, o):
        if o[0] == 'v':
            r = st.env.get(o[1])
            return r if r is not None else self.f.expr(o)
        e = self.f.expr(o)
        return self.post(st, e) if e[0] == 'arg' and self.leaf is not None else e

    def post(self, st, e):
        if self.leaf is not None:
            r = self.leaf(e)
            if r is not None:
                return ('c', r) if isinstance(r, int) else r
        if e[0] not in ('c', 'arg') and st.known:
            v = st.known.get(repr(e))
            if v is not None:
                return ('c', v)
        return e

    def compute(self, st, i):
        op, a = i.op, i.args
        t = i.d.get('t')
        if op == 'gep':
            return self.gep(st, i)
        if op == 'alloca':
            return ('alloca', i.id)
        if op == 'load':
            return self.load(st, self.val(st, a[0]), SIZE.get(t, None))
        if op in ('zext', 'sext', 'trunc'):
            x = self.val(st, a[0])
            if isk(x):
                if op == 'trunc':
                    return ('c', sgn(x[1], width(t)) if t != 'i1' else x[1] & 1)
                if op == 'sext' and x[1] == 1 and self.otype(a[0]) == 'i1':
                    return ('c', -1)
                if op == 'zext':
                    w = self.otype(a[0])
                    return ('c', x[1] & ((1 << W[w]) - 1)) if w in W and x[1] < 0 else x
                return x
            return (op, t, x)
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast'):
            return self.val(st, a[0])
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            return (op, t, self.val(st, a[0]))
        if op in BIN:
            x, y = self.val(st, a[0]), self.val(st, a[1])
            if op == 'sub' and t == 'i64' and ({'cgep', 'g'} & {x[0], y[0]} or x in self.keys or y in self.keys):
                kx, ky = self.key(x), self.key(y)       # distance of two places of one object
                if kx[:2] == ky[:2] and kx[0] != x and kx[0] != y or kx[:2] == ky[:2] and kx[0][0] in ('g', 'alloca'):
                    return ('c', kx[2] - ky[2])
            if op == 'sub' and t == 'i64':
                d = distance(x, y)
                if d is not None:
                    return d
            return fold(op, x, y, t)
        if op in ('fadd', 'fmul'):
            x, y = self.val(st, a[0]), self.val(st, a[1])
            if repr(y) < repr(x):
                x, y = y, x
            return (op, x, y)
        if op in ('icmp', 'fcmp'):
            return self.compare(st, op, i.d['p'], self.val(st, a[0]), self.val(st, a[1]))
        if op == 'select':
            c = self.val(st, a[0])
            if isk(c):
                return self.val(st, a[1] if c[1] else a[2])
            return ('select', c, self.val(st, a[1]), self.val(st, a[2]))
        if op == 'extractvalue':
            return ('xv', tuple(i.d['x']), self.val(st, a[0]))
        if op == 'insertvalue':
            return ('iv', tuple(i.d.get('x', ())), self.val(st, a[0]), self.val(st, a[1]))
        return (op,) + tuple(self.val(st, x) if x and isinstance(x, list) else x for x in a)

    def otype(self, o):
        if o[0] == 'v':
            return self.f.insts[o[1]].d.get('t')
        return None

    def compare(self, st, op, p, a, b):
        if self.cmp:
            r = self.cmp(p, a, b)
            if r is not None:
                return ('c', int(r))
        if isk(a) and isk(b) and op == 'icmp':
            x, y = a[1], b[1]
            if p in CMP:
                return ('c', int(CMP[p](x, y)))
            m = (1 << 64) - 1
            return ('c', int(CMP['s' + p[1:]](x & m, y & m)))
        if a == b and op == 'icmp':
            return ('c', int(p in ('eq', 'ule', 'uge', 'sle', 'sge')))
        if op == 'icmp' and (a in self.keys or b in self.keys or 'cgep' in (a[0], b[0])):
            ka, kb = self.key(a), self.key(b)       # two places of one object
            if ka[:2] == kb[:2]:
                return ('c', int(CMP[p](ka[2], kb[2])))
        if op == 'icmp' and p in ('ne', 'eq') and b == ('c', 0):
            if p == 'ne' and _bool(a):
                return a
            if self.key(a)[0][0] in ('alloca', 'fn', 'g') or a[0] == 'call' and a[1].startswith('operator new'):
                return ('c', int(p == 'ne'))
        r = (op, p, a, b)
        v = st.known.get(repr(r))
        self.recalled = v is not None
        return ('c', v) if v is not None else r

    # -------------------------------------------------------------- calls
    def call(self, st, i):
        c = i.callee
        a = tuple(self.val(st, x) for x in i.args)
        if c is not None and c.startswith(PURE_LLVM):
            return None
        raw = a
        if c is not None and not c.startswith('llvm.'):
            if not c.endswith(('::operator[]', '::at', '::front', '::back', '::begin', '::data')):
                a = tuple(self.content(st, x) if x[0] in ('alloca', 'fld') and n != i.d.get('sret', -1) and self.readonly(i, n) else x
                          for n, x in enumerate(a))
        if c is None:
            e = ('icall', self.val(st, i.d['cv']) if 'cv' in i.d else None) + a
        else:
            e = ('call', c) + a
            if self.fresh is not None and self.fresh.search(c):
                e += (('#', sum(1 for x in st.events if x[0] == 'call' and x[2] == c)),)
        r = self.effects(self, st, i, c, raw) if self.effects else None
        if r is None and c is not None and '::Size3::' in c:
            r = size3(self, st, i, c, raw)
        if r is None and c is not None and c.startswith('std::swap<') and len(raw) == 2:
            r = swapped(self, st, c, raw)
        if r is not None:
            st.events.append(('call', i, c, a, len(st.mem)))
            return self.post(st, e if r is True else r)
        if c is not None and c.startswith(('llvm.memcpy', 'llvm.memmove')):
            st.events.append(('copy', i, c, a, len(st.mem)))
            n = a[2][1] if isk(a[2]) else None
            k = self.key(a[0])
            if n is None:
                st.mem.append(('kill', k, None))
            elif a[0] != a[1]:
                st.mem.append(('cp', k, n, a[1], a[0]))
            return e
        if c is not None and c.startswith('llvm.memset'):
            st.events.append(('set', i, c, a))
            n = a[2][1] if isk(a[2]) else None
            st.mem.append(('zero', self.key(a[0]), n, ('c', 0)) if a[1] == ('c', 0) and n else ('kill', self.key(a[0]), n))
            return e
        if c is not None and c.startswith('llvm.'):
            return self.post(st, e)
        st.events.append(('call', i, c, a, len(st.mem)))
        if 'sret' in i.d:
            k = i.d['sret']
            rest = tuple(x for n, x in enumerate(a) if n != k)
            st.mem.append(('obj', self.key(a[k]), None, ('call', c) + rest, a[k]))
            return e
        for n, x in enumerate(raw):
            if self.key(x)[0][0] == 'alloca' and not self.readonly(i, n):
                r = self.key(x)
                if n == 0 and c and self.f.CTORS.search(c) and i.args[0][0] == 'v':
                    st.mem.append(('obj', r, None, ('new', c) + a[1:], x))
                else:
                    st.mem.append(('kill', r, None))
        return self.post(st, e)

    # -------------------------------------------------------------- paths
    def paths(self, start=0, stop=(), st=None, init=None):
        f = self.f
        stop = set(stop)
        if st is None:
            st = St()
            st.env, st.mem, st.known, st.lits, st.events, st.blocks = {}, [], {}, [], [], []
            st.gen, st.snap, st.count, st.dec = set(), {}, {}, set()
            if init:
                init(self, st)
        work = [(start, None, st)]
        n = 0
        while work:
            b, prev, st = work.pop()
            while True:
                if b in stop and prev is not None:
                    yield self.done(st, ('stop', b, prev))
                    break
                if b in self.header:
                    inside = prev is not None and prev in self.header[b]
                    if b in st.gen:
                        if inside:
                            yield self.done(st, ('iter', b, prev))
                            break
                        st.gen.discard(b)
                        st.count.pop(b, None)
                    if not inside:
                        st.count[b] = 0
                        st.snap[b] = (prev, st.copy())
                    else:
                        st.count[b] = st.count.get(b, 0) + 1
                        if b in st.snap and (b not in st.dec or st.count[b] > self.maxiter):
                            # came round without passing an exit test that folds: follow one arbitrary iteration instead
                            prev, s0 = st.snap[b]
                            st = s0.copy()
                            st.gen.add(b)
                            st.mem.append(('loop', b))
                            if not self.block(st, b, prev, generic=True):
                                break
                            ss = list(dict.fromkeys(f.blocks[b].succs))
                            st2 = self.leave(st, b, ss, work)
                            n += len(ss)
                            prev, b = b, st2
                            continue
                        if st.count[b] > self.maxiter:
                            raise Broken('%s: loop at line %s does not end' % (f.short, f.blocks[b].insts[0].line))
                    st.dec.discard(b)
                if not self.block(st, b, prev):
                    break
                ss = list(dict.fromkeys(f.blocks[b].succs))
                if not ss:
                    yield self.done(st, (f.blocks[b].term.op, b, prev))
                    break
                if len(ss) == 1:
                    prev, b = b, ss[0]
                    continue
                t = f.blocks[b].term
                if t.op == 'invoke' or t.op == 'call':
                    ss2 = [s for s in ss if self.throws or f.blocks[s].insts[0].op not in ('landingpad',)
                           and not any(i.op == 'landingpad' for i in f.blocks[s].insts)]
                    ss = ss2 or ss
                    if len(ss) == 1:
                        prev, b = b, ss[0]
                        continue
                opts = self.choose(st, b, ss)
                if len(opts) == 1 and f.blocks[b].term.op in ('br', 'switch') and isk(self.val(st, f.blocks[b].term.args[0])) and \
                        not st.env.get(('recalled', f.blocks[b].term.args[0][1])):
                    # (an outcome remembered from an earlier choice does not make the loop a counted one)
                    st.dec |= {h for h, body in f.loops if b in body and any(s not in body for s in ss)}
                if len(opts) > 1:
                    # an undecided exit of a loop being followed concretely: restart it as an arbitrary iteration
                    lp = [h for h, body in f.loops if b in body and h not in st.gen and h not in st.dec and any(s not in body for s in ss) and
                          not all(f.error_exit(s) for s in ss if s not in body) and h in st.snap]
                    if lp:
                        h = lp[0]
                        pv, s0 = st.snap[h]
                        st = s0.copy()
                        st.gen.add(h)
                        st.mem.append(('loop', h))
                        if not self.block(st, h, pv, generic=True):
                            break
                        ss = list(dict.fromkeys(f.blocks[h].succs))
                        b = h
                        if len(ss) == 1:
                            prev, b = b, ss[0]
                            continue
                        opts = self.choose(st, b, ss)
                n += len(opts)
                if n > self.limit:
                    raise Broken('%s: too many paths' % f.short)
                for s, lits, kn in opts[1:]:
                    s2 = st.copy()
                    s2.known.update(kn)
                    s2.lits += lits
                    work.append((s, b, s2))
                s, lits, kn = opts[0]
                st.known.update(kn)
                st.lits += lits
                prev, b = b, s

    def leave(self, st, b, ss, work):
        """successor of a restarted loop header; the other ways are queued"""
        opts = self.choose(st, b, ss) if len(ss) > 1 and self.f.blocks[b].term.op in ('br', 'switch') else [(ss[0], [], {})]
        for s, lits, kn in opts[1:]:
            s2 = st.copy()
            s2.known.update(kn)
            s2.lits += lits
            work.append((s, b, s2))
        s, lits, kn = opts[0]
        st.known.update(kn)
        st.lits += lits
        return s

    def done(self, st, end):
        p = Path()
        p.blocks, p.known, p.lits, p.events, p.end, p.st, p.flow = st.blocks, st.known, st.lits, st.events, end, st, self
        p.ret = None
        if end[0] == 'ret':
            t = self.f.blocks[end[1]].term
            if t.args:
                p.ret = self.val(st, t.args[0])
                while p.ret[0] == 'select':
                    c = self.truth(st, p.ret[1])
                    if c is None:
                        break
                    p.ret = p.ret[2 if c else 3]
        return p

    def block(self, st, b, prev, generic=False):
        f = self.f
        st.blocks.append(b)
        phis = {}
        for i in f.blocks[b].insts:
            if i.op == 'phi':
                if generic or prev is None:
                    phis[i.id] = ('phi', i.id)
                else:
                    v = [x for x, p in i.args if p == prev]
                    x = self.val(st, v[0]) if v else ('phi', i.id)
                    phis[i.id] = ('c', x[1] & 1) if isk(x) and i.d.get('t') == 'i1' else x
        st.env.update(phis)
        for i in f.blocks[b].insts:
            op = i.op
            if op == 'phi':
                if generic:
                    st.env[i.id] = self.post(st, st.env[i.id])
                continue
            if op == 'store':
                v, a = self.val(st, i.args[0]), self.val(st, i.args[1])
                st.mem.append(('st', self.key(a), SIZE.get(i.d.get('vt')), v, len(st.events)))
                if self.key(a)[0][0] != 'alloca':
                    st.events.append(('store', i, self.name(a), v))
                continue
            if op in ('call', 'invoke'):
                r = self.call(st, i)
                if r is not None:
                    st.env[i.id] = r
                continue
            if op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'landingpad'):
                continue
            if op == 'load' and self.loads:
                a = self.val(st, i.args[0])
                v = st.env[i.id] = self.post(st, self.compute(st, i))
                st.events.append(('load', i, a, v))
                continue
            self.recalled = False
            st.env[i.id] = self.post(st, self.compute(st, i))
            if op == 'icmp':
                st.env['recalled', i.id] = self.recalled
        return True

    def truth(self, st, c):
        if isk(c):
            return bool(c[1])
        if self.decide:
            r = self.decide(c)
            if r is not None:
                return bool(r)
        if c[0] == 'xor' and c[2] in (('c', 1), ('c', -1)):
            r = self.truth(st, c[1])
            return None if r is None else not r
        if c[0] in ('and', 'or') and len(c) == 3:
            x, y = self.truth(st, c[1]), self.truth(st, c[2])
            if c[0] == 'and':
                return False if x is False or y is False else True if x and y else None
            return True if x or y else False if x is False and y is False else None
        if c[0] == 'select':
            x = self.truth(st, c[1])
            if x is not None:
                return self.truth(st, c[2] if x else c[3])
        v = st.known.get(repr(c))
        if v is not None:
            return bool(v)
        # literals already taken on this path
        for pol in (True, False):
            ls = q.literals(c, pol)
            if ls and all(l in st.lits for l in ls):
                return pol
            if any((a, not p) in st.lits for a, p in ls):
                return not pol
        return None

    def choose(self, st, b, ss):
        f = self.f
        t = f.blocks[b].term
        c = self.val(st, t.args[0])
        if t.op == 'br':
            v = self.truth(st, c)
            tb, fb = t.d['s']
            if v is not None:
                return [(tb if v else fb, [], {})]
            out = []
            for s, pol in ((tb, True), (fb, False)):
                ws = ways(c, pol)
                if len(ws) == 1 or len(ws) > 12:
                    out.append((s, q.literals(c, pol), know(c, pol)))
                    continue
                for w in ws:
                    if any(self.truth(st, x) not in (None, y) for x, y in w):
                        continue
                    ls, kn = [], know(c, pol)
                    for x, y in w:
                        ls += [l for l in q.literals(x, y) if l not in ls]
                        kn.update(know(x, y))
                    if not any((a, not z) in ls for a, z in ls):
                        out.append((s, ls, kn))
            return out or [(tb, q.literals(c, True), know(c, True)), (fb, q.literals(c, False), know(c, False))]
        # switch
        if isk(c):
            for v, s in t.d['cases']:
                if v == c[1] or (v ^ c[1]) & 0xffffffff == 0 and self.otype(t.args[0]) == 'i32':
                    return [(s, [], {})]
            return [(t.d['default'], [], {})]
        x = q.deep(c)
        out = []
        dec = {v: self.cmp('eq', c, ('c', v)) for v, y in t.d['cases']} if self.cmp else {}
        sure = [y for v, y in t.d['cases'] if dec.get(v)]
        if sure:
            return [(sure[0], [], {})]
        for s in ss:
            vals = [v for v, y in t.d['cases'] if y == s and dec.get(v) is None]
            if not vals and s != t.d['default']:
                continue
            if s == t.d['default']:
                ls = [(('eq', x, ('c', v)), False) for v, y in t.d['cases'] if y != s]
            elif len(vals) == 1:
                ls = [(('eq', x, ('c', vals[0])), True)]
            else:
                ls = [(('in', x, tuple(sorted(vals))), True)]
            if any((a, not p) in st.lits for a, p in ls):
                continue
            if any(a[0] == 'eq' and p and any(l[0] == 'eq' and l[1] == a[1] and l[2] != a[2] and l[2][0] == 'c' and lp
                                              for l, lp in st.lits) for a, p in ls):
                continue
            out.append((s, ls, {repr(c): vals[0]} if len(vals) == 1 and s != t.d['default'] else {}))
        return out or [(t.d['default'], [], {})]


def size3(fl, st, i, c, a):
    """oclgrind::Size3 (decided on its own by C09): construction and component access"""
    n = c.split('::')[-1]
    if n == 'operator[]' and isk(a[1]) and 0 <= a[1][1] < 3:
        return fl.comp(a[0], a[1][1])
    if n == 'Size3' and len(a) == 4:
        for k in range(3):
            st.mem.append(('st', fl.key(fl.comp(a[0], k)), 8, a[k + 1]))
        return True
    if n in ('operator==', 'operator!='):
        vs = [[fl.load(st, fl.comp(x, k), 8) for k in range(3)] for x in a[:2]]
        if vs[0] == vs[1]:
            return ('c', int(n == 'operator=='))
        return ('call', c) + tuple(('size3',) + tuple(v) for v in vs)
    return None


def ways(c, pol):
    """the disjoint ways the i1 expression c can have truth value pol, each a conjunction of (expression, value)"""
    if c[0] == 'c':
        return [[]] if bool(c[1]) == pol else []
    if c[0] == 'xor' and c[2] in (('c', 1), ('c', -1)):
        return ways(c[1], not pol)
    if c[0] in ('and', 'or') and len(c) == 3:
        if pol == (c[0] == 'and'):
            return [x + y for x in ways(c[1], pol) for y in ways(c[2], pol)]
        return ways(c[1], pol) + [x + y for x in ways(c[1], not pol) for y in ways(c[2], pol)]
    if c[0] == 'select':
        return [x + y for z, v in ((True, c[2]), (False, c[3])) for x in ways(c[1], z) for y in ways(v, pol)]
    return [[(c, pol)]]


def know(c, pol):
    k = {repr(c): int(pol)}
    if c[0] == 'icmp' and c[1] in INV:
        k[repr((c[0], INV[c[1]]) + c[2:])] = int(not pol)
        if c[1] in ('eq', 'ne') and (c[1] == 'eq') == pol and c[3][0] == 'c':
            k[repr(c[2])] = c[3][1]
    if c[0] == 'xor' and c[2] in (('c', 1), ('c', -1)):
        k.update(know(c[1], not pol))
    if c[0] == 'and' and pol:
        k.update(know(c[1], True))
        k.update(know(c[2], True))
    if c[0] == 'or' and not pol:
        k.update(know(c[1], False))
        k.update(know(c[2], False))
    if c[0] == 'select':
        if c[3] == ('c', 0) and pol:
            k.update(know(c[1], True))
            k.update(know(c[2], True))
        elif c[2] == ('c', 1) and not pol:
            k.update(know(c[1], False))
            k.update(know(c[3], False))
    return k
