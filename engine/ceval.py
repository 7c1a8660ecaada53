"""Path-wise constant propagation over an acyclic region.

explore() walks the control-flow graph from a block, resolving phis by the edge taken and folding constants; the leaves
the caller pins down (`leaf`) and comparisons the caller decides (`cmp`) make branches concrete, every other branch is
followed both ways with its outcome remembered for the path.  No solver, no execution: an abstract interpretation whose
domain is 'constant or opaque expression'."""
import re

from q import strip
from ir import Broken

W = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}


def sub(f, e, came, depth=0, keep=()):
    """replace phis of the region by the value of the edge taken"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == 'phi' and e[1] in f.insts and e[1] not in keep:
        i = f.insts[e[1]]
        p = came.get(i.blk.id)
        if p is not None:
            for v, b in i.args:
                if b == p:
                    return sub(f, f.expr(v), came, depth + 1, keep)
        return e
    return tuple(sub(f, x, came, depth, keep) if isinstance(x, tuple) else x for x in e)


def isc(v):
    return isinstance(v, int)


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b,
       'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}


class Ev:
    def __init__(self, f, leaf=None, cmp=None, keep=()):
        self.keep = set(keep)
        self.f, self.leaf, self.cmp = f, leaf or (lambda e: None), cmp or (lambda p, a, b: None)

    def val(self, e, came, known=None):
        return self.fold(sub(self.f, e, came, 0, self.keep), known or {})

    def fold(self, e, known):
        """int when constant, else an expression with folded parts"""
        if not isinstance(e, tuple) or not e:
            return e
        r = self.leaf(e)
        if r is not None:
            return r
        k = e[0]
        if k == 'c':
            return e[1]
        if k in ('zext', 'sext', 'trunc'):
            v = self.fold(e[2], known)
            if isc(v):
                w = W.get(e[1], 64)
                if k == 'trunc':
                    return sgn(v, w) if w > 1 else v & 1
                if k == 'sext' and v == 1 and _bool(e[2]):
                    return -1
                return v
            return (k, e[1], v)
        if k in ('icmp', 'fcmp'):
            a, b = self.fold(e[2], known), self.fold(e[3], known)
            r = self.cmp(e[1], a, b)
            if r is not None:
                return int(r)
            if isc(a) and isc(b):
                p = e[1]
                if p in CMP:
                    return int(CMP[p](a, b))
                return int(CMP['s' + p[1:]](a & (1 << 64) - 1, b & (1 << 64) - 1))
            if k == 'icmp' and e[1] == 'ne' and b == 0 and _bool(a):
                return a
            r = (k, e[1], lift(a), lift(b))
            if repr(r) in known:
                return known[repr(r)]
            return r
        if k == 'select':
            c = self.fold(e[1], known)
            if isc(c):
                return self.fold(e[2] if c else e[3], known)
            return (k, lift(c), lift(self.fold(e[2], known)), lift(self.fold(e[3], known)))
        if k in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = self.fold(e[1], known), self.fold(e[2], known)
            if isc(a) and isc(b):
                if k == 'add':
                    return a + b
                if k == 'sub':
                    return a - b
                if k == 'mul':
                    return a * b
                if k == 'and':
                    return a & b
                if k == 'or':
                    return a | b
                if k == 'xor':
                    return (a ^ b) & 1 if _bool(e[1]) else a ^ b
                if k == 'shl':
                    return a << b
                if k in ('lshr', 'ashr'):
                    return a >> b
                if b == 0:
                    raise Broken('division by zero while folding')
                return {'udiv': a // b, 'urem': a % b, 'sdiv': int(a / b), 'srem': a - b * int(a / b)}[k]
            if k == 'and' and (a == 0 or b == 0):
                return 0
            if k == 'or' and a == 0 and _bool(e[2]):
                return b
            r = (k, lift(a), lift(b))
            if repr(r) in known:
                return known[repr(r)]
            return r
        r = tuple(lift(self.fold(x, known)) if isinstance(x, tuple) else x for x in e)
        q = self.leaf(r)
        if q is not None:
            return q
        if repr(r) in known:
            return known[repr(r)]
        return r

    def explore(self, start=0, stop=(), limit=4000, known=None):
        """yields (known, path, came, end)"""
        f = self.f
        stop = set(stop)
        work = [(start, None, (), {}, dict(known or {}))]
        n = 0
        while work:
            b, prev, path, came, kn = work.pop()
            while True:
                if b in stop and path or b in path:
                    if prev is not None:
                        came = dict(came)
                    yield kn, list(path), came, ('stop', b, prev)
                    break
                path = path + (b,)
                if prev is not None:
                    came = dict(came)
                    came[b] = prev
                blk = f.blocks[b]
                ss = list(dict.fromkeys(blk.succs))
                if not ss:
                    yield kn, list(path), came, (blk.term.op, b, prev)
                    break
                if len(ss) == 1:
                    prev, b = b, ss[0]
                    continue
                opts = self.choose(b, ss, came, kn)
                n += len(opts)
                if n > limit:
                    raise Broken('%s: too many paths' % f.short)
                for s, k2 in opts[1:]:
                    work.append((s, b, path, came, k2))
                prev, (b, kn) = b, opts[0]

    def choose(self, b, ss, came, kn):
        f = self.f
        out = []
        for s in ss:
            c = f.edge_cond(b, s)
            if c[0] == 'br':
                v = self.val(f.expr(c[1]), came, kn)
                if isc(v):
                    if bool(v) == c[2]:
                        return [(s, kn)]
                    continue
                k2 = dict(kn)
                remember(k2, v, c[2])
                out.append((s, k2))
            else:
                v = self.val(f.expr(c[1]), came, kn)
                if isc(v):
                    hit = v in c[2] or any(x & 0xffffffff == v & 0xffffffff for x in c[2])
                    if hit == (c[0] == 'sw'):
                        return [(s, kn)]
                    continue
                out.append((s, dict(kn)))
        if not out:
            raise Broken('%s: no successor chosen' % f.short)
        return out


INV = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}


def remember(k, v, pol):
    k[repr(v)] = int(pol)
    if isinstance(v, tuple) and v[0] == 'icmp' and v[1] in INV:
        k[repr((v[0], INV[v[1]]) + v[2:])] = int(not pol)
    if isinstance(v, tuple) and v[0] == 'xor' and v[2] in (('c', -1), ('c', 1)):
        remember(k, v[1], not pol)
    if isinstance(v, tuple) and v[0] == 'icmp' and v[1] in ('ne', 'eq') and v[3] == ('c', 0):
        if (v[1] == 'ne') != pol:
            k[repr(v[2])] = 0


def lift(v):
    return ('c', v) if isc(v) else v


BOOLCALL = re.compile(r'(^|::)(is[A-Z]\w*|isnan|isinf|isfinite|has[A-Z]\w*|empty|all[A-Z]\w*|contains|operator(==|!=|<|>|<=|>=))$')


def _bool(e):
    if isinstance(e, tuple) and e and e[0] == 'call' and BOOLCALL.search(e[1].split('<')[0] if not e[1].endswith(('<', '<=', '>', '>=')) else e[1]):
        return True
    return isinstance(e, tuple) and e and (e[0] in ('icmp', 'fcmp') or e[0] in ('and', 'or', 'xor') and _bool(e[1])
                                           or e[0] in ('zext',) and _bool(e[2]))
