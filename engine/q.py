"""Query vocabulary shared by the rules: canonical comparisons, branch facts,
polynomial normal forms, must-pass queries."""
from ir import show

CASTS = ('zext', 'sext', 'trunc')


def strip(e):
    """drop integer casts at the top"""
    while isinstance(e, tuple) and e and e[0] in CASTS:
        e = e[2]
    return e


def deep(e):
    """drop integer casts everywhere"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] in CASTS:
        return deep(e[2])
    r = tuple(deep(x) if isinstance(x, tuple) else x for x in e)
    if r[0] in ('add', 'mul', 'and', 'or', 'xor') and len(r) == 3:
        x, y = r[1], r[2]
        if x[0] == 'c' or (y[0] != 'c' and repr(y) < repr(x)):
            r = (r[0], y, x)
    return r


def subexprs(e):
    yield e
    if isinstance(e, tuple):
        for x in e[1:]:
            if isinstance(x, tuple):
                yield from subexprs(x)


def mentions(e, pred):
    return any(pred(x) for x in subexprs(e) if isinstance(x, tuple) and x)


def is_call(e, *names):
    return isinstance(e, tuple) and len(e) > 1 and e[0] == 'call' and any(
        e[1] == n or e[1].endswith('::' + n) for n in names)


# ------------------------------------------------------------- polynomials
def poly(e, leaf=None):
    """polynomial {monomial(tuple of leaves sorted): coeff} over opaque leaves;
    casts are transparent, shl by a constant is a multiplication"""
    e = strip(e)
    k = e[0] if isinstance(e, tuple) and e else None
    if k == 'c':
        return {(): e[1]} if e[1] else {}
    if k == 'add':
        return padd(poly(e[1], leaf), poly(e[2], leaf))
    if k == 'sub':
        return padd(poly(e[1], leaf), pscale(poly(e[2], leaf), -1))
    if k == 'mul':
        return pmul(poly(e[1], leaf), poly(e[2], leaf))
    if k == 'shl' and strip(e[2])[0] == 'c':
        return pscale(poly(e[1], leaf), 1 << strip(e[2])[1])
    l = leaf(e) if leaf else e
    if isinstance(l, dict):
        return l
    return {(l,): 1}


def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
        if not r[m]:
            del r[m]
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def pshow(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=repr):
        s = '*'.join(x if isinstance(x, str) else show(x) for x in m)
        out.append((('%d*' % c if c != 1 else '') + s) if s else str(c))
    return ' + '.join(out)


def psum(*terms):
    """psum(('x',), ('y','nx'), 3) -> polynomial"""
    r = {}
    for t in terms:
        if isinstance(t, int):
            r = padd(r, {(): t})
        else:
            r = padd(r, {tuple(sorted(t, key=repr)): 1})
    return r


# ------------------------------------------------------------ comparisons
NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
        'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


def literal(e, pol=True):
    """canonical (atom, polarity).  Integer comparisons become
    ('eq', x, y) | ('lt', x, y) (unsigned) | ('slt', x, y); x != 0 tests on i1
    values and xor with true are looked through."""
    e = strip(e)
    if e[0] == 'xor' and e[2] in (('c', -1), ('c', 1)):
        return literal(e[1], not pol)
    if e[0] == 'icmp':
        p, x, y = e[1], deep(e[2]), deep(e[3])
        if x[0] == 'c' and y[0] != 'c':
            p, x, y = SWAP[p], y, x
        if y == ('c', 0) and p in ('eq', 'ne') and _boolish(x):
            return literal(x, pol if p == 'ne' else not pol)
        if p == 'ugt' and y == ('c', 0):
            p = 'ne'
        if p == 'ult' and y == ('c', 1):
            p, y = 'eq', ('c', 0)
        if p == 'eq' or p == 'ne':
            if y[0] != 'c' and repr(y) < repr(x):
                x, y = y, x
            return ('eq', x, y), pol if p == 'eq' else not pol
        sg = p[0] == 's'
        k = 'slt' if sg else 'lt'
        q = p[1:]
        if q == 'lt':
            return (k, x, y), pol
        if q == 'ge':
            return (k, x, y), not pol
        if q == 'gt':
            return (k, y, x), pol
        return (k, y, x), not pol
    return ('true', deep(e)), pol


def _boolish(x):
    return x[0] in ('icmp', 'fcmp') or (x[0] in ('and', 'or', 'xor') and _boolish(x[1]) and (
        x[2][0] == 'c' or _boolish(x[2])))


def literals(e, pol):
    """conjunction of literals implied by condition e having truth value pol"""
    e = strip(e)
    if e[0] == 'xor' and e[2] in (('c', -1), ('c', 1)):
        return literals(e[1], not pol)
    if e[0] == 'and' and pol or e[0] == 'or' and not pol:
        if e[2][0] != 'c' or _boolish(e[1]):
            return literals(e[1], pol) + literals(e[2], pol)
    if e[0] == 'select':
        c, a, b = e[1], e[2], e[3]
        if b == ('c', 0) and pol:                       # c && a
            return literals(c, True) + literals(a, True)
        if a in (('c', 1), ('c', -1)) and not pol:      # c || b
            return literals(c, False) + literals(b, False)
        if b in (('c', 1), ('c', -1)) and not pol:      # !c || a
            return literals(c, True) + literals(a, False)
        if a == ('c', 0) and pol:                       # !c && b
            return literals(c, False) + literals(b, True)
    if e[0] == 'icmp' and e[1] in ('eq', 'ne') and e[3] == ('c', 0) and _boolish(strip(e[2])):
        return literals(e[2], pol if e[1] == 'ne' else not pol)
    if e[0] == 'icmp' and e[1] in ('eq', 'ne') and e[3][0] == 'c':
        x = strip(e[2])
        if x[0] == 'select' and x[2][0] == 'c' and x[3][0] == 'c' and x[2] != x[3] and e[3] in (x[2], x[3]):
            same = pol == (e[1] == 'eq')                # (c ? K1 : K2) == K
            return literals(x[1], same == (e[3] == x[2]))
    return [literal(e, pol)]


def atoms_of(e):
    """all atoms a condition expression is built from"""
    e = strip(e)
    if e[0] in ('and', 'or', 'xor') and (_boolish(e)):
        r = []
        for x in e[1:]:
            if x[0] != 'c':
                r += atoms_of(x)
        return r
    if e[0] == 'select':
        r = []
        for x in e[1:]:
            if x[0] != 'c':
                r += atoms_of(x)
        return r
    return [literal(e)[0]]


def edge_literals(fn, b, s):
    c = fn.edge_cond(b, s)
    if not c:
        return []
    if c[0] == 'br':
        return literals(fn.expr(c[1]), c[2])
    x = deep(fn.expr(c[1]))
    if c[0] == 'sw':
        if len(c[2]) == 1:
            return [(('eq', x, ('c', c[2][0])), True)]
        return [(('in', x, tuple(sorted(c[2]))), True)]
    return [(('eq', x, ('c', v)), False) for v in c[2]]


TOP = None


def facts(fn, bid=None):
    """forward must-dataflow: literals holding on entry of each block"""
    if not hasattr(fn, '_facts'):
        n = len(fn.blocks)
        IN = [TOP] * n
        IN[0] = frozenset()
        killphi = []
        for b in fn.blocks:
            killphi.append({i.id for i in b.insts if i.op == 'phi'})
        killmem = []
        for b in fn.blocks:
            ks, ps = set(), set()
            for i in b.insts:
                if i.op == 'store':
                    a = fn.expr(i.args[1])
                    r = a
                    while r[0] in ('fld', 'idx', 'ptr'):
                        r = r[1]
                    if r[0] == 'alloca':
                        ks.add(r[1])
                    else:
                        ps.add(('load', deep(a)))
            killmem.append((ks, ps))
        el = {}
        work = [0]
        while work:
            b = work.pop(0)
            for s in dict.fromkeys(fn.blocks[b].succs):
                if (b, s) not in el:
                    el[(b, s)] = frozenset(edge_literals(fn, b, s))
                out = IN[b]
                ks, ps = killmem[b]
                if ks or ps:
                    out = frozenset(f for f in out if not mentions(
                        f[0], lambda x: x[0] == 'alloca' and x[1] in ks or x in ps))
                out = out | el[(b, s)]
                if killphi[s]:
                    out = frozenset(f for f in out if not mentions(
                        f[0], lambda x: x[0] == 'phi' and x[1] in killphi[s]))
                new = out if IN[s] is TOP else IN[s] & out
                if new != IN[s]:
                    IN[s] = new
                    if s not in work:
                        work.append(s)
        fn._facts = IN
    if bid is None:
        return fn._facts
    r = fn._facts[bid]
    return frozenset() if r is TOP else r


def facts_edge(fn, b, s):
    return facts(fn, b) | frozenset(edge_literals(fn, b, s))


def ret_values(fn):
    """[(value expr, facts, origin block)] for every way a value is returned"""
    r = []
    for t in fn.ret_insts():
        if t.args:
            r += value_origins(fn, t.args[0], t.blk.id)
        else:
            r.append((None, facts(fn, t.blk.id), t.blk.id))
    return r


def value_origins(fn, o, bid, extra=frozenset(), seen=()):
    """unfold phis/selects of operand o used in block bid"""
    if o[0] == 'v':
        i = fn.insts[o[1]]
        if i.op == 'phi' and i.id not in seen:
            r = []
            for v, p in i.args:
                f = facts_edge(fn, p, i.blk.id)
                if i.blk.id != bid:
                    f = f | frozenset()
                r += value_origins(fn, v, p, f | extra, seen + (i.id,))
            return r
        if i.op == 'select':
            c = fn.expr(i.args[0])
            return (value_origins(fn, i.args[1], bid, extra | frozenset(literals(c, True)), seen) +
                    value_origins(fn, i.args[2], bid, extra | frozenset(literals(c, False)), seen))
        if i.op in CASTS and fn.insts.get(i.args[0][1] if i.args[0][0] == 'v' else -1) is not None and \
                fn.insts[i.args[0][1]].op in ('phi', 'select'):
            return value_origins(fn, i.args[0], bid, extra, seen)
    f = facts(fn, bid) | extra
    return [(fn.expr(o), f, bid)]


def reach_without(fn, start, targets, stops):
    """a block path from (block start, beginning) to a target instruction that
    meets no stop instruction; None when every path is stopped.
    start: block id or instruction (search begins right after it)."""
    stops = {i.id for i in stops}
    tids = {i.id for i in targets}

    def scan(b, pos):
        for i in fn.blocks[b].insts[pos:]:
            if i.id in tids:
                return 'hit'
            if i.id in stops:
                return 'stop'
        return None
    if isinstance(start, int):
        b0, p0 = start, 0
    else:
        b0, p0 = start.blk.id, start.pos + 1
    r = scan(b0, p0)
    if r == 'hit':
        return [b0]
    if r == 'stop':
        return None
    seen, st = set(), [(s, [b0, s]) for s in fn.blocks[b0].succs]
    while st:
        b, path = st.pop()
        if b in seen:
            continue
        seen.add(b)
        r = scan(b, 0)
        if r == 'hit':
            return path
        if r == 'stop':
            continue
        for s in fn.blocks[b].succs:
            st.append((s, path + [s]))
    return None


def path_lines(fn, path):
    return '->'.join(str(fn.blocks[b].insts[0].line) for b in path)
