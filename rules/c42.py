"""The relational, selecting and permuting built-ins are evaluated over a complete partition of their operands (sign bit and zero of
a condition lane, class of a floating value, residue of a lane number, bits of a mask); on every path consistent with a class the
value stored into the result is compared with the one OpenCL C prescribes for that class."""
from common import *
from flow import Flow

TECHNIQUE = 'case analysis of path conditions and stored values over a complete partition of the operands of each built-in'
TUS = ['WorkItemBuiltins']
OPTS = ('--split-selects',)
NOTE = 'Which name selects which built-in, and the two-operand comparisons, are C12; that lane numbers stay inside the vector is C33.'
ASSUMPTIONS = ['TypedValue::get*/set* read and write one element of the stored size (C08)']
B = 'oclgrind::WorkItemBuiltins::'
FMT = {'f': 'F', 'd': 'F'}
TYPES = 'hcstijlmfd'
HIGH = (1 << 63, -(1 << 63))


def bare(e):
    while isinstance(e, tuple) and e and e[0] in ('zext', 'sext', 'trunc') and len(e) == 3:
        e = e[2]
    return e


def element(e):
    """(operand, view, lane) of an element of a call operand"""
    e = bare(e)
    if e[0] == 'call' and short(e[1]) in ('getSInt', 'getUInt', 'getFloat') and len(e) == 4:
        o = e[2][1] if e[2][0] == 'ptrto' else e[2]
        if is_call(o, 'WorkItem::getOperand') and is_call(o[3], 'getArgOperand') and o[3][3][0] == 'c':
            return o[3][3][1], {'getSInt': 'S', 'getUInt': 'U', 'getFloat': 'F'}[short(e[1])], e[3]
    return None


def vlen(e):
    e = bare(e)
    return e[0] == 'call' and short(e[1]) == 'getNumElements' and any(
        x[0] == 'call' and short(x[1]) == 'getArgOperand' and x[3] == ('c', 0) for x in subs(e))


def subs(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from subs(x)


def number(e):
    return e == ('load', ('fld', ('arg', 'result'), 'num'))


class World:
    """what is known of the operands: leaf(e) gives the abstract value of an expression"""
    def __init__(self, leaf):
        self.leaf = leaf

    def val(self, e):
        """int, or ('raw', …) for a value known only by its class, or None"""
        v = self.leaf(e)
        if v is not None:
            return v
        k = e[0]
        if k == 'c':
            return e[1]
        if k in ('zext', 'sext', 'trunc') and len(e) == 3:
            return self.val(e[2])
        if k in ('icmp', 'fcmp', 'not', 'is'):
            t = self.true(e)
            return None if t is None else int(t)
        if k == 'select':
            t = self.true(e[1])
            return None if t is None else self.val(e[2] if t else e[3])
        if k in ('add', 'sub', 'mul', 'urem', 'udiv', 'and', 'or', 'xor', 'shl', 'lshr') and len(e) == 3:
            a, b = self.val(e[1]), self.val(e[2])
            if k == 'and' and 0 in (a, b):
                return 0
            if isinstance(a, tuple) or isinstance(b, tuple):
                if isinstance(b, tuple) and k == 'and':
                    a, b = b, a
                return self.mixed(k, a, b) if isinstance(a, tuple) and isinstance(b, int) else None
            if a is None or b is None or k in ('urem', 'udiv') and b <= 0 or k in ('shl', 'lshr') and not 0 <= b < 64:
                return None
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'urem': b and a % b, 'udiv': b and a // b, 'and': a & b, 'or': a | b,
                    'xor': a ^ b, 'shl': a << (b if k == 'shl' else 0), 'lshr': a >> (b if k == 'lshr' else 0)}[k]
        return None

    def mixed(self, k, a, b):
        if a[0] == 'res':                       # q * a[1] + a[2]
            if k == 'urem' and b > 0 and a[1] % b == 0:
                return a[2] % b
            if k == 'and' and b >= 0 and (b & (b + 1)) == 0 and a[1] % (b + 1) == 0:
                return a[2] % (b + 1)
        if a[0] == 'sgn' and k == 'and' and b in HIGH:
            return -1 if a[1] < 0 else 0        # a number with only its sign known to be set
        if a[0] == 'sgn' and k == 'lshr' and b == 63:
            return int(a[1] < 0)
        return None

    def compare(self, op, a, b):
        """truth of a == b, a < b signed ('slt') or unsigned ('lt')"""
        x, y = self.val(a), self.val(b)
        if isinstance(x, tuple) and x[0] == 'sgn' and isinstance(y, int):
            s = x[1]
            if op == 'eq':
                return False if (y == 0 and s) or (y > 0 > s) or (y < 0 < s) or (s == 0 and y) else True if s == 0 == y else None
            if op == 'slt':
                return True if s < 0 and y >= 0 or s == 0 and y > 0 else False if s >= 0 and y <= 0 else None
            return {0: False, 1: s == 0, 1 << 63: s >= 0, -(1 << 63): s >= 0}.get(y)
        if isinstance(y, tuple) and y[0] == 'sgn' and isinstance(x, int):
            s = y[1]
            if op == 'eq':
                return self.compare('eq', b, a)
            if op == 'slt':
                return True if s >= 0 and x < 0 or s > 0 and x <= 0 else False if s < 0 and x >= -1 or s == 0 and x >= 0 else None
            return {0: s != 0, (1 << 63) - 1: s < 0}.get(x)
        if not isinstance(x, int) or not isinstance(y, int):
            return None
        return x == y if op == 'eq' else x < y

    def true(self, e):
        k = e[0]
        if k == 'icmp':
            p, a, b = e[1], e[2], e[3]
            if p in ('eq', 'ne'):
                t = self.compare('eq', a, b)
                return None if t is None else t == (p == 'eq')
            t = self.compare('slt' if p[0] == 's' else 'lt', *((a, b) if p[1:] in ('lt', 'ge') else (b, a)))
            return None if t is None else t == (p[1] in 'lg' and p[2] == 't')
        v = self.val(e)
        return None if v is None or isinstance(v, tuple) and v[0] != 'sgn' else (v != 0 if isinstance(v, int) else v[1] != 0)

    def holds(self, a):
        """truth of an atom of a path condition"""
        if a[0] == 'true':
            return self.true(a[1])
        return self.compare(a[0], a[1], a[2])

    def live(self, p):
        return all(self.holds(a) in (pol, None) for a, pol in p.lits)


def sets(p):
    return [e for e in p.calls('setUInt', 'setSInt', 'setFloat') if e[3][0] == ('arg', 'result')]


def typed(f, ch=None):
    def leaf(e):
        if ch and e[0] == 'call' and short(e[1]) == 'getOverloadArgType':
            return ord(ch)
    return [p for p in Flow(f, leaf=leaf).paths() if p.end[0] != 'unreachable']


# ------------------------------------------------------------------ all, any
def quantifier(P, R, name, unit):
    """all (unit 1: conjunction) / any (unit 0) of the sign bits of the lanes"""
    f = P.one(B + name)
    ps = typed(f)
    op = (lambda x, m: x & m) if unit else (lambda x, m: x | m)
    why = None
    n = 0
    for vec in (0, 1):
        for x in (0, 1):
            for s in (-1, 0, 1):
                m = int(s < 0)
                seen = {}

                def leaf(e):
                    if e[0] == 'call' and short(e[1]) == 'isVectorTy':
                        return vec
                    l = element(e)
                    if l and l[0] == 0 and l[1] == 'S':
                        return ('sgn', s)
                    return x if e in seen else None
                for p in ps:
                    acc = accumulators(f, ps, unit)
                    seen.clear()
                    seen.update(acc)
                    if x != unit and (not acc or not vec):
                        continue                # without a running result (or before the only lane) it is the unit so far
                    w = World(leaf)
                    if not w.live(p):
                        continue
                    reads = [l for a, _ in p.lits for e in subs(a) for l in [element(e)] if l] + \
                            [l for q in sets(p) for e in subs(q[3][1]) for l in [element(e)] if l]
                    if p.end[0] == 'iter':
                        n += 1
                        for ph in acc or [None]:
                            v = w.val(step(f, p, ph)) if ph else unit
                            if v != op(x, m):
                                why = why or 'after a lane whose sign bit is %d the running result is %s instead of %d' % (m, v, op(x, m))
                    elif p.end[0] == 'ret':
                        st = sets(p)
                        v = w.val(st[-1][3][1]) if st else None
                        n += 1
                        if v is None:
                            why = why or 'the result of a path is not decided by the sign bits of the lanes'
                        elif not vec and (reads or not done(f, p)):
                            if v != m:
                                why = why or 'the result for a scalar whose sign bit is %d is %d' % (m, v)
                        elif done(f, p):
                            if v != x:
                                why = why or 'the result after the last lane is %d instead of %d' % (v, x)
                        elif reads and (v != op(x, m) or v == unit):
                            why = why or 'the result after a lane whose sign bit is %d is %d before the other lanes are seen' % (m, v)
    need(n >= 4, name)
    R.check(why is None, 'lanes', name, floc(f), '%s: %s' % (name, why), fn=f)


def step(f, p, ph):
    for i in f.all():
        if i.op == 'phi' and i.id == ph[1]:
            up = [v for v, q in i.args if q == p.end[2]]
            return nz(p.flow.val(p.st, up[0])) if up else ('?',)
    return ('?',)


def accumulators(f, ps, unit):
    """loop-carried values that start as the unit and are stored as the result"""
    out = {}
    stored = {e for p in ps for s in sets(p) for e in subs(s[3][1]) if e[0] == 'phi'}
    stored |= {e for p in ps for a, _ in p.lits if a[0] == 'true' for e in subs(a[1]) if e[0] == 'phi'}
    for lp in f.loops:
        for i in f.blocks[lp[0]].insts:
            if i.op == 'phi' and ('phi', i.id) in stored and all(f.expr(v) in (C(unit), C(-unit)) for v, q in i.args if q not in lp[1]):
                out[('phi', i.id)] = True
    return out


def done(f, p):
    """the path left the loop because every lane has been seen"""
    for lp in f.loops:
        for me, st, _ in counted(f, lp):
            if st == C(0) and any(a[0] in ('lt', 'slt') and not pol and bare(a[1]) == me for a, pol in p.lits):
                return True
    return False


# ------------------------------------------------------------------ select
def select(P, R):
    f = P.one(B + 'select_builtin')
    for ch in TYPES:
        ps = typed(f, ch)
        why = None
        for vec in (0, 1):
            for s in (-1, 0, 1):
                def leaf(e):
                    if number(e):
                        return 4 if vec else 1
                    l = element(e)
                    return ('sgn', s) if l and l[0] == 2 and l[1] == 'S' else None
                w = World(leaf)
                want = 1 if (s < 0 if vec else s) else 0
                hit = [(p, q) for p in ps if w.live(p) for q in sets(p)]
                if not hit:
                    why = why or 'nothing is selected'
                for p, q in hit:
                    v = q[3][1]
                    while bare(v)[0] == 'select':
                        t = w.true(bare(v)[1])
                        if t is None:
                            break
                        v = bare(v)[2 if t else 3]
                    l = element(v)
                    kind = {'setUInt': 'U', 'setSInt': 'S', 'setFloat': 'F'}[short(q[2])]
                    if l is None or l[0] not in (0, 1):
                        why = why or 'the value selected is %s' % S(v)
                    elif l[0] != want:
                        why = why or 'operand %d is selected for a %s whose condition is %s' % (
                            l[0], 'vector' if vec else 'scalar', {-1: 'negative', 0: 'zero', 1: 'positive'}[s])
                    elif l[2] != q[3][2]:
                        why = why or 'the value comes from another lane'
                    elif (l[1] == 'F') != (kind == 'F') or (kind == 'F' and ch not in FMT):
                        why = why or 'the value changes its representation'
        R.check(why is None, 'choice', 'select:' + ch, floc(f), 'select (%s): %s' % (ch, why), fn=f)


# ------------------------------------------------------------------ bitselect
def bitselect(P, R):
    f = P.one(B + 'bitselect')
    for ch in TYPES:
        why = None
        n = 0
        for p in typed(f, ch):
            for e in p.events:
                if e[0] != 'call' or not e[2]:
                    continue
                if re.search(r'::[usf]3arg$', e[2]):
                    n += 1
                    if e[2].endswith('f3arg'):
                        why = why or 'the bits of a conversion of the operands are combined, not their own'
                    elif e[3][-1][0] != 'fn':
                        why = why or 'the operation is unknown'
                    else:
                        g = next(iter(P.get(e[3][-1][1])), None)
                        need(g is not None, 'the operation of bitselect')
                        nm = pnames(g)
                        why = why or mask(g, lambda x: nm.index(x[1]) if x[0] == 'arg' and x[1] in nm else None)
                elif short(e[2]) in ('setUInt', 'setSInt', 'setFloat') and e[3][0] == ('arg', 'result'):
                    n += 1
                    lane = e[3][2]

                    def opd(x):
                        l = element(x)
                        return l[0] if l and l[1] != 'F' and l[2] == lane else None
                    if short(e[2]) == 'setFloat':
                        why = why or 'the bits of a conversion of the operands are combined, not their own'
                    else:
                        why = why or table(e[3][1], opd)
        need(n, 'bitselect')
        R.check(why is None, 'choice', 'bitselect:' + ch, floc(f), 'bitselect (%s): %s' % (ch, why), fn=f)


def mask(g, opd):
    for p in typed(g):
        if p.end[0] == 'ret':
            r = table(p.ret, opd)
            if r:
                return r
    return None


def table(e, opd):
    """None when every bit of e is that of operand 0 where operand 2 is clear, of operand 1 where it is set"""
    def bit(x, env):
        x = bare(x)
        o = opd(x)
        if o is not None and o < 3:
            return env[o]
        if x[0] == 'c' and x[1] in (0, -1, (1 << 64) - 1):
            return int(x[1] != 0)
        if x[0] in ('and', 'or', 'xor') and len(x) == 3:
            a, b = bit(x[1], env), bit(x[2], env)
            return None if None in (a, b) else a & b if x[0] == 'and' else a | b if x[0] == 'or' else a ^ b
        return None
    for k in range(8):
        env = (k & 1, k >> 1 & 1, k >> 2)
        if bit(e, env) != (env[1] if env[2] else env[0]):
            return 'a bit of the result is wrong for the bits %d, %d and mask bit %d' % env
    return None


# ------------------------------------------------------------------ shuffle
def shuffles(P, R):
    for name, k in (('shuffle_builtin', 1), ('shuffle2_builtin', 2)):
        f = P.one(B + name)
        ps = typed(f)
        for m in (2, 4, 8, 16):
            why = None
            for r in range(k * m):
                def leaf(e):
                    if vlen(e):
                        return m
                    if e[0] == 'call' and short(e[1]) == 'isVectorTy':
                        return 1
                    l = element(e)
                    return ('res', 64 * m, r) if l and l[0] == k else None
                # the lane number is q * (k * m) + r for any q: only its residue may be used
                w = World(lambda e: (lambda v: ('res', k * m, v[2]) if isinstance(v, tuple) else v)(leaf(e)))
                hit = [q for p in ps if w.live(p) for q in sets(p)]
                if not hit:
                    why = why or 'no element is chosen'
                for q in hit:
                    v = q[3][1]
                    while bare(v)[0] == 'select' and w.true(bare(v)[1]) is not None:
                        v = bare(v)[2 if w.true(bare(v)[1]) else 3]
                    v = bare(v)
                    o = src(v, w)
                    if o is None:
                        why = why or 'the element chosen is not known'
                    elif o != (r // m, r % m):
                        why = why or 'element %d of operand %d is chosen for lane number %d of vectors of %d' % (o[1], o[0], r, m)
                    elif short(q[2]) == 'setFloat':
                        why = why or 'the element changes its representation'
                    if not any(element(e) and element(e)[0] == k and element(e)[2] == q[3][2] for x in [q[3][1]] + [a for p in ps for a, _ in p.lits]
                               for e in subs(x)):
                        why = why or 'the lane number comes from another lane'
            R.check(why is None, 'permute', '%s:%d' % (name, m), floc(f), '%s: %s' % (name[:-8], why), fn=f)


def src(v, w):
    """(operand, lane) an element is taken from"""
    if v[0] == 'call' and short(v[1]) in ('getUInt', 'getSInt') and len(v) == 4:
        o = v[2][1] if v[2][0] == 'ptrto' else v[2]
        if is_call(o, 'WorkItem::getOperand') and is_call(o[3], 'getArgOperand'):
            a, l = w.val(o[3][3]), w.val(v[3])
            return (a, l) if isinstance(a, int) and isinstance(l, int) else None
    return None


# ------------------------------------------------------------------ sign
CLASSES = {'nan': None, 'negative': -1, 'negative zero': -0.0, 'positive zero': 0.0, 'positive': 1}


def sign(P, R):
    f = next((g for g in P.fns.values() if g.qual == B + '_sign_'), None)
    need(f is not None, 'the function bound to sign')
    names = pnames(f)
    X = ('arg', names[0])
    ps = [p for p in typed(f) if p.end[0] == 'ret']
    for cls, x in CLASSES.items():
        def rel(p, a, b):
            """truth of fcmp p between x and a zero (or itself)"""
            va = x if a == X else fnum(a)
            vb = x if b == X else fnum(b)
            if a != X and va not in (0.0,) or b != X and vb not in (0.0,):
                return None
            if va is None or vb is None:
                return p[0] == 'u' if p != 'ord' else False
            if p in ('ord', 'uno'):
                return p == 'ord'
            return {'eq': va == vb, 'ne': va != vb, 'lt': va < vb, 'le': va <= vb, 'gt': va > vb, 'ge': va >= vb}[p[1:]]

        def leaf(e):
            if e[0] == 'fcmp' and {e[2], e[3]} & {X}:
                r = rel(e[1], e[2], e[3])
                return None if r is None else int(r)
            if e[0] == 'call' and short(e[1]) == 'isnan' and X in e[2:]:
                return int(x is None)
            if e[0] == 'call' and short(e[1]).startswith('signbit') and X in e[2:] and x is not None:
                return int(str(float(x))[0] == '-')
            return None
        w = World(leaf)
        why = None
        hit = [p for p in ps if w.live(p)]
        if not hit:
            why = 'has no result'
        for p in hit:
            v = bare(p.ret)
            while v[0] == 'select' and w.true(v[1]) is not None:
                v = v[2 if w.true(v[1]) else 3]
            got = value(v, X, x, w)
            want = 0.0 if x is None else float(x)
            if got is None or repr(got) != repr(want):
                why = why or 'is %s' % (S(v) if got is None else got)
        R.check(why is None, 'sign', cls, floc(f), 'sign of a %s value %s' % (cls, why) if cls in ('negative', 'positive') else 'sign of %s %s' % (cls, why), fn=f)


def fnum(e):
    if e[0] == 'f':
        return float(str(e[1]))
    return float(e[1]) if e[0] == 'c' else None


def value(v, X, x, w):
    if v == X:
        return x if x in (0.0,) else None
    if v[0] in ('sitofp', 'uitofp') and len(v) in (2, 3):
        n = w.val(v[-1])
        return float(n) if isinstance(n, int) else None
    if v[0] == 'fsub' and len(v) == 3:
        a, b = value(v[1], X, x, w), value(v[2], X, x, w)
        return None if None in (a, b) else a - b
    if v[0] == 'call' and 'copysign' in short(v[1].replace('.f64', '')):
        a = value(v[2], X, x, w)
        return None if a is None or x is None or v[3] != X else abs(a) * (-1 if str(float(x))[0] == '-' else 1)
    return fnum(v)


def run(P, R):
    R.rule('lanes', 'all and any combine the sign bits of every lane', 2)
    R.rule('choice', 'select and bitselect take each lane (each bit) from the operand its condition names, unchanged', 20)
    R.rule('permute', 'shuffle and shuffle2 take the element that the lane number, reduced to the number of elements, names', 8)
    R.rule('sign', 'sign delivers one, minus one or the zero of its operand, and zero for a NaN', 5)
    quantifier(P, R, 'all', 1)
    quantifier(P, R, 'any', 0)
    select(P, R)
    bitselect(P, R)
    shuffles(P, R)
    sign(P, R)
