"""C41: the operands of the integer built-ins are abstracted to cells (extreme values, signs, parities, quotient and
remainder of the product) and the true, unbounded result to the side of the type's range it falls on.  In every consistent
cell each comparison on a path of the built-in is decided by interval arithmetic over linear expressions in the operands
(modulo 2^64, as the host computes); where it is not decided both branches are followed.  The value handed to the setter
must, on every path, equal the exact result - or the nearest end of the type's range - modulo the width of the element."""
from common import *
from flow import Flow

TECHNIQUE = 'abstract interpretation (linear expressions with intervals, partitioned by operand and result cells) of each integer built-in'
TUS = ['WorkItemBuiltins']
OPTS = ('--split-selects', '--extra-inline', r'WorkItemBuiltins::_(min|max|clamp)_<')
NOTE = 'The helpers _umul_hi_/_smul_hi_ are analysed on their own; which name selects which built-in is C12, which lanes are written C08.'
ASSUMPTIONS = ['TypedValue::getSInt/getUInt sign- or zero-extend an element of the stored size, set* truncate to it (C08)']
B = 'oclgrind::WorkItemBuiltins::'
M64 = 1 << 64
INF = 1 << 200
UNSIGNED = {'h': 8, 't': 16, 'j': 32, 'm': 64}
SIGNED = {'c': 8, 's': 16, 'i': 32, 'l': 64}


class Poly(dict):
    """linear expression: variable -> coefficient, '' the constant"""
    def __init__(self, *a):
        dict.__init__(self, *a)
        for k in [k for k, v in self.items() if v == 0]:
            del self[k]

    def plus(self, o, k=1):
        r = dict(self)
        for v, c in o.items():
            r[v] = r.get(v, 0) + k * c
        return Poly(r)

    def times(self, k):
        return Poly({v: c * k for v, c in self.items()})


def num(n):
    return Poly({'': n})


def var(n):
    return Poly({n: 1})


class Cell:
    """variables with intervals, extra linear expressions with intervals, products, and what the operands are"""
    def __init__(self, box, rows=(), ops=None, products=None):
        self.box, self.rows, self.ops, self.products = box, list(rows), ops or {}, products or {}

    def plain(self, p):
        lo = hi = p.get('', 0)
        for v, c in p.items():
            if v == '':
                continue
            a, b = self.box.get(v, (-INF, INF))
            lo += min(c * a, c * b)
            hi += max(c * a, c * b)
        return lo, hi

    def range(self, p, depth=1):
        lo, hi = self.plain(p)
        for row, a, b in self.rows:
            for k in {c // row[v] for v, c in p.items() if v in row and v != '' and c % row[v] == 0}:
                rest = p.plus(row, -k)
                l2, h2 = self.range(rest, depth - 1) if depth and len(rest) < len(p) + 2 else self.plain(rest)
                l2, h2 = l2 + min(k * a, k * b), h2 + max(k * a, k * b)
                lo, hi = max(lo, l2), min(hi, h2)
        return lo, hi

    def feasible(self):
        if any(a > b for a, b in self.box.values()):
            return False
        for row, a, b in self.rows:
            if a > b:
                return False
            lo, hi = self.range(row)
            if lo > hi:
                return False
            l2, h2 = self.plain(row)
            if l2 > b or h2 < a:
                return False
        return True

    def within(self, p, lo, n):
        """the representative of p (mod n) in [lo, lo + n), or None"""
        a, b = self.range(p)
        if abs(a) >= INF // 4 or abs(b) >= INF // 4:
            return None
        k = (a - lo) // n
        return p.plus(num(-k * n)) if (b - lo) // n == k else None


class Eval:
    """expressions of the built-in as linear expressions, valid modulo 2^width of the host's arithmetic"""
    def __init__(self, cell, operand, width, extra=None, fresh=False):
        self.fresh, self.made = fresh, {}
        self.c, self.operand, self.width, self.extra = cell, operand, width, extra

    def signed(self, p, bits=64):
        return None if p is None else self.c.within(p, -(1 << bits - 1), 1 << bits)

    def unsigned(self, p, bits=64):
        return None if p is None else self.c.within(p, 0, 1 << bits)

    def val(self, e):
        if e[0] == 'c':
            return num(e[1]) if isinstance(e[1], int) else None
        if e[0] == 'opd':
            return self.operand(e[1], e[2])
        if e[0] == 'v':
            return var(e[1])
        if self.extra:
            r = self.extra(self, e)
            if r is not None:
                return r
        op = e[0]
        if op in ('add', 'sub'):
            x, y = self.val(e[1]), self.val(e[2])
            return None if x is None or y is None else x.plus(y, 1 if op == 'add' else -1)
        if op == 'mul':
            x, y = self.val(e[1]), self.val(e[2])
            if x is None or y is None:
                return None
            for a, b in ((x, y), (y, x)):
                if set(a) <= {''}:
                    return b.times(a.get('', 0))
            return self.product(x, y)
        if op in ('urem', 'udiv'):
            n = self.val(e[2])
            x = self.unsigned(self.val(e[1]))
            n = n.get('', 0) if n is not None and set(n) <= {''} else 0
            if x is None or n <= 0 or n & n - 1:
                return None
            q = self.shift(x, n.bit_length() - 1)
            return q if op == 'udiv' or q is None else x.plus(q, -n)
        if op in ('shl', 'ashr', 'lshr'):
            x, k = self.val(e[1]), self.val(e[2])
            if x is None or k is None or not set(k) <= {''} or not 0 <= k.get('', 0) < 64:
                return None         # shifting by the width of the word or more means nothing
            k = k.get('', 0)
            if op == 'shl':
                return x.times(1 << k)
            return self.shift(self.signed(x) if op == 'ashr' else self.unsigned(x), k)
        if op in ('zext', 'sext', 'trunc'):
            x = e[2]
            if x[0] in ('icmp', 'eq', 'lt', 'slt', 'true'):
                return None
            if op != 'trunc':
                if x[0] != 'trunc':
                    return self.val(x)
                n = size_of(x[1])
                p = self.val(x[2])
                return None if p is None or n is None else self.c.within(p, -(1 << n - 1) if op == 'sext' else 0, 1 << n)
            p, n = self.val(x), size_of(e[1])
            if p is None or n is None:
                return None
            lo, hi = self.c.range(p)
            return p if -(1 << n - 1) <= lo and hi < 1 << n else None
        if op in ('and', 'or', 'xor'):
            return self.bits(op, e[1], e[2])
        if op == 'select':
            c = e[1]
            r = self.compare(c[1], c[2], c[3]) if c[0] == 'icmp' else None
            if r is not None:
                return self.val(e[2] if r else e[3])
            x, y = self.val(e[2]), self.val(e[3])
            if c[0] == 'icmp' and x is not None and y is not None and {repr(nz(c[2])), repr(nz(c[3]))} == {repr(nz(e[2])), repr(nz(e[3]))} and c[1] not in ('eq', 'ne'):
                f = self.signed if c[1][0] == 's' else self.unsigned        # the smaller or the larger of the two
                p, q = f(x), f(y)
                if p is None or q is None:
                    return None
                lo, hi = self.c.range(p.plus(q, -1))
                least = (c[1][1:] in ('lt', 'le')) == (nz(c[2]) == nz(e[2]))
                return x if (hi <= 0 if least else lo >= 0) else y if (lo >= 0 if least else hi <= 0) else None
            return None
        if op == 'call':
            n = short(e[1])
            if n.startswith(('llvm.smin', 'llvm.smax', 'llvm.umin', 'llvm.umax')):
                x, y = self.val(e[2]), self.val(e[3])
                r = self.compare('slt' if n[5] == 's' else 'ult', e[2], e[3])
                if r is None or x is None or y is None:
                    return None
                return x if r == n[6:].startswith('min') else y
            if n.startswith('llvm.abs') or n == 'abs' or n == 'labs' or n == 'llabs':
                x = self.signed(self.val(e[2]))
                if x is None:
                    return None
                lo, hi = self.c.range(x)
                return x if lo >= 0 else x.times(-1) if hi <= 0 else None
            if n.startswith(('llvm.sadd.sat', 'llvm.uadd.sat', 'llvm.ssub.sat', 'llvm.usub.sat')):
                return None
        return None

    def product(self, x, y):
        k = frozenset((tuple(sorted(x.items())), tuple(sorted(y.items()))))
        return self.c.products.get(k)

    def shift(self, x, k):
        """floor(x / 2^k) where every variable's part is divisible or the rest is one value"""
        if x is None:
            return None
        n = 1 << k
        whole = Poly({v: c for v, c in x.items() if v != '' and c % n == 0})
        rest = x.plus(whole, -1)
        lo, hi = self.c.range(rest)
        if lo // n != hi // n:
            lo, hi = self.c.range(x)
            if lo // n != hi // n:
                return self.quotient(x, k)
            return num(lo // n)
        return Poly({v: c // n for v, c in whole.items()}).plus(num(lo // n))

    def quotient(self, x, k):
        """a new variable q with x = 2^k q + (0 .. 2^k - 1)"""
        if not self.fresh:
            return None
        v = self.made.setdefault((tuple(sorted(x.items())), k), 'q%d' % len(self.made))
        lo, hi = self.c.range(x)
        self.c.box[v] = (lo >> k, hi >> k)
        row = (x.plus(var(v), -(1 << k)), 0, (1 << k) - 1)
        if row not in self.c.rows:
            self.c.rows.append(row)
        return var(v)

    def bit(self, e):
        """the lowest bit"""
        if e[0] in ('and', 'or', 'xor'):
            x, y = self.bit(e[1]), self.bit(e[2])
            if e[0] == 'and' and 0 in (x, y):
                return 0
            if e[0] == 'or' and 1 in (x, y):
                return 1
            return None if x is None or y is None else {'and': x & y, 'or': x | y, 'xor': x ^ y}[e[0]]
        p = self.val(e)
        if p is None:
            return None
        odd = {v for v, c in p.items() if v != '' and c % 2}
        if any(self.c.box.get(v, (0, 1))[0] != self.c.box.get(v, (0, 1))[1] for v in odd):
            return None
        return (p.get('', 0) + sum(p[v] * self.c.box[v][0] for v in odd)) % 2

    def sign(self, e, known=None):
        """is the top bit set; a part of unknown sign is tried both ways"""
        if known is None:
            parts = self.parts(e)
            open_ = [k for k, v in parts.items() if v is None]
            if len(open_) > 3:
                return None
            out = set()
            for m in range(1 << len(open_)):
                known = dict(parts)
                known.update({k: bool(m >> j & 1) for j, k in enumerate(open_)})
                out.add(self.sign(e, known))
            return out.pop() if len(out) == 1 else None
        if e[0] in ('and', 'or', 'xor'):
            x, y = self.sign(e[1], known), self.sign(e[2], known)
            return {'and': x and y, 'or': x or y, 'xor': x != y}[e[0]]
        return known[repr(e)]

    def parts(self, e):
        if e[0] in ('and', 'or', 'xor'):
            return {**self.parts(e[1]), **self.parts(e[2])}
        p = self.signed(self.val(e))
        lo, hi = self.c.range(p) if p is not None else (-1, 0)
        return {repr(e): True if hi < 0 else False if lo >= 0 else None}

    def bits(self, op, x, y):
        for a, b in ((x, y), (y, x)):
            if op == 'and' and b[0] == 'c':
                if b[1] == 1:
                    r = self.bit(a)
                    return None if r is None else num(r)
                if b[1] > 0 and b[1] & b[1] + 1 == 0:      # the low bits
                    m = b[1].bit_length()
                    if a[0] == 'ashr' and a[2][0] == 'c' and a[2][1] + m <= 64:
                        a = ('lshr',) + a[1:]
                    p = self.val(a)
                    return None if p is None else self.low(p, m)
            if op == 'xor' and b == ('c', -1):
                p = self.val(a)
                return None if p is None else p.times(-1).plus(num(-1))
        p, q = self.val(x), self.val(y)
        if op in ('or', 'and') and p is not None and p == q:
            return p
        if op == 'or' and p is not None and q is not None:      # disjoint bits
            for a, b in ((p, q), (q, p)):
                lo, hi = self.c.range(b)
                if lo >= 0 and all(c % (1 << max(hi, 0).bit_length()) == 0 for c in a.values()):
                    return a.plus(b)
        return None

    def low(self, p, k):
        r = self.c.within(p, 0, 1 << k) or self.c.within(Poly({v: c % (1 << k) for v, c in p.items()}), 0, 1 << k)
        if r is None and self.fresh:
            q = self.shift(p, k)
            r = None if q is None else p.plus(q, -(1 << k))
        return r

    def compare(self, op, a, b):
        if op in ('slt', 'sgt', 'sle', 'sge') and b[0] == 'c' and a[0] in ('and', 'or', 'xor'):
            s = self.sign(a)
            if s is not None and (op, b[1]) in (('slt', 0), ('sgt', -1), ('sge', 0), ('sle', -1)):
                return s == (op in ('slt', 'sle'))
        x, y = self.val(a), self.val(b)
        if x is None or y is None:
            return None
        if op in ('eq', 'ne'):
            r = None
            for f in (self.signed, self.unsigned):
                p, q = f(x), f(y)
                if p is not None and q is not None:
                    lo, hi = self.c.range(p.plus(q, -1))
                    r = True if lo == hi == 0 else False if lo > 0 or hi < 0 else r
            return None if r is None else r == (op == 'eq')
        f = self.signed if op[0] == 's' else self.unsigned
        p, q = f(x), f(y)
        if p is None or q is None:
            return None
        lo, hi = self.c.range(p.plus(q, -1))
        k = op[1:]
        if k == 'lt':
            return True if hi < 0 else False if lo >= 0 else None
        if k == 'gt':
            return True if lo > 0 else False if hi <= 0 else None
        if k == 'le':
            return True if hi <= 0 else False if lo > 0 else None
        return True if lo >= 0 else False if hi < 0 else None


def size_of(t):
    return int(t[1:]) if isinstance(t, str) and t[:1] == 'i' and t[1:].isdigit() else None


def kept(e, width):
    """without the conversions that leave the low `width` bits alone"""
    while e[0] in ('zext', 'sext', 'trunc') and (e[0] != 'trunc' or (size_of(e[1]) or 0) >= width) and \
            (e[0] == 'trunc' or e[2][0] == 'trunc' and (size_of(e[2][1]) or 0) >= width):
        e = e[2]
    return e


def lanes(e):
    """('opd', k, view) for an element of operand k in the lane being computed"""
    if e[0] == 'call' and short(e[1]) in ('getSInt', 'getUInt') and len(e) == 4:
        o = e[2]
        o = o[1] if o[0] == 'ptrto' else o
        if is_call(o, 'WorkItem::getOperand') and is_call(o[3], 'getArgOperand') and o[3][3][0] == 'c':
            return o[3][3][1], 'S' if short(e[1]) == 'getSInt' else 'U', e[3]
    return None


def paths(f, ch, width, cell, operand, extra=None, fresh=False):
    """[(path, value set, lane of the setter, lanes read)] of one iteration of the lane loop"""
    read = set()

    def leaf(e):
        if e[0] == 'call' and short(e[1]) == 'getOverloadArgType':
            return ord(ch)
        if e[0] == 'load' and e[1] in (('fld', ('arg', 'result'), 'size'), ('arg', 'result')):
            return width // 8
        l = lanes(e)
        if l:
            read.add(l[2])
            return ('opd', l[0], l[1])
        return None
    ev = Eval(cell, operand, width, extra, fresh)

    def cmp(op, a, b):
        if a[0] == 'phi' or b[0] == 'phi':
            return None
        return ev.compare(op, a, b)
    out = []
    for p in Flow(f, leaf=leaf, cmp=cmp).paths():
        s = [e for e in p.calls('setUInt', 'setSInt') if e[3][0] == ('arg', 'result')]
        out.append((p, s, read))
    return ev, out


def refined(cell, ev, p):
    """the cell, narrowed by what this path found out; None when that cannot be"""
    rows = []
    for a, pol in p.lits:
        if a[0] not in ('lt', 'slt', 'eq') or a[1][0] == 'phi' or a[2][0] == 'phi':
            continue
        x, y = ev.val(a[1]), ev.val(a[2])
        if x is None or y is None:
            continue
        for f in ([ev.signed] if a[0] == 'slt' else [ev.unsigned] if a[0] == 'lt' else [ev.signed, ev.unsigned]):
            u, v = f(x), f(y)
            if u is not None and v is not None:
                d = u.plus(v, -1)
                if a[0] == 'eq':
                    if pol:
                        rows.append((d, 0, 0))
                    elif cell.range(d)[0] == 0:
                        rows.append((d, 1, INF // 8))
                    elif cell.range(d)[1] == 0:
                        rows.append((d, -INF // 8, -1))
                else:
                    rows.append((d, -INF // 8, -1) if pol else (d, 0, INF // 8))
    c = Cell(cell.box, cell.rows + rows, cell.ops, cell.products)
    return c if c.feasible() else None


def held(R, rule, f, ch, width, cases, fresh=False):
    """cases: [(label, cell, operand(k, view), wanted)]; the value set must equal `wanted` modulo 2^width"""
    bad, n = None, 0
    for label, cell, operand, want, extra in cases:
        if not cell.feasible():
            continue
        n += 1
        ev, ps = paths(f, ch, width, cell, operand, extra, fresh)
        its = [x for x in ps if x[0].end[0] == 'iter']
        if not its:
            bad = bad or 'has no lane that is computed (%s)' % label
        for p, s, read in its:
            if len(s) != 1:
                bad = bad or 'sets %d values in one lane (%s)' % (len(s), label)
                continue
            if any(l != s[0][3][2] for l in read):
                bad = bad or 'computes a lane from another lane'
            cell2 = refined(cell, ev, p)
            if cell2 is None:
                continue
            ev.c = cell2
            v = ev.val(kept(s[0][3][1], width))
            ev.c = cell
            if v is None:
                bad = bad or 'delivers %s (%s)' % (S(s[0][3][1])[:160], label)
                continue
            d = v.plus(want, -1)
            lo, hi = cell2.range(d)
            if not (all(c % (1 << width) == 0 for c in d.values()) or lo == hi and lo % (1 << width) == 0):
                bad = bad or 'does not deliver the exact result where %s' % label
    need(n, 'no cell for %s' % f.short)
    R.check(bad is None, rule, '%s:%s' % (f.short.split('::')[-1], ch), floc(f), '%s of type %s %s' % (f.short.split('::')[-1], ch, bad), fn=f)


def limits(ch):
    w = UNSIGNED.get(ch) or SIGNED[ch]
    return (w, 0, (1 << w) - 1) if ch in UNSIGNED else (w, -(1 << w - 1), (1 << w - 1) - 1)


def cells(lo, hi):
    if lo == 0:
        return [('0', 0, 0), ('positive', 1, hi - 1), ('the maximum', hi, hi)]
    return [('the minimum', lo, lo), ('negative', lo + 1, -1), ('0', 0, 0), ('positive', 1, hi - 1), ('the maximum', hi, hi)]


def view(ch, w, cell, p, how):
    """operand value p as getSInt or getUInt deliver it"""
    if ch in UNSIGNED:
        return p if how == 'U' else p if w == 64 else cell.within(p, -(1 << w - 1), 1 << w)
    return p if how == 'S' or w == 64 else cell.within(p, 0, 1 << w)


def sides(T, lo, hi):
    """the true result below, within and above the range of the type, and what is to be delivered"""
    return [('below the range', (T, -INF // 8, lo - 1), num(lo)), ('in range', (T, lo, hi), T), ('above the range', (T, hi + 1, INF // 8), num(hi))]


def sums(P, R, name, k):
    f = P.one(B + name)
    for ch in sorted(UNSIGNED) + sorted(SIGNED):
        w, lo, hi = limits(ch)
        cases = []
        for na, al, ah in cells(lo, hi):
            for nb, bl, bh in cells(lo, hi):
                T = var('a').plus(var('b'), k)
                for side, row, want in sides(T, lo, hi):
                    c = Cell({'a': (al, ah), 'b': (bl, bh)}, [row])
                    cases.append(('x is %s, y is %s and the result %s' % (na, nb, side), c,
                                  lambda i, how, c=c, ch=ch, w=w: view(ch, w, c, var('ab'[i]), how) if i in (0, 1) else None, want, None))
        held(R, 'saturate', f, ch, w, cases)


def mads(P, R):
    f = P.one(B + 'mad_sat')
    for ch in sorted(UNSIGNED) + sorted(SIGNED):
        w, lo, hi = limits(ch)
        cases = []
        big = max(lo * lo, hi * hi)
        pl = 0 if lo == 0 else lo * hi
        for nc, cl, ch_ in cells(lo, hi):
            if w < 64:
                T = var('p').plus(var('c'))
                for side, row, want in sides(T, lo, hi):
                    c = Cell({'a': (lo, hi), 'b': (lo, hi), 'c': (cl, ch_), 'p': (pl, big)}, [row])
                    cases.append(('z is %s and the result %s' % (nc, side), c, operand3(ch, w, c), want, None))
                    c.products = {key('a', 'b'): var('p')}
                continue
            # x * y + z = 2^64 H + U, 0 <= U < 2^64; the carry of the low halves makes x * y = 2^64 h + l
            for nh, hl, hh in (('<-1', -(1 << 62) - 1, -2), ('-1', -1, -1), ('0', 0, 0), ('>0', 1, (1 << 62) if lo else M64 - 1)):
                for nu, ul, uh in (('low', 0, (1 << 63) - 1), ('high', 1 << 63, M64 - 1)):
                    for carry in (0, 1):
                        neg = 1 if cl < 0 else 0
                        H, U = var('H'), var('U')
                        h = H.plus(num(neg - carry))
                        l = U.plus(var('c'), -1).plus(num(M64 * (carry - neg)))
                        rows = [(l, 0, M64 - 1)]
                        if lo == 0:
                            rows.append((h, 0, M64))
                        if lo == 0:
                            want = U if nh == '0' else num(hi)
                        else:
                            fits = (nh, nu) in (('0', 'low'), ('-1', 'high'))
                            want = U if fits else num(hi if hl >= 0 else lo)
                        c = Cell({'a': (lo, hi), 'b': (lo, hi), 'c': (cl, ch_), 'H': (hl, hh), 'U': (ul, uh)}, rows)
                        c.products = {key('a', 'b'): l}
                        cases.append(('z is %s, the high half of the result %s and the low half %s' % (nc, nh, nu), c, operand3(ch, w, c), want, high(h)))
        held(R, 'saturate', f, ch, w, cases)


def key(x, y):
    return frozenset((tuple(sorted(var(x).items())), tuple(sorted(var(y).items()))))


def operand3(ch, w, c):
    return lambda i, how: view(ch, w, c, var('abc'[i]), how) if i in (0, 1, 2) else None


def high(h):
    """the high half of the product, where the helper is asked for it"""
    def extra(ev, e):
        if e[0] == 'call' and short(e[1]) in ('_umul_hi_', '_smul_hi_') and len(e) == 5 and e[4] == C(64):
            x, y = ev.val(e[2]), ev.val(e[3])
            if x is not None and y is not None and ev.product(x, y) is not None:
                return h
        return None
    return extra


def differences(P, R):
    f = P.one(B + 'abs_diff')
    for ch in sorted(UNSIGNED) + sorted(SIGNED):
        w, lo, hi = limits(ch)
        cases = []
        D = var('a').plus(var('b'), -1)
        for na, al, ah in cells(lo, hi):
            for nb, bl, bh in cells(lo, hi):
                for what, l, h, k in (('larger', 1, INF // 8, 1), ('equal', 0, 0, 1), ('smaller', -INF // 8, -1, -1)):
                    c = Cell({'a': (al, ah), 'b': (bl, bh)}, [(D, l, h)])
                    cases.append(('x is %s and %s than y, which is %s' % (na, what, nb), c,
                                  lambda i, how, c=c, ch=ch, w=w: view(ch, w, c, var('ab'[i]), how) if i in (0, 1) else None, D.times(k), None))
        held(R, 'exact', f, ch, w, cases)
    f = P.one(B + 'abs_builtin')
    for ch in sorted(UNSIGNED) + sorted(SIGNED):
        w, lo, hi = limits(ch)
        cases = []
        for na, al, ah in cells(lo, hi):
            c = Cell({'a': (al, ah)})
            cases.append(('x is %s' % na, c, lambda i, how, c=c, ch=ch, w=w: view(ch, w, c, var('a'), how) if i == 0 else None,
                          var('a').times(-1 if al < 0 else 1), None))
        held(R, 'exact', f, ch, w, cases)


def halves(P, R):
    for name, up in (('hadd', 0), ('rhadd', 1)):
        f = P.one(B + name)
        for ch in sorted(UNSIGNED) + sorted(SIGNED):
            w, lo, hi = limits(ch)
            cases = []
            for na, al, ah in (('negative', lo // 2, -1), ('not negative', 0, hi // 2)):
                for nb, bl, bh in (('negative', lo // 2, -1), ('not negative', 0, hi // 2)):
                    for ra in (0, 1):
                        for rb in (0, 1):
                            a, b = var('A').times(2).plus(num(ra)), var('B').times(2).plus(num(rb))
                            c = Cell({'A': (al, ah), 'B': (bl, bh)})
                            want = var('A').plus(var('B')).plus(num((ra + rb + up) // 2))
                            cases.append(('x is %s %s, y %s %s' % (na, ('even', 'odd')[ra], nb, ('even', 'odd')[rb]), c,
                                          lambda i, how, c=c, ch=ch, w=w, a=a, b=b: view(ch, w, c, (a, b)[i], how) if i in (0, 1) else None, want, None))
            held(R, 'exact', f, ch, w, cases)


def highs(P, R):
    for name, add in (('mul_hi', 0), ('mad_hi', 1)):
        f = P.one(B + name)
        for ch in sorted(UNSIGNED) + sorted(SIGNED):
            w, lo, hi = limits(ch)

            def extra(ev, e, w=w, ch=ch):
                if e[0] == 'call' and short(e[1]) == ('_umul_hi_' if ch in UNSIGNED else '_smul_hi_') and len(e) == 5 and e[4] == C(w):
                    x, y = ev.val(e[2]), ev.val(e[3])
                    if x is not None and y is not None and ev.product(x, y) is not None:
                        return var('h')
                return None
            c = Cell({'a': (lo, hi), 'b': (lo, hi), 'c': (lo, hi), 'h': (lo, hi), 'l': (0, (1 << w) - 1)})
            c.products = {key('a', 'b'): var('h').times(1 << w).plus(var('l'))}
            want = var('h').plus(var('c')) if add else var('h')
            held(R, 'exact', f, ch, w, [('any operands', c, operand3(ch, w, c), want, extra)])


def words(P, R):
    """rotate and upsample: the bits of the operands, moved"""
    f = P.one(B + 'rotate')
    for ch in sorted(UNSIGNED) + sorted(SIGNED):
        w = (UNSIGNED.get(ch) or SIGNED[ch])
        cases = []
        for n in range(w):
            # v = 2^(w-n) h + l is to become 2^n l + h
            c = Cell({'h': (0, (1 << n) - 1), 'l': (0, (1 << w - n) - 1), 'm': (0, (1 << w) // w - 1)})
            v = var('h').times(1 << w - n).plus(var('l'))
            amount = var('m').times(w).plus(num(n))
            cases.append(('the amount is %d modulo the width' % n, c, lambda i, how, c=c, w=w, v=v, a=amount: bits_of(w, c, (v, a)[i], how) if i in (0, 1) else None,
                          var('l').times(1 << n).plus(var('h')), None))
        held(R, 'exact', f, ch, w, cases)
    f = P.one(B + 'upsample')
    for ch in 'hcstij':
        w = UNSIGNED.get(ch) or SIGNED[ch]
        c = Cell({'a': (0, (1 << w) - 1), 'b': (0, (1 << w) - 1)})
        held(R, 'exact', f, ch, 2 * w, [('any operands', c, lambda i, how, c=c, w=w: bits_of(w, c, var('ab'[i]), how) if i in (0, 1) else None,
                                         var('a').times(1 << w).plus(var('b')), None)])


def zeros(P, R):
    f = P.one(B + 'clz')
    for ch in sorted(UNSIGNED) + sorted(SIGNED):
        w = UNSIGNED.get(ch) or SIGNED[ch]
        cases = []
        for k in range(w + 1):
            c = Cell({'x': (1 << k - 1, (1 << k) - 1) if k else (0, 0)})
            cases.append(('the highest set bit is %d' % (k - 1), c, lambda i, how, c=c, w=w: bits_of(w, c, var('x'), how) if i == 0 else None, num(w - k), None))
        held(R, 'exact', f, ch, w, cases, fresh=True)


def bits_of(w, c, v, how):
    return v if how == 'U' or w == 64 else c.within(v, -(1 << w - 1), 1 << w)


def products(P, R):
    """the helpers for the high half of a product"""
    for name, low in (('_umul_hi_', 0), ('_smul_hi_', 1)):
        f = P.one(B + name)
        ns = [n for n in pnames(f)][-3:]
        for w in (8, 16, 32, 64):
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if low else (0, (1 << w) - 1)
            big = max(lo * lo, hi * hi)
            if w < 64:
                c = Cell({'x': (lo, hi), 'y': (lo, hi), 'h': (lo, hi), 'l': (0, (1 << w) - 1)},
                         [(var('h').times(1 << w).plus(var('l')), lo * hi if low else 0, big)])
                c.products = {key('x', 'y'): var('h').times(1 << w).plus(var('l'))}
                ops, whole = {ns[0]: var('x'), ns[1]: var('y')}, None
            else:
                h = 1 << 32
                b = (-(1 << 31), (1 << 31) - 1) if low else (0, h - 1)
                bb = (b[0] * b[1], max(b[0] * b[0], b[1] * b[1])) if low else (0, (h - 1) ** 2)
                mix = (b[0] * (h - 1), b[1] * (h - 1))
                c = Cell({'xh': b, 'yh': b, 'xl': (0, h - 1), 'yl': (0, h - 1), 'll': (0, (h - 1) ** 2), 'lh': mix, 'hl': mix, 'hh': bb})
                c.products = {key(p + s_, q + t): var(s_ + t) for s_ in 'lh' for t in 'lh' for p, q in (('x', 'y'),)}
                ops = {ns[0]: var('xh').times(h).plus(var('xl')), ns[1]: var('yh').times(h).plus(var('yl'))}
                whole = var('hh').times(1 << 64).plus(var('lh').times(h)).plus(var('hl').times(h)).plus(var('ll'))
            ev = Eval(c, None, 64, lambda ev, e, ops=ops: ops.get(e[1]) if e[0] == 'arg' else None, fresh=True)
            bad = None
            ps = list(Flow(f, inputs=None, leaf=lambda e, w=w: w if e == ('arg', ns[2]) else None).paths())
            for p in ps:
                v = ev.val(p.ret) if p.end[0] == 'ret' and p.ret is not None else None
                if v is None:
                    bad = 'returns %s' % (S(p.ret) if p.ret else 'nothing')
                    continue
                if whole is None:
                    d = v.plus(var('h'), -1)
                    if any(x % (1 << 64) for x in d.values()):
                        bad = 'returns %s' % S(p.ret)
                else:
                    a, b = c.range(whole.plus(v, -(1 << 64)))
                    if a < 0 or b >= 1 << 64:
                        bad = 'loses a carry: what is left of the product ranges from %d to %d' % (a, b)
            R.check(bool(ps) and bad is None, 'exact', '%s:%d' % (name, w), floc(f), '%s for %d bits %s' % (name, w, bad), fn=f)


def run(P, R):
    R.rule('saturate', 'add_sat, sub_sat and mad_sat deliver the true result where it fits the type and the nearest end of its range '
           'where it does not, in every cell of operands', 24)
    R.rule('exact', 'abs, abs_diff, hadd, rhadd, mul_hi, mad_hi, rotate, upsample, clz and the helpers for the high half of a product deliver the exact '
           'result, without losing carries or signs', 78)
    sums(P, R, 'add_sat', 1)
    sums(P, R, 'sub_sat', -1)
    mads(P, R)
    differences(P, R)
    halves(P, R)
    highs(P, R)
    words(P, R)
    zeros(P, R)
    products(P, R)
