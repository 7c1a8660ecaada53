"""Reaching conditions as truth tables over branch predicates.

table(f, start, ...) propagates every combination of truth values of the branch
predicates of an acyclic region through its control-flow graph and records which
instructions of interest are passed.  equal() compares such a table with an
expected boolean formula; equality is exact over opaque predicates."""
import itertools

from q import literal, deep, strip, poly
from ir import show, Broken
import common


def pk(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=repr))


def canon(atom, ren=None):
    """atom -> hashable canonical atom, and polarity flip"""
    k = atom[0]
    if k in ('eq', 'lt', 'slt'):
        x, y = common.nz(atom[1]), common.nz(atom[2])
        if ren:
            x, y = rename(x, ren), rename(y, ren)
        px, py = poly(x), poly(y)
        if k == 'eq':
            # only differences matter
            d = dict(px)
            for m, c in py.items():
                d[m] = d.get(m, 0) - c
            d = {m: c for m, c in d.items() if c}
            if not d:
                return ('const', True)
            if list(d) == [()]:
                return ('const', False)
            a, b = pk(d), pk({m: -c for m, c in d.items()})
            return ('eq',) + (min(a, b, key=repr),)
        return (k, pk(px), pk(py))
    if k == 'in':
        x = common.nz(atom[1])
        return ('in', rename(x, ren) if ren else x, atom[2])
    x = common.nz(atom[1])
    x = rename(x, ren) if ren else x
    # (x & c) tested for non-zero is the same as  x & c != 0
    return ('eq', min(pk(poly(x)), pk({m: -c for m, c in poly(x).items()}), key=repr)) if not _b(x) else ('true', x)


def _b(x):
    return not (x[0] in ('and', 'sub', 'add', 'load', 'arg', 'phi', 'sym', 'call', 'ptr', 'xv', 'select', 'ptrto', 'new', 'cast'))


def rename(e, ren):
    r = ren(e)
    if r is not None:
        return r if isinstance(r, tuple) else ('sym', r)
    if not isinstance(e, tuple) or not e:
        return e
    return tuple(rename(x, ren) if isinstance(x, tuple) else x for x in e)


def boolish(e):
    if e[0] == 'c':
        return e[1] in (0, 1, -1)
    if e[0] in ('icmp', 'fcmp'):
        return True
    if e[0] in ('and', 'or', 'xor'):
        a, b = strip(e[1]), strip(e[2])
        return boolish(a) and boolish(b) and not (a[0] == 'c' and b[0] == 'c')
    return False


class Cond:
    """boolean expression over canonical atoms"""
    def __init__(self, f, ren=None):
        self.f, self.ren = f, ren
        self.atoms = {}

    def lit(self, e):
        a, pol = literal(e)
        c = canon(a, self.ren)
        if a[0] == 'true' and c[0] == 'eq':
            pol = not pol            # x true  <=>  not (x == 0)
        if c[0] == 'const':
            return ('const', c[1] == pol)
        self.atoms.setdefault(c, None)
        return ('atom', c, pol)

    def parse(self, o, e, depth=0):
        """operand/expression -> boolean tree; phi kept for path evaluation"""
        if o is not None and o[0] == 'v':
            i = self.f.insts[o[1]]
            if i.op == 'phi' and i.d.get('t') == 'i1':
                for v, p in i.args:
                    self.parse(v, None, depth + 1) if depth < 8 else None
                return ('phi', i)
            if i.op in ('and', 'or', 'xor') and i.d.get('t') == 'i1':
                return (i.op, self.parse(i.args[0], None, depth + 1), self.parse(i.args[1], None, depth + 1))
            if i.op == 'select' and i.d.get('t') == 'i1':
                return ('sel',) + tuple(self.parse(a, None, depth + 1) for a in i.args)
            e = self.f.expr(o)
        elif e is None:
            e = self.f.expr(o)
        return self.tree(e)

    def tree(self, e):
        e = strip(e)
        if e[0] == 'c':
            return ('const', e[1] not in (0,))
        if e[0] == 'icmp' and e[1] in ('eq', 'ne') and boolish(strip(e[2])) and boolish(strip(e[3])) and \
                not (strip(e[2])[0] == 'c' and strip(e[3])[0] == 'c'):
            t = ('xor', self.tree(e[2]), self.tree(e[3]))
            return t if e[1] == 'ne' else ('xor', t, ('const', True))
        if e[0] in ('and', 'or', 'xor') and boolish(strip(e[1])) and boolish(strip(e[2])):
            return (e[0], self.tree(e[1]), self.tree(e[2]))
        if e[0] == 'select' and boolish(strip(e[2])) and boolish(strip(e[3])):
            return ('sel', self.tree(e[1]), self.tree(e[2]), self.tree(e[3]))
        return self.lit(e)

    def ev(self, t, env, pred, came):
        k = t[0]
        if k == 'const':
            return t[1]
        if k == 'atom':
            v = env(t[1])
            return v == t[2]
        if k == 'and':
            return self.ev(t[1], env, pred, came) and self.ev(t[2], env, pred, came)
        if k == 'or':
            return self.ev(t[1], env, pred, came) or self.ev(t[2], env, pred, came)
        if k == 'xor':
            return self.ev(t[1], env, pred, came) != self.ev(t[2], env, pred, came)
        if k == 'sel':
            return self.ev(t[2], env, pred, came) if self.ev(t[1], env, pred, came) else self.ev(t[3], env, pred, came)
        if k == 'phi':
            i = t[1]
            p = came.get(i.blk.id)
            for v, b in i.args:
                if b == p:
                    return self.ev(self.parse(v, None), env, pred, came)
            c = ('true', ('phi', i.id))
            return env(c)
        raise Broken('truth: ' + k)


def walk(f, start, env, cond, stop=()):
    """deterministic walk of the region under one assignment; list of blocks"""
    came, path, b, prev = {}, [], start, None
    while True:
        if b in path or (b in stop and path):
            return path, ('stop', b)
        path.append(b)
        if prev is not None:
            came[b] = prev
        blk = f.blocks[b]
        t = blk.term
        s = list(dict.fromkeys(blk.succs))
        if not s:
            return path, (t.op, b)
        if len(s) == 1:
            nxt = s[0]
        else:
            nxt = None
            for x in s:
                if cond[(b, x)](env, came):
                    nxt = x
                    break
            if nxt is None:
                return path, ('lost', b)
        prev, b = b, nxt


class Table:
    def __init__(self, f, start=0, stop=(), ren=None, extra=()):
        """region reachable from block `start`, cut at blocks `stop` and at
        re-entered blocks"""
        self.f, self.start, self.stop = f, start, set(stop)
        self.C = Cond(f, ren)
        for a in extra:
            self.C.atoms.setdefault(a, None)
        self.cond = {}
        reg, st = set(), [start]
        while st:
            b = st.pop()
            if b in reg or (b in self.stop and b != start):
                continue
            reg.add(b)
            blk = f.blocks[b]
            ss = list(dict.fromkeys(blk.succs))
            if len(ss) > 1:
                for s in ss:
                    self.cond[(b, s)] = self.mk(b, s)
            st += ss
        self.region = reg
        self.rets = {}
        for b in reg:
            t = f.blocks[b].term
            if t.op == 'ret' and t.args and t.d.get('vt', f.insts[t.args[0][1]].d.get('t') if t.args[0][0] == 'v' else
                                                     'i1') == 'i1':
                self.rets[b] = self.C.parse(t.args[0], None)
        self.atoms = list(self.C.atoms)

    def retval(self, env, path):
        came = dict(zip(path[1:], path))
        t = self.rets.get(path[-1])
        return t is not None and self.C.ev(t, lambda a: env.get(a, False), None, came)

    def mk(self, b, s):
        c = self.f.edge_cond(b, s)
        C = self.C
        if c[0] == 'br':
            t = C.parse(c[1], None)
            pol = c[2]
            return lambda env, came: C.ev(t, env, None, came) == pol
        x = self.f.expr(c[1])
        ls = [C.lit(('icmp', 'eq', x, ('c', v))) for v in c[2]]
        if c[0] == 'sw':
            return lambda env, came: any(C.ev(l, env, None, came) for l in ls)
        return lambda env, came: not any(C.ev(l, env, None, came) for l in ls)

    def rows(self, atoms=None, consistent=None):
        atoms = atoms or self.atoms
        groups = exclusive(atoms)
        if len(atoms) > 22:
            raise Broken('%s: too many predicates (%d)' % (self.f.short, len(atoms)))
        for vals in assignments(atoms, groups):
            env = dict(zip(atoms, vals))
            if consistent and not consistent(env):
                continue
            path, end = walk(self.f, self.start, lambda a: env.get(a, False), self.cond, self.stop)
            yield env, path, end


def exclusive(atoms):
    """indices of equality atoms over the same terms that differ only in the
    constant: at most one of them holds"""
    g = {}
    for n, a in enumerate(atoms):
        if a[0] == 'eq':
            terms = tuple((m, c) for m, c in a[1] if m != ())
            if terms:
                neg = tuple((m, -c) for m, c in terms)
                g.setdefault(min(terms, neg, key=repr), []).append(n)
    return [v for v in g.values() if len(v) > 1]


def assignments(atoms, groups):
    n = len(atoms)
    ing = {}
    for gi, g in enumerate(groups):
        for x in g:
            ing[x] = gi
    free = [x for x in range(n) if x not in ing]
    tot = 2 ** len(free)
    for g in groups:
        tot *= len(g) + 1
    if tot > 1 << 16:
        raise Broken('too many predicate combinations (%d)' % tot)
    for fv in itertools.product((False, True), repeat=len(free)):
        for gv in itertools.product(*[range(len(g) + 1) for g in groups]):
            v = [False] * n
            for x, y in zip(free, fv):
                v[x] = y
            for g, y in zip(groups, gv):
                if y:
                    v[g[y - 1]] = True
            yield v


def A(kind, *xs):
    """expected atom: A('eq',x,y) A('lt',x,y) A('true',x); A('ne0',x)"""
    if kind == 'ne0':
        return ('not', ('atom', canon(('eq', xs[0], ('c', 0)))))
    if kind == 'true':
        c = canon(('true', xs[0]))
        return ('not', ('atom', c)) if c[0] == 'eq' else ('atom', c)
    c = canon((kind,) + xs)
    if c[0] == 'const':
        return ('const', c[1])
    return ('atom', c)


def AND(*x):
    return ('and',) + x


def OR(*x):
    return ('or',) + x


def NOT(x):
    return ('not', x)


TRUE, FALSE = ('const', True), ('const', False)


def ev(e, env):
    k = e[0]
    if k == 'const':
        return e[1]
    if k == 'atom':
        return env[e[1]]
    if k == 'not':
        return not ev(e[1], env)
    if k == 'and':
        return all(ev(x, env) for x in e[1:])
    if k == 'or':
        return any(ev(x, env) for x in e[1:])
    raise Broken(k)


def atoms_in(e):
    if e[0] == 'atom':
        return {e[1]}
    if e[0] == 'const':
        return set()
    r = set()
    for x in e[1:]:
        r |= atoms_in(x)
    return r


def showatom(a):
    def sp(p):
        pos = [(m, c) for m, c in p if c > 0]
        neg = [(m, -c) for m, c in p if c < 0]

        def one(l):
            return ' + '.join((('%d*' % c if c != 1 or not m else '') + '*'.join(show(x) for x in m)) if m else str(c)
                              for m, c in l) or '0'
        return one(pos), one(neg)
    if a[0] == 'eq':
        x, y = sp(a[1])
        return '%s == %s' % (x, y)
    if a[0] in ('lt', 'slt'):
        def full(p):
            x, y = sp(p)
            return x if y == '0' else '%s - %s' % (x, y)
        return '%s < %s' % (full(a[1]), full(a[2]))
    return show(a[1])


def showenv(env):
    return ', '.join(('' if v else 'not ') + '(' + showatom(a) + ')' for a, v in env.items())


def differ(f, hit, expected, start=0, stop=(), ren=None, given=None, when=None):
    """None when, for every combination of predicate values (restricted by the
    formula `given`), hit(path, end) == expected; else a counterexample text.
    hit: set of instructions (reached) or callable(path, end)."""
    t = Table(f, start, stop, ren, atoms_in(expected) | (atoms_in(given) if given else set()))
    if hit == 'ret':
        h = None
    elif not callable(hit):
        bl = {i.blk.id for i in hit}
        h = lambda path, end: any(b in bl for b in path)        # noqa: E731
    else:
        h = hit
    for env, path, end in t.rows():
        if given and not ev(given, env):
            continue
        r = h(path, end) if h else t.retval(env, path)
        if when is not None and not when(path, end):
            continue
        if bool(r) != ev(expected, env):
            return '%s although %s' % ('happens' if r else 'does not happen', showenv(relevant(t, h, env, expected, given)))
    return None


def relevant(t, h, env, expected, given):
    """drop predicates that do not influence this counterexample"""
    keep = dict(env)
    for a in list(keep):
        e2 = dict(env)
        e2[a] = not e2[a]
        if given and not ev(given, e2):
            continue
        path, end = walk(t.f, t.start, lambda x: e2.get(x, False), t.cond, t.stop)
        if bool(h(path, end) if h else t.retval(e2, path)) != ev(expected, e2):
            del keep[a]
    return keep
