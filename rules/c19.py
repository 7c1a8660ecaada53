"""C19: every path of every information query, one path class per queried name: the copy to the caller's buffer happens only
after the caller's size was found large enough for exactly the bytes copied, the copied bytes come from a value of
exactly that size (the queried one, from a frozen table of names), the size reported is the same number, and a too small
buffer or an unknown name ends in CL_INVALID_VALUE with nothing written."""
import json
import os
from common import *
from flow import Flow
import rt

TECHNIQUE = 'path-wise value and size propagation over every query function, checked against a frozen table of queried names'
TUS = rt.TUS
NOTE = 'Device constants are checked for size and definedness, not for their value. The strings returned by Kernel and Program accessors are taken as given.'

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'info_table.json')
PV, PVS, PR, PN = ('arg', 'param_value'), ('arg', 'param_value_size'), ('arg', 'param_value_size_ret'), ('arg', 'param_name')


def queries(P):
    return [f for f in rt.entry_points(P) if {'param_name', 'param_value', 'param_value_size', 'param_value_size_ret'} <= {q['dn'] for q in f.params}]


def some(x):
    """a pointer that exists whenever the query succeeds"""
    return x[0] in ('s', 'g', 'alloca') or x[0] == 'call' and (x[1].endswith('::c_str') or '_M_data_ptr' in x[1]) or \
        x[0] == 'load' and x[1][0] == 'fld' and x[1][2] == 'properties' or x in (PV,)


def decide(extra=()):
    def d(c):
        if c[0] == 'icmp' and c[1] in ('eq', 'ne') and c[3] == C(0) and (some(c[2]) or c[2] in extra):
            return c[1] == 'ne'
        return None
    return d


def name_of(p):
    n = [a[2][1] for a, pol in p.lits if a[0] == 'eq' and pol and a[1] == PN and a[2][0] == 'c']
    return n[-1] if n else None


def names_of(f, p):
    """queried names whose switch cases lead to this path"""
    no = {a[2][1] for a, pol in p.lits if a[0] == 'eq' and not pol and a[1] == PN and a[2][0] == 'c'}
    yes = [{a[2][1]} for a, pol in p.lits if a[0] == 'eq' and pol and a[1] == PN and a[2][0] == 'c']
    r = set.intersection(*yes) if yes else None
    for b in p.blocks[:-1]:
        t = f.blocks[b].insts[-1] if f.blocks[b].insts else None
        if t is not None and t.op == 'switch' and nz(f.expr(t.args[0])) == PN:
            nxt = p.blocks[p.blocks.index(b) + 1]
            if nxt == t.d['default']:
                no |= {v for v, s in t.d['cases'] if s != nxt}
                continue
            vs = {v for v, s in t.d['cases'] if s == nxt}
            r = vs if r is None else r & vs
    return sorted((r or set()) - no)


def selects(f, p):
    """the path went through a case for some name"""
    if name_of(p) is not None:
        return True
    for b, nxt in zip(p.blocks, p.blocks[1:]):
        t = f.blocks[b].insts[-1] if f.blocks[b].insts else None
        if t is not None and t.op == 'switch' and nz(f.expr(t.args[0])) == PN and nxt != t.d['default']:
            return True
    return False


def written(p):
    """[(event, source expr or None, value or None, length)] of the writes to the caller's buffer"""
    r = []
    for e in p.events:
        if e[0] == 'copy' and rt.base(e[3][0]) == PV:
            r.append((e, e[3][1], None, nz(e[3][2])))
        if e[0] == 'store' and rt.base(e[2]) == PV:
            r.append((e, None, e[3], C(width(e[1]))))
    return r


def width(i):
    return i.d.get('size') or i.d.get('sz') or 8


def guarded(p, n):
    """the caller's size was found to be at least n"""
    for a, pol in p.lits:
        if a[0] == 'lt' and not pol and a[1] == PVS:
            m = nz(a[2])
            if m == n or m[0] == 'c' and n[0] == 'c' and m[1] >= n[1]:
                return True
        if a[0] == 'eq' and not pol and a[1] == PVS and a[2] == C(0) and n == C(1):
            return True
    return n == C(0)


def reported(p):
    v = None
    for e in p.stores():
        if e[2] == PR or e[2][0] == 'select' and PR in e[2]:
            v = e[3]
    return nz(v) if v is not None else None


def string(src, n):
    """n is the size of the string at src including its terminator"""
    if src[0] == 's':
        return n == C(len(src[1]) + 1) or n == ('add', ('call', 'strlen', src), C(1))
    if src[0] == 'call' and src[1].endswith('::c_str'):
        x = n[1] if n[0] == 'add' and n[2] == C(1) else None
        return x is not None and (x == ('call', 'strlen', src) or x[0] == 'call' and x[1].endswith(('::size', '::length')) and x[2] == src[2])
    return False


def array(P, src, n):
    if src[0] == 'g':
        g = P.globals.get(src[1])
        return bool(g) and n[0] == 'c' and g.get('size') in (None, n[1])
    if src[0] == 'call' and '_M_data_ptr' in src[1]:
        v = src[2]
        return mentions(n, lambda x: x == ('fld', v, '#1')) and mentions(n, lambda x: x == ('load', v)) or \
            n[0] == 'mul' and n[2] == C(8) and is_call(n[1], 'size') and n[1][2] == v
    if src[0] == 'load' and src[1][0] == 'fld' and src[1][2] == 'properties':
        return n == ('load', ('fld', src[1][1], 'szProperties'))
    return False


def filled(p, e, src):
    """a call before e was given the object at src to fill"""
    return any(x[0] == 'call' and src in x[3] for x in p.events[:p.events.index(e)])


def shown(P, p, w):
    """(size class, value text) of a write"""
    e, src, val, n = w
    if val is not None:
        return n[1], S(nz(val))
    if src[0] == 'alloca':
        if n[0] != 'c':
            return None, None
        if n[1] in (0,):
            return 0, ''
        v = p.at(e, src, min(n[1], 8))
        if n[1] > 8:
            every = [(a, p.at(e, a, 8)) for a in [src] + [('cgep', src, k) for k in range(8, n[1], 8)]]
            return n[1], 'set' if filled(p, e, src) or not any(x == ('load', a) for a, x in every) else 'undefined'
        if v == ('load', src) or v[0] == 'clob':
            return n[1], 'set' if filled(p, e, src) else 'undefined'
        return n[1], S(nz(v))
    if string(src, n):
        return 'string', S(src)
    if array(P, src, n):
        return 'array', S(src) if src[0] != 'g' else 'constants'
    return None, None


def collect(P, f):
    r = {}
    for p in rt.flow(f, decide=decide((PR, PV))):
        if p.end[0] == 'ret' and p.ret == C(0):
            for nm in names_of(f, p):
                r.setdefault(nm, []).append(p)
            if not selects(f, p):
                r.setdefault(None, []).append(p)
    return r


def run(P, R):
    R.rule('fits', 'the bytes written to the caller\'s buffer are covered by a preceding check of the caller\'s size', 120)
    R.rule('value', 'the bytes written are those of the queried value, whose size is the one the name prescribes', 120)
    R.rule('size', 'the size reported is the size of the value, whether or not it is written', 120)
    R.rule('small', 'a buffer that is too small ends in CL_INVALID_VALUE with nothing written', 14)
    R.rule('unknown', 'an unknown name ends in CL_INVALID_VALUE with nothing written', 14)
    R.rule('null', 'nothing is written through a null buffer or a null size result', 14)
    R.rule('list', 'list queries write at most the number of entries the caller asked for', 3)
    with open(TABLE) as h:
        table = json.load(h)
    fs = [f for f in queries(P) if f.qual in table]
    for f in fs:
        tab = table[f.qual]
        got = collect(P, f)
        unk = small = nul = None
        for nm, ps in sorted(got.items(), key=lambda x: (x[0] is None, x[0] or 0)):
            if nm is None or hex(nm) not in tab:
                unk = unk or 'accepts a name that is not defined (%s)' % (hex(nm) if nm is not None else 'any')
                continue
        for k in tab:
            ps = got.get(int(k, 16))
            key = '%s:%s' % (f.qual, k)
            if not ps:
                R.bad('value', key, floc(f), '%s does not answer %s' % (f.qual, k), f)
                continue
            want = tab[k]
            bad = fit = size = None
            for p in ps:
                ws = written(p)
                rep = reported(p)
                if want[0] == 'indirect':
                    if ws:
                        bad = 'overwrites the caller\'s list'
                    if rep != C(want[2]):
                        size = 'reports the size %s' % (S(rep) if rep else 'of something else')
                    x = p.calls(want[1])
                    if x and not guarded(p, C(want[2])):
                        fit = 'writes %s bytes unchecked' % want[2]
                    continue
                if len(ws) != 1:
                    bad = bad or 'writes the buffer %d times' % len(ws)
                    continue
                w = ws[0]
                n = w[3]
                if not guarded(p, n):
                    fit = fit or 'writes %s bytes without having found the buffer large enough (line %s)' % (S(n), w[0][1].line)
                sz, v = shown(P, p, w)
                if sz is None:
                    bad = bad or 'writes %s bytes of %s (line %s)' % (S(n), S(w[1]), w[0][1].line)
                elif sz != want[0]:
                    bad = bad or 'writes %s bytes where the value has %s' % (sz, want[0])
                elif v == 'undefined':
                    bad = bad or 'writes undefined bytes'
                elif want[1] is not None and v not in want[1]:
                    bad = bad or 'returns %s' % v
                if rep != n:
                    size = size or 'reports %s bytes but writes %s' % (S(rep) if rep else 'no', S(n))
            R.check(bad is None, 'value', key, floc(f), '%s(%s) %s' % (f.qual, k, bad), fn=f)
            R.check(fit is None, 'fits', key, floc(f), '%s(%s) %s' % (f.qual, k, fit), fn=f)
            R.check(size is None, 'size', key, floc(f), '%s(%s) %s' % (f.qual, k, size), fn=f)
        seen = False
        for p in rt.flow(f, decide=decide((PR, PV))):
            if p.end[0] != 'ret':
                continue
            tooless = [a for a, pol in p.lits if (a[0] == 'lt' and a[1] == PVS and pol) or (a[0] == 'eq' and a[1] == PVS and a[2] == C(0) and pol)]
            if tooless:
                seen = True
                if p.ret != C(-30):
                    small = small or 'returns %s for a buffer that is too small' % S(p.ret)
            if p.ret != C(0) and written(p):
                small = small or 'writes the buffer although it fails (line %s)' % written(p)[0][0][1].line
            if not selects(f, p) and any(a[0] == 'eq' and a[1] == PN for a, pol in p.lits) and p.ret != C(-30):
                unk = unk or 'returns %s for an unknown name' % S(p.ret)
        R.check(small is None and seen, 'small', f.qual, floc(f), '%s %s' % (f.qual, small or 'never finds the buffer too small'), fn=f)
        R.check(unk is None, 'unknown', f.qual, floc(f), '%s %s' % (f.qual, unk), fn=f)
        for null in (PV, PR):
            for p in rt.flow(f, leaf=rt.null(null), decide=decide_not(null)):
                for e in p.events:
                    a = e[2] if e[0] == 'store' else e[3][0] if e[0] == 'copy' else None
                    if a is not None and (a == C(0) or rt.base(a) in (null, C(0))) and not (e[0] == 'copy' and e[3][2] == C(0)):
                        nul = nul or 'writes through a null %s (line %s)' % (null[1], e[1].line)
                if null == PV and p.end[0] == 'ret' and p.ret == C(-30) and any(a[0] == 'lt' and a[1] == PVS for a, pol in p.lits):
                    nul = nul or 'rejects a query for the size alone'
        R.check(nul is None, 'null', f.qual, floc(f), '%s %s' % (f.qual, nul), fn=f)
    lists(P, R)


def decide_not(null):
    def d(c):
        if c[0] == 'icmp' and c[1] in ('eq', 'ne') and c[3] == C(0) and c[2] != null and some(c[2]):
            return c[1] == 'ne'
        return None
    return d


LISTS = {'clGetSupportedImageFormats': 'image_formats', 'clIcdGetPlatformIDsKHR': 'platforms', 'clGetDeviceIDs': 'devices'}


def lists(P, R):
    for n, a in LISTS.items():
        f = P.get(n)
        need(len(f) == 1, n)
        f = f[0]
        out = ('arg', a)
        bad = None
        k = 0
        for p in rt.flow(f):
            for e in p.events:
                x = e[2] if e[0] == 'store' else e[3][0] if e[0] == 'copy' else None
                if x is None or rt.base(x) != out:
                    continue
                k += 1
                at = C(0)
                y = x
                while y != out:
                    if y[0] in ('idx', 'ptr'):
                        at = nz(y[2])
                    y = y[1]
                r, vs, c = p.flow.key(x)
                if r == out and not vs:
                    at = C(c // 8)                  # handles and image formats have eight bytes
                ok = False
                for b, pol in p.lits:
                    if b[0] == 'lt' and nz(b[2]) == ('arg', 'num_entries') and pol and strip(nz(b[1])) == strip(at):
                        ok = True
                    if b[0] == 'lt' and nz(b[1]) == ('arg', 'num_entries') and not pol and at[0] == 'c' and nz(b[2])[0] == 'c' and nz(b[2])[1] > at[1]:
                        ok = True
                    if b[0] == 'eq' and nz(b[1]) == ('arg', 'num_entries') and b[2] == C(0) and not pol and at == C(0):
                        ok = True
                if not ok:
                    bad = bad or 'writes entry %s unchecked (line %s)' % (S(at), e[1].line)
        R.check(bad is None and k, 'list', n, floc(f), '%s %s' % (n, bad or 'writes no entry'), fn=f)
