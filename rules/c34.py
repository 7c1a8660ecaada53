"""C34: the argument parser of the simulator is followed, by constant propagation through its strings and streams, for argument headers
covering every type name, initialiser, flag and address space; each must reach the parse function of its own type with the
declared size, the store of exactly those bytes, and the argument and dump records it describes, or the rejection the format
prescribes.  The per-type instantiations (values, fill, range, dump) are followed for small element counts: element count,
element stores, range checks of 8-bit values, digits and signedness of printed values.  Every rejection is caught and
reported with the line and the item being parsed."""
import re
import build
from common import *
from flow import Flow
from strmodel import Strings, lit

TECHNIQUE = 'constant propagation over headers (string/stream value domain) and per-type instantiation checks'
TUS = ['Simulation']
OPTS = ()
NOTE = ('Number parsing and printing by the C++ library is trusted. Floating-point values dumped with "hex" are not examined '
        '(the format does not define them).')
ASSUMPTIONS = ['std::istream and std::string behave as the standard says', 'Memory::allocateBuffer/store: C02, C13']
GLOBAL, LOCAL, CONST, PRIV = 0x119B, 0x119C, 0x119D, 0x119E
SP = {GLOBAL: 'global', LOCAL: 'local', CONST: 'constant', PRIV: 'value'}
T = {'char': ('signed char', 1), 'uchar': ('unsigned char', 1), 'short': ('short', 2), 'ushort': ('unsigned short', 2), 'int': ('int', 4),
     'uint': ('unsigned int', 4), 'long': ('long', 8), 'ulong': ('unsigned long', 8), 'float': ('float', 4), 'double': ('double', 8)}
RO, WO = 4, 2                                       # CL_MEM_READ_ONLY, CL_MEM_WRITE_ONLY


def parser(header, space, argtype, argsize):
    def hook(fl, st, i, c, a, m):
        if c is None:
            return None
        s = short(c)
        if s == 'getArgumentAddressQualifier':
            return C(space)
        if s == 'getArgumentSize':
            return C(argsize)
        if s == 'setPointer':
            return True                             # writes through the data pointer only
        if c.startswith('Simulation::get<char'):
            st.mem.append(('st', fl.key(a[1]), 1, C(ord('<'))))
            return True
        if s == 'getline' and len(a) == 2:
            m.set(fl, st, a[1], header + '>')
            return True
        if s in ('starts_with', 'startswith', 'consume_front') and not m.get(fl, st, a[0]):
            e = [x for x in st.events if x[0] == 'call' and short(x[2]) == 'StringRef' and lit(x[3][1]) is not None]
            return C(int(argtype.startswith(lit(e[-1][3][1])))) if e else None
        return None
    M = Strings(hook)
    return dict(effects=M, leaf=M.leaf, limit=4000)


def outcomes(f, header, space, argtype='int', argsize=8):
    """('throw', path) or ('ok', path) of every path (allocation failures aside)"""
    out = []
    for p in Flow(f, **parser(header, space, argtype, argsize)).paths():
        if p.end[0] == 'iter':
            out.append(('lost', p))
            continue
        failed = any(a[0] == 'eq' and C(0) in a[1:] and pol and any(is_call(strip(x), 'allocateBuffer') for x in a[1:]) for a, pol in p.lits)
        if failed and p.end[0] == 'unreachable':
            continue
        out.append(('ok' if p.end[0] == 'ret' else 'throw', p))
    return out


DEC, OCT, HEX = 2, 64, 8                            # std::ios_base number bases
BASE = DEC | OCT | HEX


def stream(e):
    """the stream object an expression designates"""
    while e[0] in ('add', 'ptr', 'cgep', 'ptrto', 'call') and not (e[0] == 'call' and len(e) < 3):
        e = e[2] if e[0] == 'call' else e[1]
    return e


def bits(e):
    e = strip(e)
    if e[0] == 'c':
        return e[1]
    if e[0] == 'call' and e[1].endswith('operator|') and len(e) == 4:
        a, b = bits(e[2]), bits(e[3])
        return None if a is None or b is None else a | b
    return None


def bases(p, reads, line=None):
    """number base flags of the stream each of the reads (or prints) uses, and those of the line buffer (or `line`) at the end (None: unknown)"""
    now, seen, at = {}, {}, []
    line = line or ('fld', THIS, 'm_lineBuffer')
    get = lambda o: now.get(o, DEC)
    for e in p.events:
        if e[0] != 'call':
            continue
        c, a = e[2] or '', e[3]
        s = short(c)
        o = stream(a[0]) if a else None
        if any(e is r for r in reads):
            at.append(get(line if inst(c)[0] == 'parseArgumentData' else o if s == 'operator<<' else stream(a[3])))
        elif 'ios' not in c and 'istream' not in c and not c.startswith('std::'):
            continue
        elif s == 'flags':
            if len(a) == 1:
                seen[('call', c) + tuple(a)] = get(o)
            else:
                now[o] = seen.get(strip(a[1]), bits(a[1]))
        elif s in ('setf', 'unsetf') and get(o) is not None:
            b, m = bits(a[1]), bits(a[2]) if len(a) > 2 else 0
            now[o] = None if b is None or m is None else (get(o) & ~m) | (b & m if len(a) > 2 else b) if s == 'setf' else get(o) & ~b
        elif s == 'copyfmt':
            now[o] = get(stream(a[1]))
        elif s in ('hex', 'dec', 'oct') or s in ('operator>>', 'operator<<') and a[1][0] == 'fn' and a[1][1] in ('std::hex', 'std::dec', 'std::oct'):
            now[o] = {'hex': HEX, 'dec': DEC, 'oct': OCT}[s if not s.startswith('op') else a[1][1][5:]]
    return [None if x is None else x & BASE for x in at], get(line)


def inst(name):
    m = re.match(r'Simulation::(\w+)<(.*)>$', name or '')
    return (m.group(1), m.group(2)) if m else (None, None)


def accepted(f, p, space, want, size, kind, argsize, flags=0, dump=None, hexa=False):
    """what is wrong with an accepted argument"""
    calls = [(inst(e[2]), e) for e in p.events if e[0] == 'call' and inst(e[2])[0] in ('parseFill', 'parseRange', 'parseArgumentData')]
    fn = {'data': 'parseArgumentData', 'fill': 'parseFill', 'range': 'parseRange'}.get(kind)
    if space == LOCAL and calls and kind == 'data':
        return 'a local argument is given data'
    data = None
    if fn is None or space == LOCAL:
        if calls:
            return 'data is parsed although none is declared'
    else:
        if len(calls) != 1 or calls[0][0] != (fn, want):
            return 'is read by %s' % (', '.join('%s<%s>' % x[0] for x in calls) or 'nothing')
        a = calls[0][1][3]
        data = strip(a[1])
        if strip(a[2]) != C(size):
            return '%s bytes are read instead of %d' % (show(a[2])[:60], size)
        if not is_call(data, 'operator new[]') or strip(data[2]) != C(size):
            return 'the data is read into an allocation of another size'
        at, _ = bases(p, [calls[0][1]])
        if at != [HEX if hexa else DEC]:
            return 'the values are %s as hexadecimal' % ('not read' if hexa else 'read')
    if bases(p, [])[1] != DEC:
        return 'the number base is not reset for the next argument'
    al = p.calls('Memory::allocateBuffer')
    stv = p.calls('Memory::store')
    sets = p.calls('Kernel::setArgument')
    if len(sets) != 1 or nz(sets[0][3][1]) != ('arg', pnames(f)[1]):
        return 'the argument is not set once'
    v = sets[0][3][2:4]
    hd = strip(v[0])
    sz = hd[1] if hd[0] == 'c' else None
    if sz is None or (sz & 0xffffffff, sz >> 32) != ((size if space == LOCAL else argsize) & 0xffffffff, 1):
        return 'the argument is set with another size'
    if space in (LOCAL, PRIV) and (al or stv):
        return 'a buffer is allocated for it'
    if space == LOCAL:
        return None if strip(v[1]) == C(0) else 'a local argument is given data'
    if space == PRIV:
        if kind == 'none':
            return None
        return None if strip(v[1]) == data else 'the value set is not the data read'
    if kind == 'null':
        z = [e for e in p.events if e[0] == 'set' and strip(e[3][0]) == strip(v[1]) and e[3][1] == C(0) and strip(e[3][2]) == C(argsize)]
        if al or not z:
            return 'a null argument is not zero'
        return None
    if len(al) != 1 or strip(al[0][3][1]) != C(size):
        return 'the buffer is not allocated with the declared size'
    if strip(al[0][3][2]) != C(flags):
        return 'the buffer is allocated with flags %s instead of %d' % (show(al[0][3][2]), flags)
    addr = ('call', al[0][2]) + tuple(al[0][3])
    if kind == 'noinit':
        if stv:
            return 'an uninitialised buffer is written'
    else:
        if len(stv) != 1:
            return 'the data is not stored'
        a = stv[0][3]
        if strip(a[1]) != data or strip(a[2]) != addr or strip(a[3]) != C(size):
            return 'the data stored is not the data read (or not all of it)'
        if p.events.index(stv[0]) < p.events.index(calls[0][1]):
            return 'the data is stored before it is read'
    sp = p.calls('TypedValue::setPointer')
    if len(sp) != 1 or strip(sp[0][3][1]) != addr:
        return 'the argument does not point at its buffer'
    d = [e for e in p.events if e[0] == 'call' and short(e[2]) in ('push_back', 'emplace_back') and nz(e[3][0]) == ('fld', THIS, 'm_dumpArguments')]
    if bool(d) != bool(dump):
        return 'it is %s' % ('not dumped' if dump else 'dumped although not asked for')
    if d:
        x = d[0][3][1]
        got = (strip(p.at(d[0], x, 8)), strip(p.at(d[0], ('fld', x, 'size'), 8)), strip(p.at(d[0], ('fld', x, 'type'), 4)), strip(p.at(d[0], ('fld', x, 'hex'), 1)))
        if got[:2] != (addr, C(size)):
            return 'the dump record has another address or size'
        if got[2] != C(dump):
            return 'the dump record has type %s' % show(got[2])[:40]
        if got[3] not in (C(int(hexa)), C(-int(hexa))):
            return 'the dump record %s hexadecimal' % ('is not' if hexa else 'is')
    return None


def header(P, R):
    R.rule('accept', 'a header is carried out as written: its own type\'s reader, the declared size, the flags, the buffer and the dump', 80)
    R.rule('reject', 'a header the format does not allow is rejected', 20)
    f = P.get('Simulation::parseArgument')[0]
    enum = {k: enum_val(P, 'Simulation::ArgDataType', 'TYPE_' + k.upper()) for k in T}
    if None in enum.values():
        enum = {k: n + 1 for n, k in enumerate(T)}

    def ok(h, space, t, size, kind, argtype='int', argsize=None, **kw):
        argsize = (size if space == PRIV else 8) if argsize is None else argsize
        msg, n, p = None, 0, None
        for o, p in outcomes(f, h, space, argtype, argsize):
            if o == 'throw':
                msg = msg or 'it is rejected'
            elif o == 'lost':
                msg = msg or 'the header loop does not end with the header'
            else:
                n += 1
                msg = msg or accepted(f, p, space, T[t][0] if t else None, size, kind, argsize, **kw)
        R.check(msg is None and n > 0, 'accept', '%s:%s:%s' % (SP[space], argtype, h), floc(f), '<%s> for a %s argument of type %s: %s' % (
            h, SP[space], argtype, msg or 'no path'), fn=f)

    def no(h, space, why, argtype='int', argsize=4):
        os = outcomes(f, h, space, argtype, argsize)
        bad = [p for o, p in os if o != 'throw']
        R.check(bool(os) and not bad, 'reject', '%s:%s' % (SP[space], h), floc(f), '<%s> for a %s argument is accepted although %s' % (h, SP[space], why), fn=f)

    for t, (c, n) in T.items():
        s = 'size=%d' % (2 * n)
        for sp in (GLOBAL, CONST):
            ok('%s %s' % (s, t), sp, t, 2 * n, 'data', argtype='float' if t != 'float' else 'int')
            ok('%s %s fill=3' % (t, s), sp, t, 2 * n, 'fill', argtype='float' if t != 'float' else 'int')
            ok('%s range=1:1:2 %s' % (s, t), sp, t, 2 * n, 'range', argtype='float' if t != 'float' else 'int')
        ok('%s %s dump' % (s, t), GLOBAL, t, 2 * n, 'data', dump=enum[t])
        ok('%s %s' % (s, t), PRIV, t, 2 * n, 'data')
        ok('%s %s fill=1' % (s, t), PRIV, t, 2 * n, 'fill')
        ok(s, GLOBAL, t, 2 * n, 'data', argtype=t + '*')
        ok(s, PRIV, t, 2 * n, 'data', argtype=t + '2')
        if n > 1:
            no('size=%d %s' % (2 * n + 1, t), GLOBAL, 'its size is not a multiple of the element size')
            no('size=%d' % (n // 2), GLOBAL, 'its size is not a multiple of the element size', argtype=t + '*')
    ok('size=5', GLOBAL, 'uchar', 5, 'data', argtype='void*')
    ok('size=8 noinit', GLOBAL, 'int', 8, 'noinit')
    ok('size=8 noinit', CONST, 'int', 8, 'noinit')
    ok('null', GLOBAL, 'int', 0, 'null')
    ok('size=64', LOCAL, 'int', 64, 'data')
    ok('size=12 ro', GLOBAL, 'int', 12, 'data', flags=RO)
    ok('size=12 wo dump', GLOBAL, 'int', 12, 'data', flags=WO, dump=enum['int'])
    ok('size=12 hex dump fill=ff', GLOBAL, 'int', 12, 'fill', dump=enum['int'], hexa=True)
    ok('size=12 hex', GLOBAL, 'int', 12, 'data', hexa=True)
    ok('hex size=10 short', GLOBAL, 'short', 10, 'data', hexa=True)
    ok('size=8 hex', PRIV, 'long', 8, 'data', argtype='long', hexa=True)
    ok('size=12 hex range=a:1:c', GLOBAL, 'int', 12, 'range', hexa=True)
    ok('dump size=12 float hex noinit', GLOBAL, 'float', 12, 'noinit', dump=enum['float'], hexa=True)
    for h, sp, why in (
            ('', GLOBAL, 'it has no size'), ('int', PRIV, 'it has no size'), ('size=8 int float', GLOBAL, 'it has two types'),
            ('size=8 bogus', GLOBAL, 'a token is unknown'), ('size=-4', GLOBAL, 'its size is negative'), ('size=-4', LOCAL, 'its size is negative'),
            ('size=', GLOBAL, 'its size is missing'), ('size 8', GLOBAL, 'its size is missing'), ('size=8x', GLOBAL, 'its size is not a number'),
            ('size=x', GLOBAL, 'its size is not a number'), ('size=8 fill', GLOBAL, 'the fill value is missing'),
            ('size=8 range', GLOBAL, 'the range is missing'), ('size=8 fill=1 range=1:1:2', GLOBAL, 'it has two initialisers'),
            ('size=8 fill=1 noinit', GLOBAL, 'it has two initialisers'), ('size=8 range=1:1:2 noinit', GLOBAL, 'it has two initialisers'),
            ('size=8 null', GLOBAL, 'null takes nothing else'), ('null dump', GLOBAL, 'null takes nothing else'), ('null fill=1', GLOBAL, 'null takes nothing else'),
            ('null', PRIV, 'it is no buffer'), ('null', LOCAL, 'it is no buffer'), ('size=4 noinit', PRIV, 'it is no buffer'),
            ('size=4 noinit', LOCAL, 'it is no buffer'), ('size=4 dump', PRIV, 'it is no buffer'), ('size=4 dump', LOCAL, 'it is no buffer'),
            ('size=8 ro wo', GLOBAL, 'read-only and write-only exclude each other'), ('size=8 wo ro', GLOBAL, 'read-only and write-only exclude each other'),
            ('size=4 ro', PRIV, 'it is no buffer'), ('size=4 wo', LOCAL, 'it is no buffer'),
            ('size=8', PRIV, 'the kernel argument has 4 bytes'), ('size=2 short', PRIV, 'the kernel argument has 4 bytes')):
        no(h, sp, why)
    no('size=8', GLOBAL, 'the type is unknown', argtype='struct S*')


# ------------------------------------------------------------------ per type
def fpn(e):
    e = strip(e)
    if e[0] == 'c':
        return e[1]
    if e[0] == 'f':
        try:
            return float(e[1])
        except (TypeError, ValueError):
            return None
    return None


def fpleaf(e):
    """constant folding of floating-point expressions over small integers"""
    if e[0] in ('sitofp', 'uitofp', 'fpext', 'fptrunc', 'fptoui', 'fptosi'):
        v = fpn(e[-1])
        return None if v is None else ('c', int(v)) if v == int(v) and e[0] in ('fptoui', 'fptosi') else ('f', v)
    if e[0] in ('fadd', 'fsub', 'fmul', 'fdiv') and len(e) == 3:
        a, b = fpn(e[1]), fpn(e[2])
        if a is None or b is None or e[0] == 'fdiv' and b == 0:
            return None
        return ('f', float({'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[e[0]]()))
    if e[0] == 'call' and re.search(r'(^|::|llvm\.)(ceil|floor|trunc|round)[fl]?(\.f\d+)?$', e[1]):
        v = fpn(e[2])
        if v is None:
            return None
        import math
        return ('f', float({'c': math.ceil, 'f': math.floor, 't': math.trunc, 'r': round}[re.search(r'(ceil|floor|trunc|round)', e[1]).group()[0]](v)))
    return None


class FpFlow(Flow):
    """Flow that also folds floating-point arithmetic on known values"""

    def compute(self, st, i):
        r = Flow.compute(self, st, i)
        if r[0] in ('sitofp', 'uitofp', 'fpext', 'fptrunc', 'fptoui', 'fptosi', 'fadd', 'fsub', 'fmul', 'fdiv', 'call'):
            v = fpleaf(r)
            if v is not None:
                return v
        return r


def fpcmp(p, a, b):
    if len(p) == 3 and p[0] in 'ou':
        x, y = fpn(a), fpn(b)
        if x is not None and y is not None:
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(p[1:])
    return None


def sized(n, extra=None):
    def leaf(e):
        if e == ('arg', 'size') or e == ('load', ('arg', 'size')):
            return n
        if e[0] == 'load' and e[1] == ('fld', ('arg', 'arg'), 'size'):
            return n
        return extra(e) if extra else None
    return leaf


def reader(calls):
    """effects: the k-th readValue returns calls[k]; fail() false, eof() true, ':' between"""
    def eff(fl, st, i, c, a):
        if c is None:
            return None
        s = short(c)
        if s == 'readValue' or c.startswith('readValue<'):
            k = sum(1 for x in st.events if x[0] == 'call' and x[2] == c)
            return C(calls[k]) if k < len(calls) else None
        if s == 'operator>>' and len(a) == 2:
            st.mem.append(('st', fl.key(a[1]), 1, C(ord(':'))))
            return True
        if s == 'fail':
            return C(0)
        if s == 'eof':
            return C(1)
        return fpleaf(('call', c) + tuple(a))
    return eff


def written(p, base, n):
    """{index: value} of the elements written to `base`"""
    got = {}
    r0, v0, c0 = p.flow.key(base)
    for e in p.events:
        if e[0] != 'store':
            continue
        r, v, c = p.flow.key(e[2])
        if r != r0:
            continue
        if v != v0 or (c - c0) % n:
            return None
        got[(c - c0) // n] = e[3]
    return got


def reader_of(P, R, name, t):
    f = P.get('Simulation::%s<%s>' % (name, T[t][0]))
    if not f:
        R.bad('values', name + ':' + t, floc(P.get('Simulation::parseArgument')[0]), '%s data is never read with its own type (%s)' % (t, name))
    return f[0] if f else None


def values(P, R):
    R.rule('fill', 'filling stores the given value in every element of the declared size and nothing else', 10)
    R.rule('range', 'a range stores start, start+inc, ... end, exactly when that many elements are declared', 10)
    R.rule('values', 'as many values are read as elements are declared, and all of them are the data', 10)
    R.rule('read', 'a value is read with its own type; an 8-bit value out of range is rejected', 18)
    for t, (c, n) in T.items():
        f = reader_of(P, R, 'parseFill', t)
        if f is None:
            continue
        res = ('arg', pnames(f)[1])
        msg, k = None, 0
        for p in Flow(f, leaf=sized(3 * n), effects=reader([41])).paths():
            if p.end[0] != 'ret':
                msg = msg or 'a valid fill value is rejected'
                continue
            k += 1
            w = written(p, res, n)
            if w is None or sorted(w) != [0, 1, 2] or any(strip(v) != C(41) for v in w.values()):
                msg = 'elements %s are filled' % sorted(w or {})
        if msg is None:
            msg = stream_checked(f, sized(3 * n))
        R.check(msg is None and k > 0, 'fill', t, floc(f), 'fill of %s: %s' % (t, msg or 'never returns'), fn=f)
        f = reader_of(P, R, 'parseRange', t)
        if f is None:
            continue
        res = ('arg', pnames(f)[1])
        msg = None
        for vals, size, want in (([2, 3, 8], 3 * n, [2, 5, 8]), ([2, 3, 8], 2 * n, None), ([2, 3, 8], 4 * n, None), ([2, 3, 7], 3 * n, None),
                                 ([2, 3, 7], 2 * n, None), ([5, 1, 5], n, [5]), ([1, 1, 4], 4 * n, [1, 2, 3, 4])):
            k = 0
            for p in FpFlow(f, leaf=sized(size), effects=reader(vals), cmp=fpcmp).paths():
                k += 1
                if p.end[0] == 'iter':
                    msg = msg or 'the elements written are not those of the range'
                elif (p.end[0] == 'ret') != (want is not None):
                    msg = msg or '%s:%s:%s for %d elements is %s' % (*vals, size // n, 'rejected' if want else 'accepted')
                elif want is not None:
                    w = written(p, res, n)
                    if w is None or [fpn(w.get(x)) if w.get(x) else None for x in sorted(w)] != want or sorted(w) != list(range(len(want))):
                        msg = msg or '%s:%s:%s gives %s' % (*vals, [show(w[x])[:40] for x in sorted(w)] if w else w)
            if not k:
                msg = 'no path'
        if msg is None:
            msg = stream_checked(f, sized(3 * n), colon=True)
        R.check(msg is None, 'range', t, floc(f), 'range of %s: %s' % (t, msg), fn=f)
        # values
        f = reader_of(P, R, 'parseArgumentData', t)
        if f is None:
            continue
        msg, k = None, 0
        for val, good in ([(5, True)] if n > 1 else [(5, True), (-128, t == 'char'), (-129, False), (127, True), (128, t != 'char'), (255, t != 'char'), (256, False), (-1, t == 'char')]):
            for p in Flow(f, leaf=sized(3 * n), effects=getter(val)).paths():
                if p.end[0] == 'unreachable' and not good:
                    k += 1
                    continue
                if (p.end[0] == 'ret') != good:
                    msg = msg or 'the value %d is %s' % (val, 'accepted' if not good else 'not read')
                    continue
                k += 1
                g = [e for e in p.events if e[0] == 'call' and inst(e[2])[0] == 'get']
                pb = [e for e in p.events if e[0] == 'call' and short(e[2]) in ('push_back', 'emplace_back')]
                w = None
                if not pb:
                    w = written(p, ('arg', pnames(f)[1]), n)
                if len(g) != 3 or (len(pb) != 3 if w is None or pb else sorted(w) != [0, 1, 2]):
                    msg = msg or '%d values are read for 3 elements' % len(g)
                    continue
                if n > 1 and any(inst(e[2])[1] != c for e in g) or n == 1 and any(inst(e[2])[1] in ('char', 'signed char', 'unsigned char') for e in g):
                    msg = msg or 'values are read as %s' % inst(g[0][2])[1]
                for e in pb:
                    v = strip(p.at(e, e[3][1], n)) if e[3][1][0] in ('alloca', 'fld') else strip(e[3][1])
                    if v[0] == 'c' and (v[1] - val) % (1 << 8 * n) or v[0] != 'c':
                        msg = msg or 'what is kept is not the value read'
                if pb:
                    cp = [e for e in p.events if e[0] in ('copy', 'set') and nz(e[3][0]) == ('arg', pnames(f)[1])]
                    if len(cp) != 1 or strip(cp[0][3][2]) != C(3 * n):
                        msg = msg or 'not all the data is handed back'
        R.check(msg is None and k > 0, 'values', t, floc(f), 'values of %s: %s' % (t, msg or 'never returns'), fn=f)
        # one value from a fill or range
        f = P.one('readValue<%s>' % c)
        for val, good in ([(5, True)] if n > 1 else [(5, True), (-128, t == 'char'), (-129, False), (127, True), (128, t != 'char'), (255, t != 'char'), (256, False), (-1, t == 'char')]):
            msg, k = None, 0
            for p in Flow(f, effects=getter(val)).paths():
                k += 1
                x = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'operator>>']
                if (p.end[0] == 'ret') != good:
                    msg = 'is %s' % ('accepted' if not good else 'rejected')
                elif good and (strip(p.ret)[0] != 'c' or (strip(p.ret)[1] - val) % (1 << 8 * n)):
                    msg = 'becomes %s' % show(p.ret)
                elif len(x) != 1 or x[0][1].callee_link and n > 1 and letter(x[0][1]) != {'short': 's', 'unsigned short': 't', 'int': 'i', 'unsigned int': 'j',
                                                                                         'long': 'l', 'unsigned long': 'm', 'float': 'f', 'double': 'd'}[c]:
                    msg = 'is read as another type'
                elif n == 1 and letter(x[0][1]) in ('h', 'a', 'c'):
                    msg = 'is read as a character'
            R.check(msg is None and k > 0, 'read', '%s:%d' % (t, val), floc(f), 'the %s value %d %s' % (t, val, msg or 'is never read'), fn=f)


def letter(i):
    """type letter of the operand of an istream/ostream operator"""
    m = re.match(r'_ZNS[io](?:rs|ls)E(?:RR?)?([a-z])$', i.callee_link or '') or re.match(r'_ZSt(?:rs|ls)I.*E[RS].*([a-z])$', i.callee_link or '')
    return m.group(1) if m else None


def getter(val):
    def eff(fl, st, i, c, a):
        if c is None:
            return None
        s = short(c)
        if inst(c)[0] == 'get' or s == 'operator>>' and len(a) == 2 and a[1][0] == 'alloca':
            t = inst(c)[1]
            w = {'int': 4, 'unsigned int': 4, 'float': 4, 'short': 2, 'unsigned short': 2}.get(t) or {'i': 4, 'j': 4, 'f': 4, 's': 2, 't': 2}.get(letter(i), 8)
            st.mem.append(('st', fl.key(a[1]), w, C(val)))
            return ('call', c) + tuple(a)
        return None
    return eff


def stream_checked(f, leaf, colon=False):
    """every path that returns found the stream neither failed nor with input left over"""
    for p in FpFlow(f, leaf=leaf, cmp=fpcmp, fresh=re.compile(r'::(fail|eof)$'), limit=6000).paths():
        if p.end[0] != 'ret':
            continue
        rd = [k for k, e in enumerate(p.events) if e[0] == 'call' and (e[2].startswith('readValue<') or short(e[2]) == 'operator>>')]
        if not rd:
            return 'nothing is read'
        after = {}
        for e in p.events[rd[-1] + 1:]:
            if e[0] == 'call' and short(e[2]) in ('fail', 'eof', 'good', 'operator!', 'operator bool'):
                x = ('call', e[2]) + tuple(e[3])
                pol = [q for a, q in p.lits if a[0] == 'true' and a[1][:len(x)] == x]
                after[short(e[2])] = after.get(short(e[2]), []) + pol
        if not after.get('eof') or True not in after['eof']:
            return 'input left over after the value is not rejected'
        if not (False in after.get('fail', []) or True in after.get('operator bool', []) or False in after.get('operator!', [])):
            return 'a value that cannot be read is not rejected'
    return None


# ------------------------------------------------------------------ dump
def dump(P, R):
    R.rule('print', 'every element is printed once, under its index, with the value and (in hexadecimal) exactly the digits of its type', 18)
    R.rule('dump', 'a dumped argument is printed with the type it was declared with', 10)
    for t, (c, n) in T.items():
        f = P.get('Simulation::dumpArgument<%s>' % c)
        if not f:
            R.bad('print', t, floc(P.get('Simulation::run')[0]), 'no %s argument is ever dumped with its own type' % t)
            continue
        f = f[0]
        for hexa in (False, True):
            if hexa and t in ('float', 'double'):
                continue

            def extra(e):
                if e[0] == 'load' and e[1] == ('fld', ('arg', 'arg'), 'hex'):
                    return int(hexa)
                return None
            msg, k = None, 0
            for p in Flow(f, leaf=sized(2 * n, extra)).paths():
                if p.end[0] != 'ret':
                    msg = msg or 'the elements are not followed to the end'
                    continue
                k += 1
                msg = msg or printed(p, t, n, hexa)
            R.check(msg is None and k > 0, 'print', t + (':hex' if hexa else ''), floc(f), 'dump of %s%s: %s' % (
                t, ' in hexadecimal' if hexa else '', msg or 'never returns'), fn=f)
    f = P.get('Simulation::run')[0]
    enum = {k: enum_val(P, 'Simulation::ArgDataType', 'TYPE_' + k.upper()) for k in T}
    if None in enum.values():
        enum = {k: n + 1 for n, k in enumerate(T)}
    for t, (c, n) in T.items():
        def leaf(e):
            if e[0] == 'load' and e[1][0] == 'fld' and e[1][2] == 'type':
                return enum[t]
            return None
        msg, k = None, 0
        for p in Flow(f, leaf=leaf).paths():
            d = [e for e in p.events if e[0] == 'call' and inst(e[2])[0] == 'dumpArgument']
            if p.end[0] == 'unreachable':
                msg = 'it is rejected'
            if p.end[0] != 'iter' or not any(e[0] == 'call' for e in p.events):
                continue
            k += 1
            if len(d) != 1 or inst(d[0][2])[1] != c:
                msg = 'it is printed by %s' % (', '.join('dumpArgument<%s>' % inst(e[2])[1] for e in d) or 'nothing')
        R.check(msg is None and k > 0, 'dump', t, floc(f), 'a dumped %s argument: %s' % (t, msg or 'is never printed'), fn=f)
    d = [c for c in f.calls if inst(c.callee)[0] == 'dumpArgument']
    lp = [l for l in f.loops if any(c.blk.id in l[1] for c in d)]
    ok = len(lp) == 1 and walks(f, lp[0], ('fld', THIS, 'm_dumpArguments'))
    k = [c for c in f.calls if (c.callee or '').endswith('KernelInvocation::run')]
    ok2 = len(k) == 1 and d and all(f.dominates(k[0], c) for c in d)
    R.check(ok, 'dump', 'all', floc(f), 'not every dumped argument is printed', fn=f)
    R.check(bool(ok2), 'dump', 'after', floc(f), 'arguments are printed before the kernel ran', fn=f)


cout = ('g', '_ZSt4cout')


def printed(p, t, n, hexa):
    ld = p.calls('Memory::load')
    if len(ld) != 1:
        return 'the data is not read back once'
    a = ld[0][3]
    buf = strip(a[1])
    if nz(a[2]) not in (('load', ('arg', 'arg')), fld(('arg', 'arg'), 'address')) or strip(a[3]) != C(2 * n):
        return 'the data read back is not that of the argument'
    out = []
    for e in p.events:
        if e[0] != 'call' or short(e[2]) != 'operator<<':
            continue
        v = e[3][1]
        if mentions(v, lambda x: x == buf or x[0] == 'load' and mentions(x, lambda y: y == buf)) and e[3][0] != v:
            out.append((e, v))
    if p.events.index(ld[0]) > (p.events.index(out[0][0]) if out else 1 << 30):
        return 'elements are printed before they are read'
    if len(out) != 2:
        return '%d values are printed for 2 elements' % len(out)
    seen = []
    signed = t in ('char', 'short', 'int', 'long')
    for e, v in out:
        ext = None
        w = v
        while w[0] in ('zext', 'sext', 'trunc', 'fpext') or w[0] == 'and' and any(x == C((1 << 8 * n) - 1) for x in w[1:]):
            if w[0] == 'and':
                ext = 'zext'
                w = [x for x in w[1:] if x != C((1 << 8 * n) - 1)][0]
                while w[0] in ('zext', 'sext'):
                    w = w[-1]
                continue
            if w[0] == 'trunc':
                return 'values are cut off'
            ext = ext or w[0]
            w = w[-1]
        if w[0] != 'load':
            return 'what is printed is not an element'
        x = strip(w[1])
        k = 0 if x == buf else strip(x[2])[1] if x[0] in ('ptr', 'idx') and strip(x[1]) == buf and strip(x[2])[0] == 'c' and (len(x) < 4 or x[3] in (None, n)) else None
        seen.append(k)
        L = letter(e[1]) or (e[1].callee_link or '')[-1]
        wl = {'s': 2, 't': 2, 'i': 4, 'j': 4, 'l': 8, 'm': 8, 'x': 8, 'y': 8, 'f': 4, 'd': 8, 'c': 1, 'a': 1, 'h': 1}.get(L)
        if t in ('float', 'double'):
            if L not in 'fd' or L == 'f' and t == 'double':
                return 'values are printed as another type'
            continue
        if L in ('f', 'd', 'c', 'a', 'h') or wl is None or wl < n:
            return 'values are printed as %s' % ('characters' if L in 'cah' else 'another type')
        if hexa:
            if wl > n and ext != 'zext':
                return 'a negative value is printed with more digits than its type has'
        elif signed and not (L in 'silx' and (ext == 'sext' or ext is None and wl == n)):
            return 'values are printed unsigned'
        elif not signed and not (ext == 'zext' or ext is None and wl == n and L in 'tjmy'):
            return 'values are printed signed'
    if seen != [0, 1]:
        return 'elements %s are printed' % seen
    idx = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'operator<<' and strip(e[3][1])[0] == 'c' and letter(e[1]) in tuple('mlijxy')]
    if [strip(e[3][1])[1] for e in idx][:2] != [0, 1]:
        return 'elements are not printed under their index'
    ws = [strip(e[3][0]) for e in p.events if e[0] == 'call' and short(e[2]) == 'setw']
    fs = [strip(e[3][0]) for e in p.events if e[0] == 'call' and short(e[2]) == 'setfill']
    at, end = bases(p, [e for e, _ in out] + idx[:2], cout)
    k = [(HEX if hexa else DEC) if any(e is r for r, _ in out) else DEC for e in p.events if any(e is r for r, _ in out) or any(e is r for r in idx[:2])]
    if hexa and at != k and HEX not in at or not hexa and HEX in at:
        return 'values are printed in %s' % ('decimal' if hexa else 'hexadecimal')
    if at != k or end != DEC:
        return 'an index, or what follows, is printed in another number base'
    if hexa and (ws != [C(2 * n)] * 2 or not fs or any(x != C(48) for x in fs)):
        return 'values are printed with %s digits instead of %d' % (show(ws[0]) if ws else 'any number of', 2 * n)
    return None


# ------------------------------------------------------------------ positions
def position(P, R):
    R.rule('line', 'reading a value moves through the file line by line, counting each line once, and rejects what cannot be read', 9)
    R.rule('report', 'every rejection is caught by the loader, which reports the line and the item it was reading', 3)
    R.rule('order', 'program, kernel, global size and group size are read in that order, and nothing may follow the last argument', 4)
    for f in [g for g in P.fns.values() if inst(g.qual)[0] == 'get']:
        msg, n = None, 0
        for p in Flow(f, fresh=re.compile(r'::(fail|eof|operator!|operator bool)$')).paths():
            gl = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'getline']
            ln = [e for e in p.stores() if e[2] == ('fld', THIS, 'm_lineNumber')]
            rd = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'operator>>' and nz(e[3][1]) == ('arg', pnames(f)[1])]
            if p.end[0] == 'iter':
                n += 1
                up = [e for e in ln if padd(poly(e[3]), {(): -1}) and [c for m, c in padd(poly(e[3]), {(): -1}).items()] == [1]]
                if len(gl) != 1 or nz(gl[0][3][0]) != ('fld', THIS, 'm_simfile'):
                    msg = 'a line is skipped or read twice'
                elif len(ln) != 1 or len(up) != 1:
                    msg = 'lines are not counted one by one'
                st = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'str' and nz(e[3][0]) == ('fld', THIS, 'm_lineBuffer')]
                if len(st) != 1:
                    msg = msg or 'the line read is not looked at'
                cm = [(a, q) for a, q in p.lits if a[0] == 'eq' and any(is_call(strip(x), 'find_first_of', 'find') for x in a[1:])]
                cut = [e for e in p.events if e[0] == 'call' and short(e[2]) in ('substr', 'erase', 'resize')]
                if cm and not cm[-1][1] and not cut or not cm:
                    msg = msg or 'comments are not removed'
            elif p.end[0] == 'ret':
                n += 1
                if len(rd) != 1 or nz(rd[0][3][0]) != ('fld', THIS, 'm_lineBuffer'):
                    msg = 'returns without a value'
                    continue
                k = p.events.index(rd[0])
                peek = [e for e in p.events[:k] if e[0] == 'call' and short(e[2]) in ('operator>>', 'get', 'getline') and stream(e[3][0]) == ('fld', THIS, 'm_lineBuffer')]
                if peek:
                    back = [e for e in p.events[p.events.index(peek[-1]):k] if e[0] == 'call' and short(e[2]) == 'seekg']
                    told = [e for e in p.events[:p.events.index(peek[-1])] if e[0] == 'call' and short(e[2]) == 'tellg']
                    if len(back) != 1 or not told:
                        msg = 'what was looked at is not read again'
                good = False
                for e in p.events[k + 1:]:
                    if e[0] == 'call' and short(e[2]) in ('fail', 'operator!', 'operator bool', 'good'):
                        x = ('call', e[2]) + tuple(e[3])
                        good |= any(a[0] == 'true' and a[1][:len(x)] == x and q == (short(e[2]) in ('operator bool', 'good')) for a, q in p.lits)
                if not good:
                    msg = 'accepts a value that could not be read'
        R.check(msg is None and n > 1, 'line', inst(f.qual)[1].split('<')[0], floc(f), msg or 'no value is ever returned', fn=f)
    f = P.get('Simulation::load')[0]
    E = build.program(['Simulation'], ('--keep-eh',))
    g = E.get('Simulation::load')[0]
    kinds = {'PKc': 'a message', 'NSt7__cxx1112basic_string': 'a message', 'St12_Ios_Iostate': 'a read error', 'St9bad_alloc': 'an allocation failure'}
    thrown = set()
    for h in E.fns.values():
        if h.relfile() == 'src/kernel/Simulation.cpp':
            for c in h.calls:
                if c.callee == '__cxa_throw' and len(c.args) > 1 and c.blk.id in h.idom:
                    m = re.search(r'_ZTI(\w+)', str(h.expr(c.args[1])))
                    if m:
                        thrown.add(m.group(1))
    text = handlers(g)
    for k in sorted(thrown):
        name = next((v for p_, v in kinds.items() if k.startswith(p_)), k)
        ok = any(h == k for h, _, _ in text)
        R.check(ok, 'report', 'caught:' + k[:24], floc(g), '%s thrown while a simulation is read is not caught' % name, fn=g)
    for h, blocks, loc in text:
        out = [i for b in blocks for i in g.blocks[b].insts if i.op in ('call', 'invoke') and 'operator<<' in (i.callee or '')]
        if not out and any(i.callee == '__cxa_rethrow' for b in blocks for i in g.blocks[b].insts):
            continue                                # an end of file that is no rejection here
        R.check(not accepts(g, blocks), 'report', 'outcome:' + h[:24], loc, 'a rejection is reported, but the simulation goes on', fn=g)
        line = any(mentions(g.expr(a), lambda x: x == ('fld', THIS, 'm_lineNumber')) for i in out for a in i.args[1:])
        item = any(mentions(g.expr(a), lambda x: x == ('fld', THIS, 'm_parsing')) for i in out for a in i.args[1:])
        R.check(line and item, 'report', 'handler:' + h[:24], loc, 'a rejection is reported without %s' % ('its line' if item else 'what was being read'), fn=g)
    ev = [c for c in f.calls if inst(c.callee)[0] == 'get' and c.blk.id in f.idom]
    want = [('fld', ('fld', THIS, m), 'xyz'[k]) if k else ('fld', THIS, m) for m in ('m_ndrange', 'm_wgsize') for k in range(3)]
    got = [nz(args(f, c)[1]) for c in ev if inst(c.callee)[1] == 'unsigned long']
    first = [c for c in ev if inst(c.callee)[1] != 'unsigned long']
    ok = got == want or [root(x) for x in got] == [root(x) for x in want] and [byteoff(x) for x in got] == [byteoff(x) for x in want]
    R.check(ok, 'order', 'sizes', floc(f), 'the sizes are read into %s' % ', '.join(show(x) for x in got), fn=f)
    h = P.get('Simulation::run')[0]
    msg = 'the kernel is never run'
    for p in Flow(h).paths():
        k = [e for e in p.events if e[0] == 'call' and e[2].endswith('KernelInvocation::run')]
        for e in k:
            a = e[3]
            part = lambda n: [('fld', ('fld', THIS, n), 'xyz'[c]) if c else ('fld', THIS, n) for c in range(3)]
            zero = all(strip(p.at(e, ('cgep', a[3], 8 * c), 8)) == C(0) for c in range(3))
            msg = None if a[4:6] == (('fld', THIS, 'm_ndrange'), ('fld', THIS, 'm_wgsize')) and a[2] == C(3) and nz(a[1]) == fld(THIS, 'm_kernel') and zero else \
                'the kernel is not run over the sizes read'
    R.check(msg is None, 'order', 'run', floc(h), msg or '', fn=h)
    ks = [c for c in f.calls if (c.callee or '').endswith('Program::createKernel')]
    R.check(len(first) >= 2 and len(ks) == 1, 'order', 'names', floc(f), 'program or kernel name is not read', fn=f)
    pa = [c for c in f.calls if c.callee == 'Simulation::parseArgument']
    lp = [l for l in f.loops if any(c.blk.id in l[1] for c in pa)]
    ok = len(pa) == 1 and len(lp) == 1 and any(st == C(0) and any(
        a[0] == 'lt' and q and nz(a[1]) == me and is_call(strip(a[2]), 'getNumArguments') for a, q in fs) for me, st, fs in counted(f, lp[0])) and \
        every_iteration(f, lp[0], pa) is None and loop_exits(f, lp[0]) == {lp[0][0]}
    R.check(ok, 'order', 'arguments', floc(f), 'not every kernel argument is read, in order', fn=f)
    # after the last argument: another attempt to read a token, and a rejection when there is one
    last = [c for c in ev if lp and c.blk.id not in lp[0][1] and inst(c.callee)[1] != 'unsigned long' and
            not any(f.dominates(c, x) for x in pa)]
    msg = None
    if not last:
        msg = 'tokens after the last argument are not looked for'
    else:
        for p in Flow(f, limit=6000).paths():
            if p.end[0] == 'ret' and any(e[1] is last[0] for e in p.events if e[0] == 'call') and strip(p.ret) != C(0):
                msg = 'a token after the last argument is accepted'
    R.check(msg is None, 'order', 'end', floc(f), msg or '', fn=f)


def accepts(g, blocks):
    """some way out of these blocks returns something other than false"""
    out = set()
    seen, todo = set(), [(b, None) for b in blocks]
    while todo:
        b, prev = todo.pop()
        if (b, prev) in seen:
            continue
        seen.add((b, prev))
        t = g.blocks[b].term
        if t.op == 'ret':
            v = t.args[0]
            while v[0] == 'v' and g.insts[v[1]].op == 'phi' and g.insts[v[1]].blk.id == b and prev is not None:
                v = {x[1]: x[0] for x in g.insts[v[1]].args}.get(prev, ['?'])
                break
            out.add(tuple(v[:2]))
        for s in g.blocks[b].succs:
            if g.blocks[s].insts[0].op != 'landingpad':
                todo.append((s, b))
    return any(v[0] != 'c' or v[1] != 0 for v in out)


def handlers(g):
    """[(type name, blocks, location)] of the catch clauses of g: blocks reachable from the begin of the handler"""
    out = []
    for i in g.all():
        if i.op != 'call' or i.callee != '__cxa_begin_catch':
            continue
        # type: the eh.typeid.for compared on the edge into the handler
        t = None
        for a, q in facts(g, i.blk.id):
            if a[0] == 'eq' and q:
                for x in a[1:]:
                    m = re.search(r'_ZTI(\w+)', str(x))
                    if m and 'typeid' in str(x):
                        t = m.group(1)
        seen, todo = set(), [i.blk.id]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            if any(x.op in ('call', 'invoke') and x.callee == '__cxa_end_catch' for x in g.blocks[b].insts) and b != i.blk.id:
                continue
            todo += [s for s in g.blocks[b].succs if s not in seen and g.blocks[s].insts[0].op != 'landingpad']
        out.append((t, seen, i.loc()))
    return out


def run(P, R):
    header(P, R)
    values(P, R)
    dump(P, R)
    position(P, R)
