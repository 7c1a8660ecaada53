"""C36: vload, vstore and their half forms are followed with the number of elements, the element size and the function's
name fixed to every value they can take (1, 2, 3, 4, 8, 16 elements of 1, 2, 4, 8 bytes; the name families of the
built-in table), so that every address and length becomes base + offset x constant and every lane loop is followed to its end.  The memory
access made must be at that address, of that length, in the memory of the pointer argument's own address space, and carry
the lanes in order.  The asynchronous copies are followed for every mangled element type and both directions: element size,
strides and direction passed on must be those of the argument types, and the copy performed later must use them."""
import re
from common import *
from flow import Flow
import c08, c11, c12, c35

TECHNIQUE = 'constant propagation over the finite domain of element types, widths and names to address polynomials'
TUS = ['WorkItemBuiltins', 'WorkItem', 'WorkGroup']
OPTS = ()
NOTE = 'The bytes transferred by Memory::load/store themselves are C01/C02; lane order inside a TypedValue is C08.'
ASSUMPTIONS = ['a pointer operand carries its address space in its LLVM type',
               'the mangled element type starts at overload[6], as the OpenCL front end spells "PU3ASn<type>"']
NUMS = (1, 2, 3, 4, 8, 16)
SIZES = (1, 2, 4, 8)
B = 'oclgrind::WorkItemBuiltins::'


class Only:
    """forward only the given rules of another property's analysis"""
    def __init__(self, R, *names):
        self.R, self.names = R, names

    def rule(self, name, *a):
        if name in self.names:
            self.R.rule(name, *a)

    def check(self, ok, rule, *a, **k):
        if rule in self.names:
            return self.R.check(ok, rule, *a, **k)
        return ok

    def ok(self, rule, *a, **k):
        if rule in self.names:
            return self.R.ok(rule, *a, **k)

    def bad(self, rule, *a, **k):
        if rule in self.names:
            return self.R.bad(rule, *a, **k)


def shape(f, num, size, name=None, valop=None):
    """leaf fixing the result (valop None) or the value operand to `num` elements of `size` bytes, and the name"""
    res = pnames(f)[4]
    byname = c35.named(name, 'fnName') if name else (lambda e: None)

    def typed(e):
        return is_call(e, 'Value::getType') and callarg(e[-1]) == valop

    def op(e):
        while e[0] == 'ptrto':
            e = e[1]
        return is_call(e, 'WorkItem::getOperand') and callarg(e[-1]) == valop

    def leaf(e):
        if e[0] == 'load' and e[1][0] in ('fld', 'arg'):
            if valop is None and (e[1] == ('arg', res) or e[1][0] == 'fld' and e[1][1] == ('arg', res)):
                if e[1] == ('arg', res) or e[1][2] == 'size':
                    return size
                if e[1][2] == 'num':
                    return num
        if valop is not None:
            if e[0] == 'xv' and e[1] == (0,) and op(e[2]):
                return num << 32 | size
            if is_call(e, 'isVector3') and callarg(e[2]) == valop:
                return int(num == 3)
            if is_call(e, 'getTypeSize') and typed(e[2]):
                return size * (4 if num == 3 else num)
            if is_call(e, 'getNumElements') and typed(strip(e[2])):
                return num
        return byname(e)
    return leaf


def lin(e, base, off):
    """coefficient of the offset when e is base argument + coefficient x offset argument"""
    po = poly(e)
    k = None
    b = False
    for m, c in po.items():
        if len(m) != 1:
            return None
        a = oparg(m[0])
        if a and a[:2] == ('Pointer', base) and c == 1 and strip(a[2]) == C(0):
            b = True
        elif a and a[:2] == ('UInt', off) and strip(a[2]) == C(0):
            k = c
        else:
            return None
    return (k if b else None)


def ownspace(e, ptr):
    """memory of the address space of call argument `ptr`"""
    e = strip(e)
    if not is_call(e, 'WorkItem::getMemory') or nz(e[2])[0] != 'arg':
        return False
    a = strip(e[-1])
    return is_call(a, 'getPointerAddressSpace', 'getAddressSpace') and mentions(a, lambda x: callarg(x) == ptr) and \
        not mentions(a, lambda x: x[0] == 'call' and callarg(x) not in (None, ptr))


def access(P, R, name, prefix, kind, num, size, coef, length):
    f = c35.resolve(prefix, name, P)
    need(f is not None, 'no built-in for ' + name)
    val, ptr, off = (None, 1, 0) if kind == 'load' else (0, 2, 1)
    msg = where = None
    n = 0
    half = 'half' in name
    for p in Flow(f, leaf=shape(f, num, size, name, val), limit=6000, maxiter=40).paths():
        if p.end[0] != 'ret':
            if p.end[0] != 'unreachable':
                msg = 'a loop over the lanes cannot be followed'
            continue
        n += 1
        evs = [e for e in p.events if e[0] == 'call' and short(e[2]) in ('load', 'store') and '::Memory::' in e[2]]
        if len(evs) != 1 or short(evs[0][2]) != kind:
            msg = 'memory is accessed %d times' % len(evs)
            continue
        e = evs[0]
        mem, a1, a2, ln = e[3][:4]
        data, addr = a1, a2
        if not ownspace(mem, ptr):
            msg, where = 'accesses another address space than that of its pointer argument', e[1]
        k = lin(addr, ptr, off)
        if k is None and oparg(nz(addr)) and oparg(nz(addr))[:2] == ('Pointer', ptr) and any(
                a[0] == 'eq' and pol and C(0) in a[1:] and any((oparg(x) or ())[:2] == ('UInt', off) for x in a[1:]) for a, pol in p.lits):
            k = coef                                # offset known to be zero
        if k is None:
            msg, where = 'address is not pointer + offset x constant: %s' % show(addr)[:200], e[1]
        elif k != coef:
            msg, where = 'vectors are %d bytes apart instead of %d' % (k, coef), e[1]
        elif mentions(addr, c08.narrows):
            msg, where = 'the address or offset is truncated', e[1]
        if strip(ln) != C(length):
            msg, where = 'accesses %s bytes instead of %d' % (show(ln)[:80], length), e[1]
        if not half:
            if kind == 'load':
                ok = nz(data) == ('load', ('fld', ('arg', pnames(f)[4]), 'data'))
            else:
                d = strip(data)
                ok = d[0] == 'xv' and d[1] == (1,) and is_call(d[2], 'getOperand') and callarg(d[2][-1]) == val or \
                    d[0] == 'load' and mentions(d, lambda x: is_call(x, 'getOperand') and callarg(x[-1]) == val)
            if not ok:
                msg, where = 'the bytes do not come from / go to the value', e[1]
        else:
            m = lanes(p, f, e, kind, num, size, data)
            if m:
                msg, where = m, e[1]
    R.check(msg is None and n > 0, 'access', '%s:%dx%d' % (name, num, size), where.loc() if where else floc(f),
            '%s of %d elements of %d bytes: %s' % (name, num, size, msg or 'no path returns'), fn=f)


def index(e, b, w):
    """constant element number of address e relative to b"""
    e = strip(e)
    if e == b:
        return 0
    if e[0] == 'ptr' and strip(e[1]) == b and strip(e[2])[0] == 'c':
        return strip(e[2])[1] * (e[3] or w) // w
    if e[0] in ('cgep',) and strip(e[1]) == b and isinstance(e[2], int):
        return e[2] // w
    return None


def lanes(p, f, acc, kind, num, size, buf):
    """lane i of the value is element i of the transferred buffer"""
    b = strip(buf)
    if kind == 'load':
        res = ('load', ('fld', ('arg', pnames(f)[4]), 'data'))
        got = {}
        for x in p.events:
            if x[0] == 'store':
                i = index(x[2], res, size)
                v = strip(x[3])
                if i is None or v[0] != 'call' or short(v[1]) != 'cl_half_to_float':
                    continue
                if p.events.index(x) < p.events.index(acc):
                    return 'a lane is converted before it is loaded'
                src = strip(v[2])
                got[i] = index(src[1], b, 2) if src[0] == 'load' else None
        for i in range(num):
            if got.get(i, -1) != i:
                return 'lane %d is not element %d of memory' % (i, i)
        return None
    got = {}
    for x in p.events[:p.events.index(acc)]:
        if x[0] == 'store':
            i = index(x[2], b, 2)
            v = strip(x[3])
            if i is None or v[0] != 'call' or short(v[1]) not in ('cl_half_from_float', 'cl_half_from_double'):
                continue
            src = v[2]
            g = oparg(strip(src[-1]) if src[0] in ('fpext', 'fptrunc') else strip(src))
            if g and g[:2] == ('Float', 0) and strip(g[2])[0] == 'c':
                got[i] = strip(g[2])[1]
                continue
            while src[0] in ('fpext', 'fptrunc') or src[0] != 'load' and strip(src) != src:
                src = src[-1] if src[0] in ('fpext', 'fptrunc') else strip(src)
            d = root(src[1]) if src[0] == 'load' else None
            o = None
            if d is not None:
                a = strip(src[1])
                base = a[1] if a[0] in ('ptr', 'cgep') else a
                o = index(a, strip(base), size)
                if not mentions(base, lambda y: is_call(y, 'getOperand') and callarg(y[-1]) == 0):
                    o = None
            got[i] = o
    for i in range(num):
        if got.get(i, -1) != i:
            return 'element %d of memory is not lane %d' % (i, i)
    return None


def vectors(P, R):
    R.rule('access', 'a vector load or store accesses base + offset x (elements x element size), for all its elements, in the '
           'address space of its pointer; aligned half forms of three elements are four halves apart', 60)
    prefix = c12.table(P)[2]
    for num in NUMS:
        s = str(num) if num > 1 else ''
        if num > 1:
            for size in SIZES:
                access(P, R, 'vload' + s, prefix, 'load', num, size, num * size, num * size)
                access(P, R, 'vstore' + s, prefix, 'store', num, size, num * size, num * size)
        access(P, R, 'vload_half' + s, prefix, 'load', num, 4, num * 2, num * 2)
        access(P, R, 'vloada_half' + s, prefix, 'load', num, 4, (4 if num == 3 else num) * 2, num * 2)
        for size in (4, 8):
            for r in ('', '_rtz'):
                access(P, R, 'vstore_half' + s + r, prefix, 'store', num, size, num * 2, num * 2)
                access(P, R, 'vstorea_half' + s + r, prefix, 'store', num, size, (4 if num == 3 else num) * 2, num * 2)


TYPES = {'c': 1, 'h': 1, 's': 2, 't': 2, 'i': 4, 'j': 4, 'f': 4, 'l': 8, 'm': 8, 'd': 8}


def spelled(over, name, dst):
    """leaf and effects for a call of `name` with the mangled arguments `over` and a destination in address space dst"""
    a, b = c35.named(over, 'overload'), c35.named(name, 'fnName')

    def place(e):
        """offset in the overload string of a pointer"""
        e = strip(e)
        if e[0] == 'call' and e[1].split('::')[-1] in ('c_str', 'data') and c35.is_name(e[2], 'overload'):
            return 0
        if e[0] == 'ptr' and strip(e[2])[0] == 'c':
            o = place(e[1])
            return None if o is None else o + strip(e[2])[1]
        if e[0] == 'cgep' and isinstance(e[2], int):
            o = place(e[1])
            return None if o is None else o + e[2]
        return None

    def leaf(e):
        if e[0] == 'load':
            o = place(e[1])
            if o is not None:
                return ord(over[o]) if 0 <= o < len(over) else 0
        if e[0] == 'call':
            if re.search(r'operator==', e[1]) and any(c35.is_name(x, 'fnName') for x in e[2:]):
                t = [c35.text(x) for x in e[2:] if c35.text(x) is not None]
                return int(t[0] == name) if t else None
            if re.search(r'operator!=', e[1]) and any(c35.is_name(x, 'fnName') for x in e[2:]):
                t = [c35.text(x) for x in e[2:] if c35.text(x) is not None]
                return int(t[0] != name) if t else None
            if e[1].split('::')[-1] in ('getPointerAddressSpace', 'getAddressSpace'):
                for k, v in ((0, dst), (1, 4 - dst)):
                    if mentions(e, lambda x: callarg(x) == k):
                        return v
            if re.search(r'strto(u?l?l)$|(^|::)atoi$|stou?ll?$', e[1]):
                o = place(e[2])
                if o is not None:
                    m = re.match(r'\d*', over[o:])
                    return int(m.group() or 0)
        v = a(e)
        return b(e) if v is None else v

    def effects(fl, st, i, c, args_):
        if c and re.search(r'strto(u?l?l)$', c) and len(args_) > 1:
            o = place(args_[0])
            k = fl.key(args_[1])
            if o is None or strip(args_[1]) == C(0):
                return None
            n = len(re.match(r'\d*', over[o:]).group())
            e0 = strip(args_[0])
            while e0[0] in ('ptr', 'cgep'):
                e0 = strip(e0[1])
            st.mem.append(('st', k, 8, ('ptr', e0, C(o + n), 1)))
            return True
        return None
    return leaf, effects


def groupcopy(P, R):
    R.rule('element', 'an asynchronous copy moves elements of the size of the pointed-to type (three-element vectors take four) in the '
           'direction of its address spaces, with the stride on the global side', 120)
    exact = c12.table(P)[1]
    for name in ('async_work_group_copy', 'async_work_group_strided_copy'):
        e = exact.get(name)
        need(e, 'no built-in for ' + name)
        f = P.fns.get(e[0]) or P.one(e[0])
        for dst in (3, 1):
            for t, sz in sorted(TYPES.items()):
                for n in NUMS:
                    ty = t if n == 1 else 'Dv%d_%s' % (n, t)
                    over = 'PU3AS%d%sPU3AS%d%s%s9ocl_event' % (dst, ty, 4 - dst, 'K' + ty if n == 1 else 'KS_', 'mm' if 'stri' in name else 'm')
                    want = sz * (4 if n == 3 else n)
                    leaf, eff = spelled(over, name, dst)
                    msg, cnt, where = None, 0, None
                    for p in Flow(f, leaf=leaf, effects=eff, limit=4000).paths():
                        if p.end[0] != 'ret':
                            msg = 'is rejected'
                            continue
                        cs = p.calls('WorkGroup::async_copy')
                        if len(cs) != 1:
                            msg = 'no copy is registered'
                            continue
                        cnt += 1
                        a = cs[0][3]
                        where = cs[0][1]
                        st = 'stri' in name
                        if strip(a[6]) != C(want):
                            msg = 'elements of %s bytes' % show(a[6])[:60]
                        elif (oparg(a[4]) or ())[:2] != ('Pointer', 0) or (oparg(a[5]) or ())[:2] != ('Pointer', 1):
                            msg = 'destination or source is not its own argument'
                        elif (oparg(a[7]) or ())[:2] != ('UInt', 2):
                            msg = 'number of elements is not its argument'
                        elif any(mentions(x, c08.narrows) for x in (a[4], a[5], a[7])):
                            msg = 'an address or the number of elements is truncated'
                        else:
                            d = enum_val(P, 'AsyncCopyType', 'GLOBAL_TO_LOCAL' if dst == 3 else 'LOCAL_TO_GLOBAL')
                            if d is None:
                                d = 0 if dst == 3 else 1
                            if strip(a[3]) != C(d):
                                msg = 'the copy goes the other way'
                            glob, loc = (a[8], a[9]) if dst == 3 else (a[9], a[8])
                            if strip(loc) != C(1):
                                msg = 'the local side is strided'
                            elif not st and strip(glob) != C(1) or st and ((oparg(glob) or ())[:2] != ('UInt', 3) or mentions(glob, c08.narrows)):
                                msg = 'the stride of the global side is %s' % show(glob)[:80]
                    R.check(msg is None and cnt > 0, 'element', '%s:%s:%s' % ('strided' if 'stri' in name else 'copy', ty, dst),
                            where.loc() if where else floc(f), '%s of %s to address space %d: %s' % (name, ty, dst, msg or 'never registered'), fn=f)


def run(P, R):
    vectors(P, R)
    groupcopy(P, R)
    c11.copies(P, Only(R, 'copy-new'))
    c11.release(P, Only(R, 'perform'))
