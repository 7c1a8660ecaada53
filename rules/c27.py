"""C27: clSetKernelArg is decided as a table: the conditions of every path are evaluated over all combinations of the finite
facts a request can have (index known, size equal, address space, sampler, image parameter, value given, object given, object
is an image), and every path possible for a combination must set the argument exactly when the combination is valid and
return one of its error codes otherwise.  The value handed to Kernel::setArgument is derived per kind; setArgument, the copy
constructor and TypedValue::clone are shown to copy the bytes; allArgumentsSet returns true only past a walk over every
parameter that found a value for each."""
import itertools
from common import *
from flow import Flow
import rt
import c20
import c22
from c21 import A

TECHNIQUE = 'decision table over path conditions (finite predicate abstraction) and copy/ownership analysis of argument values'
TUS = rt.TUS + ['Kernel', 'common']
OPTS = ('--extra-inline', '^$')
NOTE = 'How the arguments reach a work-item is C05/C10; that a launch is refused is also part of C28.'
ASSUMPTIONS = ['a sampler parameter is in the private address space and an image parameter in the global or constant one (Clang kernel metadata)']
KER = ('load', ('fld', A('kernel'), 'kernel'))
PRIV, GLOB, CONS, LOC = 0x119E, 0x119B, 0x119D, 0x119C
NONE, RO = 0x11A3, 0x11A0
IDX, SIZE, VAL, SAMPLER, MEM = -49, -51, -50, -41, -38
VP, MP = 0x1000, 0x2000
ADDR = ('load', ('fld', ('load', A('arg_value')), 'address'))


def last(c):
    return c20.last_name(c) if c else ''


class Env:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def show(self):
        return ', '.join(x for x in (
            'unknown index' if not self.known else '',
            {PRIV: 'private', GLOB: 'global', CONS: 'constant', LOC: 'local'}.get(self.addr, 'unknown') + (' sampler' if self.sampler else ' image' if self.image else '') + ' parameter',
            'size %d' % self.size + ('' if self.match else ' (wrong)'),
            'no value' if not self.value else 'null object' if not self.obj and self.addr in (GLOB, CONS) or self.sampler and not self.obj else
            'an image' if self.isimg and self.addr in (GLOB, CONS) else 'a value') if x)


def val(e, v):
    """value of an expression in the combination, None when it does not depend on it alone"""
    e = strip(e)
    if e[0] == 'c':
        return e[1]
    if e == A('arg_size'):
        return v.size
    if e == A('arg_value'):
        return VP if v.value else 0
    if e == A('arg_index'):
        return 1
    if e == A('kernel'):
        return 0x3000
    if e[0] == 'load':
        a = strip(e[1])
        if a == A('arg_value'):
            return MP if v.obj else 0
        if a == ('fld', ('load', A('arg_value')), 'isImage'):
            return int(v.isimg)
        return None
    if e[0] == 'call':
        n = last(e[1])
        if n == 'getNumArguments':
            return 2 if v.known else 1
        if n == 'getArgumentAddressQualifier':
            return v.addr
        if n == 'getArgumentAccessQualifier':
            return RO if v.image else NONE
        if n == 'getArgumentSize':
            return v.size if v.match else v.size + 4
        if mentions(e, lambda x: x == ('s', 'sampler_t')):
            if n in ('operator==', 'equals'):
                return int(v.sampler)
            if n in ('operator!=', 'compare'):
                return int(not v.sampler)
        return None
    if e[0] == 'icmp':
        a, b = val(e[2], v), val(e[3], v)
        if a is None or b is None:
            return None
        a, b = a & (1 << 64) - 1, b & (1 << 64) - 1
        return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}.get(e[1], None)) \
            if e[1] in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge') else None
    if e[0] in ('or', 'and', 'xor') and len(e) == 3:
        a, b = val(e[1], v), val(e[2], v)
        if e[0] == 'or' and (a in (1, -1) or b in (1, -1)):
            return 1
        if e[0] == 'and' and (a == 0 or b == 0):
            return 0
        if a is None or b is None:
            return None
        if b == -1 and a in (0, 1) or a == -1 and b in (0, 1):
            t = a if b == -1 else b
            return 1 - t if e[0] == 'xor' else t if e[0] == 'and' else 1
        return a | b if e[0] == 'or' else a & b if e[0] == 'and' else a ^ b
    if e[0] == 'select' and len(e) == 4:
        c = val(e[1], v)
        return None if c is None else val(e[2] if c else e[3], v)
    return None


def possible(p, v):
    for a, pol in p.lits:
        if a[0] in ('eq', 'lt'):
            x, y = val(a[1], v), val(a[2], v)
            if x is None or y is None:
                continue
            m = (1 << 32) - 1 if a[0] == 'eq' and (mentions(a, lambda z: is_call(z, 'getArgumentAddressQualifier'))) else (1 << 64) - 1
            x, y = x & m, y & m
            r = x == y if a[0] == 'eq' else x < y
        elif a[0] == 'true':
            r = val(a[1], v)
        elif a[0] == 'in':
            x = val(a[1], v)
            r = None if x is None else x in a[2]
        else:
            continue
        if r is not None and bool(r) != pol:
            return False
    return True


def combos():
    yield Env(known=False, addr=PRIV, sampler=False, image=False, size=4, match=True, value=True, obj=True, isimg=False)
    for size, match in ((0, False), (4, True), (4, False), (8, True), (8, False), (12, True), (12, False)):
        for value, obj in ((False, False), (True, False), (True, True)):
            for sampler in (False, True):
                yield Env(known=True, addr=PRIV, sampler=sampler, image=False, size=size, match=match, value=value, obj=obj, isimg=False)
            yield Env(known=True, addr=LOC, sampler=False, image=False, size=size, match=match, value=value, obj=obj, isimg=False)
            for addr in (GLOB, CONS):
                for image in (False, True):
                    if match and size != 8:
                        continue
                    for isimg in ((False, True) if obj else (False,)):
                        yield Env(known=True, addr=addr, sampler=False, image=image, size=size, match=match, value=value, obj=obj, isimg=isimg)


def reasons(v):
    r = set()
    if not v.known:
        return {IDX}
    if v.sampler:
        if v.size != 8:
            r.add(SIZE)
        if not v.obj:
            r.add(SAMPLER)
        return r
    if v.addr == LOC:
        if v.size == 0:
            r.add(SIZE)
        if v.value:
            r.add(VAL)
        return r
    if not v.match:
        r.add(SIZE)
    if v.addr == PRIV and not v.value:
        r.add(VAL)
    if v.addr in (GLOB, CONS):
        if v.image and not v.obj or v.obj and v.isimg != v.image:
            r.add(MEM)
            r.add(VAL)
    return r


def run(P, R):
    R.rule('table', 'an argument is set exactly for a valid request; any other request returns a code of its own', 100)
    R.rule('value', 'the argument is given the bytes, object address, image or sampler of the request', 5)
    R.rule('object', 'the memory object of an argument is recorded for the argument, and forgotten with it', 2)
    R.rule('stored', 'Kernel::setArgument stores its own copy of the value for that parameter and frees the old one', 3)
    R.rule('clone', 'a cloned value has its own copy of every byte', 2)
    R.rule('snapshot', 'a copied kernel has its own copy of every argument value', 1)
    R.rule('complete', 'allArgumentsSet finds a value for every parameter', 1)
    R.rule('required', 'a launch is enqueued only when all arguments are set, with a copy of the kernel made before that', 2)
    eps = {f.qual: f for f in rt.entry_points(P)}
    f = eps['clSetKernelArg']
    paths = [p for p in rt.flow(f) if p.end[0] == 'ret' and c22.known(p.lits, A('kernel'), 0) is not True]
    table(R, f, paths)
    value(R, f, paths)
    stored(P, R)
    clone(P, R)
    snapshot(P, R)
    complete(P, R)
    required(P, R, eps['clEnqueueNDRangeKernel'])


def sets(p):
    return [e for e in p.events if e[0] == 'call' and last(e[2]) == 'setArgument']


def table(R, f, paths):
    for v in combos():
        ps = [p for p in paths if possible(p, v)]
        rs = reasons(v)
        why = None
        if not ps:
            why = 'no path'
        for p in ps:
            s = sets(p)
            r = strip(nz(p.ret))
            if rs:
                if s:
                    why = 'is accepted'
                elif r[0] != 'c' or r[1] not in rs:
                    why = 'returns %s' % (rt.NAMES.get(r[1], r[1]) if r[0] == 'c' else S(r))
            elif len(s) != 1 or r != C(0):
                why = 'is refused with %s' % (rt.NAMES.get(r[1], r[1]) if r[0] == 'c' else S(r)) if r != C(0) else 'does not set the argument'
            elif nz(s[0][3][0]) != KER or strip(nz(s[0][3][1])) != A('arg_index'):
                why = 'sets another argument'
        R.check(why is None, 'table', v.show(), floc(f), '%s: %s' % (v.show(), why), fn=f)


def data(p, e):
    """the data pointer of the TypedValue handed over (the struct is passed in two registers or by address)"""
    return [strip(nz(x)) for x in e[3][2:]]


def value(R, f, paths):
    kinds = {'sampler': Env(known=True, addr=PRIV, sampler=True, image=False, size=8, match=True, value=True, obj=True, isimg=False),
             'bytes': Env(known=True, addr=PRIV, sampler=False, image=False, size=12, match=True, value=True, obj=True, isimg=False),
             'local': Env(known=True, addr=LOC, sampler=False, image=False, size=12, match=False, value=False, obj=False, isimg=False),
             'buffer': Env(known=True, addr=GLOB, sampler=False, image=False, size=8, match=True, value=True, obj=True, isimg=False),
             'constant': Env(known=True, addr=CONS, sampler=False, image=False, size=8, match=True, value=True, obj=True, isimg=False),
             'image': Env(known=True, addr=GLOB, sampler=False, image=True, size=8, match=True, value=True, obj=True, isimg=True),
             'null': Env(known=True, addr=GLOB, sampler=False, image=False, size=8, match=True, value=False, obj=False, isimg=False)}
    obj = ('load', A('arg_value'))
    recs = {}
    for k, v in kinds.items():
        why, n = None, 0
        for p in paths:
            if not possible(p, v) or not sets(p):
                continue
            n += 1
            s = sets(p)[0]
            new = [nz(('call', e[2]) + e[3]) for e in p.events if e[0] == 'call' and e[2] == 'operator new[]']
            cp = [(nz(e[3][0]), strip(nz(e[3][1])), strip(nz(e[3][2]))) for e in p.events if e[0] == 'copy']
            d = [x for x in data(p, s) if x in new]
            if k == 'local':
                if d or [e for e in p.events if e[0] == 'call' and e[2] == 'operator new[]' and
                         not any(z[0] == 'call' and z[2] == 'operator delete[]' and nz(z[3][0]) == nz(('call', e[2]) + e[3]) for z in p.events)]:
                    why = 'a local argument is given data'
                if not any(x == C(0) for x in data(p, s)[1:]):
                    why = 'a local argument has data that is not NULL'
                if field(p, s, 'size', 0) != A('arg_size'):
                    why = 'a local argument does not have the requested size'
                continue
            if k == 'null':
                if not any(e[0] == 'call' and last(e[2]) == 'setPointer' and strip(nz(e[3][1])) == C(0) for e in p.events):
                    why = 'a null argument is not a null pointer'
                continue
            if len(d) != 1:
                why = 'the value is not in a block of its own'
                continue
            d = d[0]
            if d[2:] != (A('arg_size'),) and d[2] != A('arg_size') and not (d[2][0] == 'c' and d[2][1] == v.size and k != 'bytes'):
                why = 'the block of the value does not have the size of the argument'
            got = [c[1:] for c in cp if c[0] == d]
            st = [nz(e[3]) for e in p.events if e[0] == 'store' and nz(e[2]) == d]
            sz = lambda x, n: x == A('arg_size') or x == C(n)
            if k == 'bytes':
                ok = len(got) == 1 and got[0] == (A('arg_value'), A('arg_size'))
            elif k == 'sampler':
                ok = len(got) == 1 and got[0][0] == ('fld', obj, 'sampler') and got[0][1] == C(4) or \
                    st == [('load', ('fld', obj, 'sampler'))]
            elif k in ('buffer', 'constant'):
                ok = len(got) == 1 and ADDR in (('load', got[0][0]), got[0][0]) and sz(got[0][1], 8) or st == [ADDR]
            else:
                ok = False
                im = [x for x in st if x[0] == 'call' and x[1] == 'operator new']
                if len(im) == 1:
                    r = c22.record(p, im[0])
                    r.update({(e[2], 'self'): e[3] for e in p.events if e[0] == 'store' and nz(e[2]) == im[0]})
                    fl = {}
                    for e in p.events:
                        if e[0] == 'store' and rt.base(nz(e[2])) == im[0]:
                            fl[nz(e[2])[2] if nz(e[2])[0] == 'fld' else 'address'] = nz(e[3])
                        if e[0] == 'copy' and rt.base(nz(e[3][0])) == im[0]:
                            fl[nz(e[3][0])[2] if nz(e[3][0])[0] == 'fld' else 'address'] = (nz(e[3][1]), nz(e[3][2]))
                    ok = fl.get('address') == ADDR and \
                        all(fl.get(x) is not None and isinstance(fl[x][0], tuple) and fl[x][0][0] == 'fld' and rt.base(fl[x][0]) == obj and fl[x][0][2] == y and fl[x][1] == C(z)
                            for x, y, z in (('format', '#1', 8), ('desc', 'desc', 72)))
                    kept = any(e[0] == 'call' and last(e[2]) in ('push_back', 'emplace_back') and nz(e[3][0]) == ('fld', A('kernel'), 'imageArgs') for e in p.events)
                    ok = ok and kept
            if not ok:
                why = 'the value is not taken from the request'
            if field(p, s, 'size', 0) != A('arg_size') or field(p, s, 'num', 4) != C(1):
                why = why or 'the value does not have the size of the argument'
        R.check(n and not why, 'value', k, floc(f), why or 'no path sets it', fn=f)
    # memory objects of the kernel
    book = ('fld', A('kernel'), 'memArgs')
    why = [None, None]
    for p in paths:
        if not sets(p):
            continue
        for k, v in kinds.items():
            if not possible(p, v):
                continue
            put = [e for e in p.events if e[0] == 'store' and is_call(nz(e[2]), 'operator[]', 'at') and nz(nz(e[2])[2]) == book]
            er = [e for e in p.events if e[0] == 'call' and last(e[2]) == 'erase' and nz(e[3][0]) == book]
            if k in ('buffer', 'constant', 'image'):
                if len(put) != 1 or nz(put[0][3]) != obj or er or not keyed(p, put[0]):
                    why[0] = 'the object of a %s argument is not recorded' % k
            elif k == 'null':
                if put or len(er) != 1:
                    why[1] = 'the object of a replaced argument is not forgotten'
            elif put:
                why[0] = 'an object is recorded for a %s argument' % k
    R.check(not why[0], 'object', 'recorded', floc(f), why[0], fn=f)
    R.check(not why[1], 'object', 'forgotten', floc(f), why[1], fn=f)


def mapkey(p, c, w):
    """key of the map entry c = map[key]"""
    k = strip(nz(c[3]))
    if k[0] == 'alloca':
        ks = {strip(nz(p.at(x, k, w) or ('?',))) for x in p.events if x[0] == 'call' and nz(('call', x[2]) + x[3]) == c}
        ks -= {('?',)}
        return ks.pop() if len(ks) == 1 else ('?',)
    return k


def keyed(p, e):
    """the map entry stored to is that of arg_index"""
    return mapkey(p, nz(e[2]), 4) == A('arg_index')


def field(p, e, name, off):
    """field of the TypedValue argument at the call"""
    for x in e[3][2:]:
        for y in walk(x):
            if y[0] == 'alloca':
                v = p.at(e, y if off == 0 else ('fld', y, name), 4)
                if v is not None:
                    return strip(nz(v))
    for i in e[1].args:
        y = e[1].fn.expr(i)
        for z in walk(y):
            if z[0] == 'alloca':
                v = p.at(e, z if off == 0 else ('fld', z, name), 4)
                if v is not None:
                    return strip(nz(v))
    return None


def walk(e):
    if isinstance(e, tuple):
        if e and isinstance(e[0], str):
            yield e
        for x in e:
            yield from walk(x)


# ------------------------------------------------------------------ Kernel
def stored(P, R):
    f = P.get('oclgrind::Kernel::setArgument')[0]
    idx = ('arg', pnames(f)[1])
    vals = ('fld', THIS, 'm_values')
    why = {}
    n = 0
    for p in Flow(f).paths():
        if p.end[0] != 'ret':
            continue
        n += 1
        key = nz(('call', 'oclgrind::Kernel::getArgument', THIS, idx))
        samp = [pol if last(a[1][1]) != 'operator!=' else not pol for a, pol in p.lits
                if a[0] == 'true' and mentions(a[1], lambda x: x == ('s', 'sampler_t')) and strip(a[1])[0] == 'call']
        dst = [e for e in p.events if e[0] in ('copy', 'store') and is_call(rt.base(nz((e[3][0] if e[0] == 'copy' else e[2]))), 'operator[]', 'at') or
               e[0] == 'call' and last(e[2]) in ('insert_or_assign', 'operator=') and nz(e[3][0]) == vals]
        if not dst:
            why['stored'] = 'no value is stored on some path'
            continue
        for e in dst:
            t = rt.base(nz(e[3][0] if e[0] == 'copy' else e[2]))
            kk = mapkey(p, t, 8)
            if not is_call(kk, 'getArgument') or strip(kk[-1]) != idx:
                why['stored'] = 'the value is not stored for the parameter of the index'
        cl = [e for e in p.events if e[0] == 'call' and last(e[2]) == 'clone']
        if not samp or samp[0] is False:
            if len(cl) != 1:
                why['copied'] = 'the stored value is not a clone'
            else:
                words = [e for e in dst if e[0] == 'copy' or e[0] == 'store' and is_call(xvof(e[3]), 'clone')]
                if not words or words[0][0] == 'store' and len(words) != 2:
                    why['copied'] = 'not all of the clone is stored'
                if strip(nz(cl[0][3][0])) != ('alloca', value_slot(f)) and strip(nz(cl[0][3][0])) != ('arg', pnames(f)[-1]) and value_slot(f) is not None:
                    why['copied'] = 'the stored value is a clone of something else'
        elif samp[0]:
            sp = [e for e in p.events if e[0] == 'call' and last(e[2]) == 'setPointer']
            ok = len(sp) == 1 and is_call(strip(nz(sp[0][3][1])), 'ConstantInt::get', 'get') and mentions(sp[0][3][1], lambda x: is_call(x, 'getSInt', 'getUInt'))
            if not ok:
                why['copied'] = 'the sampler constant is not made from the value'
        had = [pol for a, pol in p.lits if mentions(a, lambda x: x[0] == 'call' and len(x) > 2 and last(x[1]) in ('count', 'find', 'contains') and x[2] == vals)]
        de = [e for e in p.events if e[0] == 'call' and e[2] == 'operator delete[]']
        hadit = any(truthy(a, pol) for a, pol in p.lits if mentions(a, lambda x: x[0] == 'call' and len(x) > 2 and last(x[1]) in ('count', 'contains', 'find') and x[2] == vals))
        nul = any(a[0] == 'eq' and a[2] == C(0) and pol and strip(nz(a[1]))[0] == 'load' for a, pol in p.lits)
        if hadit and not de and not nul or len(de) > 1:
            why['freed'] = 'the data of the old value is not freed exactly once'
        if not had and not de:
            why['freed'] = 'the data of the old value is never freed'
        if had and not hadit and de:
            why['freed'] = 'data is freed although there was no value'
    for k in ('stored', 'copied', 'freed'):
        R.check(n and k not in why, 'stored', k, floc(f), why.get(k), fn=f)


def xvof(e):
    e = strip(e)
    while e[0] == 'xv':
        e = strip(e[2])
    return e


def value_slot(f):
    """the stack slot of the by-value parameter"""
    for i in f.all():
        if i.op == 'store' and f.expr(i.args[0])[0] == 'arg' and mentions(f.expr(i.args[1]), lambda x: x[0] == 'alloca') and len(f.params) > 2:
            e = f.expr(i.args[0])
            if e[1] in [x.get('dn') or x.get('n') for x in f.params[2:]] or e[1] not in pnames(f)[:2]:
                return root(f.expr(i.args[1]))[1]
    return None


def truthy(a, pol):
    return pol if a[0] == 'true' else not pol if a[0] == 'eq' else pol


def clone(P, R):
    f = P.get('oclgrind::TypedValue::clone')[0]
    n, why = 0, {}
    sz, nm, dt = ('load', THIS), ('load', ('fld', THIS, 'num')), ('load', ('fld', THIS, 'data'))
    total = pmul(poly(sz), poly(nm))

    def isf(e, name):
        e = strip(nz(e))
        return e[0] == 'load' and e[1] in (THIS, ('fld', THIS, name)) if name == 'size' else e == ('load', ('fld', THIS, name))

    def prod(e):
        e = strip(nz(e))
        ms = list(poly(e).items())
        return len(ms) == 1 and ms[0][1] == 1 and len(ms[0][0]) == 2 and sorted(isf(x, 'size') for x in ms[0][0]) == [False, True] and \
            any(isf(x, 'num') for x in ms[0][0])
    for p in Flow(f).paths():
        if p.end[0] != 'ret':
            continue
        n += 1
        z = c22.known(p.lits, dt, 0)
        new = [nz(('call', e[2]) + e[3]) for e in p.events if e[0] == 'call' and e[2] == 'operator new[]']
        cp = [(nz(e[3][0]), nz(e[3][1]), e[3][2]) for e in p.events if e[0] == 'copy' and nz(e[3][1]) == dt]
        if z is not True:
            if len(new) != 1 or not prod(new[0][2]) or len(cp) != 1 or cp[0][0] != new[0] or not prod(cp[0][2]):
                why['bytes'] = 'does not copy size * num bytes into a block of its own'
        r = result(f, p)
        if not (r.get('size') is not None and isf(r['size'], 'size') and r.get('num') is not None and isf(r['num'], 'num')):
            why['fields'] = 'size or num is not that of the value'
        if z is True and nz(r.get('data') or ('?',)) not in (C(0), dt) or z is not True and (not new or nz(r.get('data') or ('?',)) != new[0]):
            why['bytes'] = why.get('bytes') or 'data is not the copy'
    R.check(n and 'bytes' not in why, 'clone', 'bytes', floc(f), why.get('bytes'), fn=f)
    R.check(n and 'fields' not in why, 'clone', 'fields', floc(f), why.get('fields'), fn=f)


def result(f, p):
    """fields of the returned TypedValue"""
    r = {}
    for b in [i for i in f.all() if i.op == 'alloca']:
        base = ('alloca', b.id)
        for k, off, s in (('size', 0, 4), ('num', 4, 4), ('data', 8, 8)):
            v = p.load(base if off == 0 else ('fld', base, k), s)
            if v is not None and k not in r and nz(v)[0] != 'clob' and nz(v) != ('load', base if off == 0 else ('fld', base, k)):
                r[k] = v
    e = p.ret
    while e is not None and e[0] == 'iv':       # returned in two registers
        k = e[1][0]
        if k == 1:
            r['data'] = e[3] if len(e) > 3 else e[-1]
        elif k == 0:
            lo = strip(e[-1])
            if lo[0] in ('or', 'add') and len(lo) == 3:
                for a, b in ((lo[1], lo[2]), (lo[2], lo[1])):
                    a = strip(a)
                    if a[0] == 'shl' and a[2] == C(32) or a[0] == 'mul' and a[2] == C(1 << 32):
                        r['num'], r['size'] = strip(a[1]), strip(b)
        e = e[2]
    return r


def snapshot(P, R):
    fs = [f for f in P.get('oclgrind::Kernel::Kernel') if len(f.params) == 2]
    why = 'no copy constructor'
    for f in fs:
        src = None
        ok = False
        for lp in f.loops:
            for i in f.calls:
                if i.blk.id in lp[1] and last(i.callee) == 'clone' and len(loop_exits(f, lp)) == 1 and f.dominates_block(i.blk.id, back(f, lp)):
                    ws = walked(f, lp)
                    if ws:
                        st = [j for j in f.all() if j.blk.id in lp[1] and last(getattr(j, 'callee', None) or '') in ('operator[]', 'emplace', 'insert', 'try_emplace') and
                              f.expr(j.args[0]) == ('fld', THIS, 'm_values')]
                        ok = ok or bool(st)
        why = None if ok else 'not every value is cloned into the copy'
    R.check(fs and why is None, 'snapshot', 'copy', floc(fs[0]) if fs else '', why, fn=fs[0] if fs else None)


def back(f, lp):
    return [b for b in lp[1] if lp[0] in f.blocks[b].succs][0]


def walked(f, lp):
    """the loop walks the m_values of the source kernel from begin to end"""
    s = [i for i in f.calls if last(i.callee) in ('begin', 'cbegin') and mentions(f.expr(i.args[0]), lambda x: x[0] == 'fld' and x[2] == 'm_values' and x[1] != THIS)]
    e = [i for i in f.calls if last(i.callee) in ('end', 'cend') and mentions(f.expr(i.args[0]), lambda x: x[0] == 'fld' and x[2] == 'm_values' and x[1] != THIS)]
    return bool(s and e)


def complete(P, R):
    f = P.get('oclgrind::Kernel::allArgumentsSet')[0]
    why, n = None, 0
    paths = list(Flow(f).paths())
    vals = ('fld', THIS, 'm_values')

    def looked(e):
        return mentions(e, lambda x: x[0] == 'call' and len(x) > 2 and last(x[1]) in ('count', 'find', 'contains') and x[2] == vals)
    loops = [lp for lp in f.loops]
    if len(loops) != 1:
        why = 'is not one walk over the parameters'
    else:
        lp = loops[0]
        its = [p for p in paths if p.end[0] == 'iter']
        got = lambda p: any(looked(a) and found(a, pol) for a, pol in p.lits)
        flags = set()       # all-found flags: start at true, cleared when one is missing, kept otherwise
        for i in f.blocks[lp[0]].insts:
            if i.op != 'phi' or not all(strip(f.expr(v)) in (C(1), C(-1)) for v, b in i.args if b not in lp[1]):
                continue
            x = ('phi', i.id)
            ups = [(p, strip(nz(p.flow.val(p.st, v)))) for p in its for v, b in i.args if b == p.end[2]]
            on = lambda p: any(strip(nz(a[1])) == x and truthy(a, pol) for a, pol in p.lits)
            # set only while set and the parameter just looked up was found, by the path or by the value itself
            kept = lambda p, v: v == C(0) or got(p) and (v == x or v in (C(1), C(-1)) and on(p)) or \
                any(looked(a) and found(a, pol) for a, pol in literals(v, True)) and \
                (on(p) or any(strip(nz(a[1])) == x and truthy(a, pol) for a, pol in literals(v, True)))
            if ups and all(kept(p, v) for p, v in ups):
                flags.add(x)
        if not its or not flags and any(not got(p) for p in its):
            why = 'goes past a parameter without a value'
        for p in paths:
            r = strip(nz(p.ret)) if p.end[0] == 'ret' else C(0)
            if r != C(0):
                n += 1
                if r not in (C(1), C(-1)) and r not in flags:
                    why = why or 'returns neither true nor false'
                if flags and r not in flags and not any(strip(nz(a[1])) in flags and truthy(a, pol) for a, pol in p.lits):
                    why = why or 'returns true although a value may be missing'
                if lp[0] not in p.blocks or any(looked(a) for a, pol in p.lits):
                    why = why or 'returns true in the middle of the walk'
        b = [i for i in f.calls if last(i.callee) in ('arg_begin', 'args', 'getArgument', 'begin')]
        if not b:
            why = why or 'does not start at the first parameter'
        e = [i for i in f.calls if last(i.callee) in ('arg_end', 'end', 'arg_size', 'getNumArguments')]
        if not e and not why:
            why = 'does not end at the last parameter'
    R.check(why is None and n, 'complete', 'complete', floc(f), why or 'never returns true', fn=f)


def found(a, pol):
    """the literal says the value was found"""
    x = strip(nz(a[1]))
    if a[0] == 'true':
        return pol
    if a[0] == 'eq' and a[2] == C(0) and is_call(x, 'count'):
        return not pol
    if a[0] == 'eq' and (is_call(strip(nz(a[2])), 'end', 'cend') or is_call(x, 'end', 'cend')):
        return not pol
    return False


def required(P, R, f):
    n, w1, w2 = 0, None, None
    for p in rt.flow(f):
        if p.end[0] != 'ret' or not rt.enqueues(p):
            continue
        n += 1
        if not any(a[0] == 'true' and pol and is_call(strip(nz(a[1])), 'allArgumentsSet') and strip(nz(a[1]))[2] == KER or
                   a[0] == 'eq' and a[2] == C(0) and not pol and is_call(strip(nz(a[1])), 'allArgumentsSet') for a, pol in p.lits):
            w1 = 'a kernel is launched without all its arguments'
        mk = [k for k, e in enumerate(p.events) if e[0] == 'call' and e[2] and e[2].endswith('Kernel::Kernel') and nz(e[3][1]) == KER]
        q = [k for k, e in enumerate(p.events) if e[0] == 'call' and last(e[2]) == 'asyncEnqueue']
        if len(mk) != 1 or not q or mk[0] > q[0]:
            w2 = 'the kernel is not copied before it is enqueued'
    R.check(n and not w1, 'required', 'required', floc(f), w1, fn=f)
    R.check(n and not w2, 'required', 'copied', floc(f), w2, fn=f)
