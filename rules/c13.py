"""C13: for every operation and operand width the generic handler is followed with that operation: the value stored, the value
returned, the bounds test before and the mutex held around load and store are compared with the operation's definition.
Every name of the atomic built-ins is followed through the dispatcher to the handler instance, operation and operands used."""
from common import *
from flow import Flow
import c12

TECHNIQUE = 'path-wise value propagation per (operation, width) and per built-in name; ordering rule lock < load < store < unlock'
TUS = ['Memory', 'WorkItemBuiltins']
M = 'oclgrind::Memory::'
OPS = 'Add And CmpXchg Dec Inc Max Min Or Sub Xchg Xor'.split()
T = {'int': (4, 's'), 'unsigned int': (4, 'u'), 'long': (8, 's'), 'unsigned long': (8, 'u'), 'long long': (8, 's'), 'unsigned long long': (8, 'u')}


def tparam(f):
    m = re.search(r'<(.*)>$', f.qual)
    return T[m.group(1)]


def isptr(e):
    """the addressed bytes: m_memory[extractBuffer(address)]->data + extractOffset(address)"""
    b, p = byteoff(strip_bc(e))
    b = nz(b)
    if b[0] == 'load':
        b = b[1]
    # data member of the buffer
    okb = mentions(b, lambda x: x[0] == 'fld' and x[2] == 'data') and mentions(b, lambda x: is_call(x, 'Memory::extractBuffer')) and \
        mentions(b, lambda x: x[0] == 'fld' and x[2] == 'm_memory')
    return okb and len(p) == 1 and list(p.values()) == [1] and all(
        len(m) == 1 and is_call(m[0], 'Memory::extractOffset') and m[0][-1] == ('arg', 'address') for m in p)


def strip_bc(e):
    while e[0] in ('bitcast', 'ptrto'):
        e = e[-1]
    return e


def run(P, R):
    update(P, R)
    cmpxchg(P, R)
    names(P, R)


def valid(p, n):
    """True/False when the path tested the validity of the accessed bytes"""
    for a, pol in p.lits:
        if a[0] == 'true' and is_call(a[1], 'Memory::isAddressValid'):
            return pol if nz(a[1][3]) == ('arg', 'address') and a[1][4] == C(n) else None
    return None


def value(op, old, val, p, store, sg):
    """None when the stored expression (None: nothing stored) is op(old, val)"""
    v = strip(store) if store is not None else old
    same_ = lambda a, b: nz(a) == nz(b) or poly(nz(a)) == poly(nz(b))
    if op == 'Add':
        ok = poly(nz(v)) == padd(poly(nz(old)), poly(nz(val)))
    elif op == 'Sub':
        ok = poly(nz(v)) == padd(poly(nz(old)), pscale(poly(nz(val)), -1))
    elif op == 'Inc':
        ok = poly(nz(v)) == padd(poly(nz(old)), {(): 1})
    elif op == 'Dec':
        ok = poly(nz(v)) == padd(poly(nz(old)), {(): -1})
    elif op in ('And', 'Or', 'Xor'):
        w = nz(v)
        ok = w[0] == op.lower() and len(w) == 3 and {repr(w[1]), repr(w[2])} == {repr(nz(old)), repr(nz(val))}
    elif op == 'Xchg':
        ok = same_(v, val)
    else:
        q = P2(p, v)
        ok = extremum(q, nz(old), nz(val), sg + op.lower())
    return ok


class P2:
    def __init__(self, p, v):
        self.ret, self.lits = v, p.lits


def extremum(q, old, val, want):
    kind, big = want[0], want[1:] == 'max'
    e = nz(q.ret)
    if e[0] == 'select':
        c = literal(e[1])
        alts = [(c, e[2]), ((c[0], not c[1]), e[3])]
    elif e[0] == 'call' and short(e[1]) in ('max', 'min'):
        return False
    else:
        alts = [(None, e)]
    for c, v in alts:
        lits = list(q.lits) + ([c] if c else [])
        if v not in (old, val):
            return False
        other = val if v == old else old
        ok = False
        for a, pol in lits:
            if a[0] not in ('lt', 'slt') or (a[0] == 'slt') != (kind == 's'):
                continue
            x, y = nz(a[1]), nz(a[2])
            if {repr(x), repr(y)} != {repr(old), repr(val)}:
                continue
            hi, lo = (y, x) if pol else (x, y)          # lo <= hi known
            ok = ok or (v == hi if big else v == lo)
        if not ok:
            return False
    return True


def guarded(f, p, glob):
    """why the accesses of a path are not made under the mutex, or None; mutex expression"""
    ev = lock_events(f)
    held, mutex, why, loads_, touched = [], None, None, 0, False
    for b in p.blocks:
        for i in f.blocks[b].insts:
            e = ev.get(i.id)
            if e:
                if e[0] == '+':
                    if held:
                        why = why or 'locks twice'
                    held.append(e[1])
                    mutex = mutex or e[1]
                elif held:
                    held.pop()
            if i.op in ('load', 'store'):
                a = f.expr(i.args[0] if i.op == 'load' else i.args[1])
                if isptr(a):
                    touched = True
                    if glob and (not held or held[-1] != mutex):
                        why = why or '%ss the location without its mutex (line %s)' % (i.op, i.line)
    if glob and touched and held:
        why = why or 'leaves with the mutex held'
    # one critical section only: load and store must not be in separate sections
    secs = sum(1 for b in p.blocks for i in f.blocks[b].insts if ev.get(i.id, ('', 0))[0] == '+')
    if glob and touched and secs > 1:
        why = why or 'splits the update into several critical sections'
    return why, mutex


def mutexok(m):
    """the mutex depends on the location only and is the same for every byte an aligned 8-byte access covers"""
    m = nz(m)
    ix = [x for x in subexprs(m) if isinstance(x, tuple) and x and x[0] in ('ptr', 'idx')]
    if not ix:
        return True                        # a single mutex
    e = strip(ix[0][2])
    if mentions(e, lambda x: x[0] in ('load', 'phi', 'alloca') or x[0] == 'arg' and x[1] not in ('address', 'this')):
        return False
    return granule(e) >= 8


def granule(e):
    """aligned block size (in bytes of the offset) on which e is constant"""
    e = strip(e)
    if e[0] == 'c':
        return 1 << 30
    if e[0] == 'lshr' and strip(e[2])[0] == 'c':
        return granule(e[1]) << strip(e[2])[1]
    if e[0] == 'udiv' and strip(e[2])[0] == 'c':
        return granule(e[1]) * strip(e[2])[1]
    if e[0] in ('and', 'or', 'xor', 'add', 'mul', 'urem', 'sub'):
        g = 1
        if e[0] == 'and':
            for x, y in ((e[1], e[2]), (e[2], e[1])):
                if strip(y)[0] == 'c' and strip(y)[1] > 0:
                    low = strip(y)[1] & -strip(y)[1]
                    g = max(g, low * granule(x) if granule(x) == 1 else granule(x))
        return max(g, min(granule(e[1]), granule(e[2])))
    if is_call(e, 'Memory::extractOffset') or e == ('arg', 'address'):
        return 1
    return 1


def update(P, R):
    R.rule('operation', 'the handler stores exactly the named function of the old value and the operand, with the operand\'s signedness, and returns the old value', 40)
    R.rule('bounds', 'an atomic access touches memory only after the accessed bytes were found valid', 40)
    R.rule('guarded', 'on global memory the location is read and written inside one critical section of the mutex of that location', 44)
    R.rule('mutex', 'the mutex depends only on the location and is shared by all atomics that may overlap it', 6)
    fs = [x for x in P.fns.values() if x.qual.startswith(M + 'atomic<')]
    need(len(fs) >= 4, 'Memory::atomic instances: %d' % len(fs))
    for f in fs:
        n, sg = tparam(f)
        mset = set()
        for op in OPS:
            k = enum_val(P, 'AtomicOp', 'Atomic' + op)
            key = '%s:%s' % (f.short.split('::')[-1], op)
            good = bnd = None
            why = gw = None
            for p in Flow(f, leaf=lambda e: k if e == ('arg', 'op') else None).paths():
                st = [e for e in p.stores() if isptr(e[2])]
                touched = [i for b in p.blocks for i in f.blocks[b].insts if i.op in ('load', 'store') and isptr(
                    f.expr(i.args[0] if i.op == 'load' else i.args[1]))]
                v = valid(p, n)
                bnd = (bnd is not False) and (not touched or v is True)
                glob = [pol for a, pol in p.lits if a[0] == 'eq' and nz(a[1]) == ('load', ('fld', THIS, 'm_addressSpace')) and
                        a[2] == C(enum_val(P, 'AddressSpace', 'AddrSpaceGlobal'))]
                g, m = guarded(f, p, not glob or glob[0])
                gw = gw or g
                if m:
                    mset.add(m)
                if p.end[0] != 'ret':
                    if op != 'CmpXchg' or st:
                        good, why = False, 'is refused'
                    continue
                if v is True:
                    old = strip(p.ret)
                    if op == 'CmpXchg':
                        good, why = False, 'is performed by the handler without comparand'
                        continue
                    if not (old[0] == 'load' and isptr(old[1])):
                        good, why = False, 'returns %s' % S(old)
                        continue
                    if len(st) > 1 or not value(op, old, ('arg', 'value'), p, st[0][3] if st else None, sg):
                        good, why = False, 'stores %s' % (S(st[0][3]) if st else 'nothing')
                        continue
                    good = good is not False
                elif strip(p.ret) != C(0):
                    good, why = False, 'returns an arbitrary value for an invalid address'
            if op == 'CmpXchg':
                good = good is not False
            R.check(good is True, 'operation', key, floc(f), 'atomic %s on %s %s' % (op.lower(), f.short, why), fn=f)
            R.check(bnd is True, 'bounds', key, floc(f), '%s touches memory of an address not found valid' % f.short, fn=f)
            R.check(gw is None, 'guarded', key, floc(f), '%s %s' % (f.short, gw), fn=f)
        mutexes(R, f, mset)


seen = {}


def mutexes(R, f, mset):
    R.check(len(mset) == 1 and all(mutexok(m) for m in mset), 'mutex', f.short.split('::')[-1], floc(f),
            'overlapping atomics may use different mutexes: ' + ', '.join(S(m) for m in mset), fn=f)
    for m in mset:
        seen.setdefault(id(R), set()).add(repr(nz(m)))


def cmpxchg(P, R):
    R.rule('cmpxchg', 'compare-exchange stores the new value exactly when the old value equals the comparand and returns the old value', 2)
    fs = [x for x in P.fns.values() if x.qual.startswith(M + 'atomicCmpxchg<')]
    need(len(fs) >= 2, 'Memory::atomicCmpxchg instances: %d' % len(fs))
    for f in fs:
        n, _ = tparam(f)
        key = f.short.split('::')[-1]
        bad, bnd, gw, mset, hit = None, True, None, set(), set()
        for p in Flow(f).paths():
            if p.end[0] != 'ret':
                bad = bad or 'does not return'
                continue
            st = [e for e in p.stores() if isptr(e[2])]
            touched = [i for b in p.blocks for i in f.blocks[b].insts if i.op in ('load', 'store') and isptr(
                f.expr(i.args[0] if i.op == 'load' else i.args[1]))]
            v = valid(p, n)
            bnd = bnd and (not touched or v is True)
            glob = [pol for a, pol in p.lits if a[0] == 'eq' and nz(a[1]) == ('load', ('fld', THIS, 'm_addressSpace'))]
            g, m = guarded(f, p, not glob or glob[0])
            gw = gw or g
            if m:
                mset.add(m)
            if v is not True:
                continue
            old = strip(p.ret)
            if not (old[0] == 'load' and isptr(old[1])):
                bad = bad or 'returns %s' % S(old)
                continue
            eq = [pol for a, pol in p.lits if a[0] == 'eq' and {repr(nz(a[1])), repr(nz(a[2]))} == {repr(nz(old)), repr(('arg', 'cmp'))}]
            if not eq:
                bad = bad or 'does not compare the old value with the comparand'
                continue
            hit.add(eq[0])
            # putting the old value back stores nothing
            put = [picked(p, e[3]) for e in st]
            st = [(e, v) for e, v in zip(st, put) if nz(strip(v)) != nz(old)]
            if eq[0] != bool(st) or len(st) > 1 or st and nz(st[0][1]) != ('arg', 'value'):
                bad = bad or ('stores %s when the comparison is %s' % (S(st[0][1]) if st else 'nothing', eq[0]))
        R.check(bad is None and hit == {True, False}, 'cmpxchg', key, floc(f), '%s %s' % (f.short, bad), fn=f)
        R.check(bnd, 'bounds', key, floc(f), '%s touches memory of an address not found valid' % f.short, fn=f)
        R.check(gw is None, 'guarded', key, floc(f), '%s %s' % (f.short, gw), fn=f)
        mutexes(R, f, mset)
    ms = seen.pop(id(R), set())
    R.check(len(ms) == 1, 'mutex', 'all', floc(fs[0]), 'atomics of different kinds use different mutexes: ' + ', '.join(sorted(ms)), fn=fs[0])


# ------------------------------------------------------------------------ names
NAMES = {p + n.lower(): n for p in ('atom_', 'atomic_') for n in OPS}


def pairs(P, f):
    """{name: operation number} of the dispatcher's table (empty when there is none)"""
    strs, vals = {}, {}
    for i in f.all():
        if i.blk.id not in f.idom:
            continue
        if i.op == 'call' and short(i.callee) == 'basic_string' and len(i.args) >= 2:
            a = [f.expr(x) for x in i.args]
            t = a[1]
            while t[0] == 'ptrto':
                t = t[1]
            if t[0] == 's':
                strs[a[0]] = t[1]
        if i.op == 'store':
            d, v = f.expr(i.args[1]), strip(f.expr(i.args[0]))
            if d[0] == 'fld' and v[0] == 'c':
                vals[d[1]] = v[1]
    return {strs[k]: vals[k] for k in strs if k in vals}


def names(P, R):
    R.rule('dispatch', 'each atomic built-in calls the handler of its operation, width and signedness with its own operands and returns the old value', 80)
    R.rule('aligned', 'a misaligned atomic access is reported, an aligned one is not', 22)
    R.rule('signed', 'operand signedness is taken from the last character of the overload', 2)
    f = builtin(P, 'atomic_op')
    tab = pairs(P, f)
    ins, res = ('arg', 'callInst'), ('arg', pnames(f)[4])
    size = ('load', ('fld', res, 'size'))
    for name, op in sorted(NAMES.items()):
        k = enum_val(P, 'AtomicOp', 'Atomic' + op)
        for n in (4, 8):
            for sg in (0, 1):
                def leaf(e):
                    if e[0] == 'load' and e[1][0] == 'call' and short(e[1][1]) in ('at', 'operator[]') and e[1][-1] == ('arg', 'fnName'):
                        return tab.get(name)
                    if e[0] == 'load' and e[1][0] == 'fld' and e[1][2] in ('second', '#1') and mentions(e, lambda x: x == ('arg', 'fnName')):
                        return tab.get(name)
                    if e[0] == 'call' and short(e[1]) in ('operator==', 'operator!=', 'compare') and ('arg', 'fnName') in e[2:]:
                        t = [x for x in e[2:] if x[0] == 's']
                        if t:
                            q = t[0][1] == name
                            return int(q if short(e[1]) == 'operator==' else not q)
                    if is_call(e, '_is_signed_type'):
                        return sg
                    if e[0] == 'load' and (e[1] == res or e[1] == ('fld', res, 'size')):
                        return n
                    return None
                check_name(P, R, f, name, op, k, n, sg, leaf, ins, res)
    # alignment and signedness
    for name, op in sorted(NAMES.items()):
        ok = True
        for n in (4, 8):
            def leaf(e):
                if e[0] == 'load' and e[1][0] == 'call' and short(e[1][1]) in ('at', 'operator[]') and e[1][-1] == ('arg', 'fnName'):
                    return tab.get(name)
                if e[0] == 'load' and (e[1] == res or e[1] == ('fld', res, 'size')):
                    return n
                return None
            for p in Flow(f, leaf=leaf).paths():
                if p.end[0] == 'iter':
                    continue
                lit = [pol for a, pol in p.lits if a[0] == 'eq' and a[2] == C(0) and a[1][0] == 'and' and mask(a[1], n)] + \
                    [pol for a, pol in p.lits if a[0] == 'eq' and a[2] == C(0) and a[1][0] == 'urem' and addr(a[1][1]) and a[1][2] == C(n)]
                rep = [e for e in p.events if e[0] == 'call' and (e[2] or '').endswith(('Context::logError', 'Context::Message::send'))]
                ok = ok and len(lit) == 1 and bool(rep) == (not lit[0])
        R.check(ok, 'aligned', name, floc(f), '%s does not report exactly the misaligned addresses' % name, fn=f)
    sc = [i for i in f.calls if (i.callee or '').endswith('::_is_signed_type') and i.blk.id in f.idom]
    for i in sc:
        a = strip(f.expr(i.args[0]))
        ok = a[0] == 'load' and a[1][0] == 'call' and short(a[1][1]) == 'back' and nz(a[1][2]) == ('arg', 'overload')
        R.check(ok, 'signed', 'last', i.loc(), 'signedness is taken from %s' % S(a), fn=f)
    g = builtin(P, '_is_signed_type')
    s = [x[1] for i in g.calls for x in [g.expr(a) for a in i.args] if x[0] == 's']
    ok = len(s) == 1 and set('csil') <= set(s[0]) and not set(s[0]) & set('htjmybo')
    pol = all(p.ret is not None and literal(p.ret)[0][0] == 'eq' and not literal(p.ret)[1] for p in Flow(g).paths() if p.end[0] == 'ret')
    R.check(ok and pol, 'signed', 'set', floc(g), 'the set of signed operand types is %s' % s, fn=g)


def mask(e, n):
    for x, y in ((e[1], e[2]), (e[2], e[1])):
        if y == C(n - 1) and addr(x):
            return True
    return False


def addr(e):
    return oparg(e) is not None and oparg(e)[:2] == ('Pointer', 0)


def check_name(P, R, f, name, op, k, n, sg, leaf, ins, res):
    key = '%s:%d:%s' % (name, n, 'su'[not sg])
    bad, cnt = None, 0
    for p in Flow(f, leaf=leaf).paths():
        if p.end[0] == 'iter':
            continue
        if p.end[0] != 'ret':
            bad = bad or 'is not carried out'
            continue
        cs = [e for e in p.events if e[0] == 'call' and re.match(re.escape(M) + r'atomic(Cmpxchg)?<', e[2] or '')]
        if len(cs) != 1:
            bad = bad or 'performs %d atomic accesses' % len(cs)
            continue
        c = cs[0]
        cnt += 1
        w, s = T[re.search(r'<(.*)>$', c[2]).group(1)]
        a = c[3]
        if w != n:
            bad = bad or 'accesses %d bytes for a %d-byte type' % (w, n)
        sp = mentions(a[0], lambda x: is_call(x, 'WorkItem::getMemory')) and mentions(a[0], lambda x: is_call(x, 'getPointerAddressSpace')) and \
            mentions(a[0], lambda x: callarg(x) == 0)
        if not sp:
            bad = bad or 'uses the memory %s' % S(a[0])
        if op == 'CmpXchg':
            ops = [oparg(x) for x in a[2:]]
            if 'atomicCmpxchg' not in c[2] or not addr(a[1]) or len(ops) != 2 or any(o is None for o in ops) or [o[1] for o in ops] != [1, 2] or \
                    any(o[0] not in ('UInt', 'SInt') or o[2] != C(0) for o in ops):
                bad = bad or 'calls %s(%s)' % (short(c[2]), ', '.join(S(x) for x in a[1:]))
        else:
            if 'atomicCmpxchg' in c[2] or a[1] != C(k) or not addr(a[2]):
                bad = bad or 'calls %s(%s)' % (short(c[2]), ', '.join(S(x) for x in a[1:]))
                continue
            o = oparg(a[3])
            if op not in ('Inc', 'Dec') and (o is None or o[1] != 1 or o[2] != C(0) or o[0] not in ('UInt', 'SInt')):
                bad = bad or 'uses the operand %s' % S(a[3])
            if op in ('Max', 'Min') and (s == 's') != bool(sg):
                bad = bad or 'compares as %s' % ('signed' if s == 's' else 'unsigned')
        st = [e for e in p.events if e[0] == 'call' and re.search(r'TypedValue::set(UInt|SInt)$', e[2] or '')]
        ret = ('call', c[2]) + tuple(a)
        if len(st) != 1 or nz(st[0][3][0]) != res or nz(st[0][3][1]) != nz(ret) or st[0][3][2] != C(0):
            bad = bad or 'does not return the old value'
    R.check(bad is None and cnt > 0, 'dispatch', key, floc(f), '%s (%d bytes, %s) %s' % (name, n, 'signed' if sg else 'unsigned', bad), fn=f)
