"""C09: every identity built-in is evaluated path-wise by constant propagation for the dimensions 0, 1, 2 and a set of
out-of-range ones; the value handed to the result must be the matching component of the quantity the function is named
after (identified through its getter or field), resp. the defined default.  Linear ids and the ids computed by the
constructors are compared as polynomials over those components; getters are shown to return their own field."""
from common import *
from ceval import Ev, isc, lift
from flow import Flow
import re

TECHNIQUE = 'path-wise constant propagation of the dimension argument; polynomial comparison of id expressions'
TUS = ['WorkItemBuiltins', 'KernelInvocation', 'WorkGroup', 'WorkItem', 'common']
W_ = 'oclgrind::WorkItemBuiltins::'
OUT = (3, 4, 5, 7, 8, 255, 256, 1 << 31, (1 << 32) - 1)      # the argument is a uint
KI, WG, WI = 'KernelInvocation', 'WorkGroup', 'WorkItem'
# name -> (object, quantity, default)
DIMS = {'get_global_id': (WI, 'globalID', 0), 'get_global_size': (KI, 'globalSize', 1), 'get_global_offset': (KI, 'globalOffset', 0),
        'get_group_id': (WG, 'groupID', 0), 'get_local_id': (WI, 'localID', 0), 'get_local_size': (WG, 'groupSize', 1),
        'get_enqueued_local_size': (KI, 'localSize', 1), 'get_num_groups': (KI, 'numGroups', 1)}
GETTERS = [(KI, 'getGlobalOffset'), (KI, 'getGlobalSize'), (KI, 'getLocalSize'), (KI, 'getNumGroups'), (KI, 'getWorkDim'),
           (WG, 'getGroupID'), (WG, 'getGroupIndex'), (WG, 'getGroupSize'), (WI, 'getGlobalID'), (WI, 'getGlobalIndex'),
           (WI, 'getLocalID')]


def owner(e, me):
    """class the object expression stands for, seen from a function whose work-item/invocation/group are `me`"""
    e = nz(e)
    if e in me:
        return me[e]
    if e[0] == 'load' and e[1][0] == 'fld':
        return {'m_kernelInvocation': KI, 'm_workGroup': WG}.get(e[1][2]) if owner(e[1][1], me) == WI else None
    if e[0] == 'call' and e[1].split('::')[-1] in ('getWorkGroup', 'getKernelInvocation') and owner(e[2], me) == WI:
        return e[1].split('::')[-1][3:]
    return None


def origin(a, me):
    """(class, quantity) of an address: &obj->m_x, or the object a getter returned"""
    a = strip(a)
    if a[0] == 'ptrto':
        a = a[1]
    if a[0] == 'fld' and a[2].startswith('m_'):
        return owner(a[1], me), a[2][2:]
    if a[0] == 'call' and re.search(r'::get[A-Z]\w*$', a[1]) and len(a) == 3:
        n = a[1].split('::')[-1][3:]
        o = owner(a[2], me)
        if o == a[1].split('::')[-2]:
            return o, n[0].lower() + n[1:]
    if a in me:
        return me[a]
    return None


def quantity(e, me):
    """(class, quantity, component|None) a value expression denotes"""
    e = strip(e)
    if e[0] == 'call':
        r = origin(e, me)
        return r + (None,) if r else None
    if e[0] != 'load':
        return None
    a = e[1]
    c = 0
    if is_call(a, 'Size3::operator[]'):
        k = nz(a[3])
        if k[0] != 'c' or not 0 <= k[1] < 3:
            return None
        a, c = a[2], k[1]
    elif a[0] == 'fld' and a[2] in 'xyz':
        a, c = a[1], 'xyz'.index(a[2])
    else:
        b, p = byteoff(a)
        if set(p) - {()} or p.get((), 0) not in (0, 8, 16):
            return None
        a, c = b, p.get((), 0) // 8
        if a[0] == 'fld' and a[2] in 'xyz':
            a, c = a[1], c + 'xyz'.index(a[2])
    r = origin(a, me)
    return r + (c,) if r else None


def qpoly(e, me):
    """polynomial over quantities, or None"""
    def leaf(x):
        return quantity(x, me) or ('?', show(x))
    return poly(e, leaf)


def lin(ids, sizes, off=None):
    """row-major linearisation polynomial of ids (minus offsets) over sizes"""
    r = {}
    for c, by in ((0, ()), (1, (0,)), (2, (0, 1))):
        t = {(ids + (c,),): 1}
        if off:
            t = padd(t, {(off + (c,),): -1})
        for s in by:
            t = pmul(t, {(sizes + (s,),): 1})
        r = padd(r, t)
    return r


def sets(p):
    return [e for e in p.calls('TypedValue::setUInt', 'TypedValue::setSInt') if nz(e[3][0]) == ('arg', 'result')]


def finals(f, names):
    """per returning path: {field: [component values at the end]} of this->field"""
    out = []
    for p in Flow(f).paths():
        if p.end[0] == 'ret':
            out.append({n: [p.load(p.flow.comp(('fld', THIS, n), c)) for c in range(3)] if d else p.load(('fld', THIS, n)) for n, d in names})
    need(out, '%s never returns' % f.short)
    return out


def run(P, R):
    me = {('arg', 'workItem'): WI, THIS: '?'}
    R.rule('dimension', 'get_*(d) returns component d of the quantity it is named after for d = 0,1,2 and its default otherwise', 8 * 12)
    for n, (cl, qn, dflt) in DIMS.items():
        f = P.one(W_ + n)
        for d in (0, 1, 2) + OUT:
            def leaf(e, d=d):
                if is_call(e, 'TypedValue::getUInt', 'TypedValue::getSInt') and nz(e[3]) == C(0) and mentions(
                        e, lambda x: is_call(x, 'getArgOperand', 'getOperand') and len(x) == 4 and nz(x[2]) == ('arg', 'callInst') and nz(x[3]) == C(0)):
                    return d
                return None
            bad = None
            k = 0
            for p in Flow(f, leaf).paths():
                if p.end[0] != 'ret':
                    bad = 'does not return'
                    break
                k += 1
                on = sets(p)
                if len(on) != 1 or nz(on[0][3][2]) != C(0):
                    bad = 'sets the result %d times' % len(on)
                    break
                v = on[0][3][1]
                want = (cl, qn, d) if d < 3 else dflt
                got = strip(v)[1] if strip(v)[0] == 'c' else quantity(v, me)
                if got != want:
                    bad = 'returns %s instead of %s' % (show(v), '%s::%s[%d]' % want if d < 3 else dflt)
                    break
            R.check(bad is None and k > 0, 'dimension', '%s:%d' % (n, d), floc(f), '%s(%d) %s' % (n, d, bad), fn=f)
    R.rule('scalar', 'get_work_dim and the linear ids return the value defined for them', 6)
    WANT = {'get_work_dim': {((KI, 'workDim', None),): 1},
            'get_global_linear_id': lin((WI, 'globalID'), (KI, 'globalSize'), (KI, 'globalOffset')),
            'get_local_linear_id': lin((WI, 'localID'), (WG, 'groupSize'))}
    for n, want in WANT.items():
        f = P.one(W_ + n)
        for p in Flow(f).paths():
            on = sets(p)
            if not R.check(p.end[0] != 'ret' or len(on) == 1 and nz(on[0][3][2]) == C(0), 'scalar', n + ':set', floc(f), 'a path does not set the result once', fn=f) \
                    or not on:
                continue
            got = qpoly(deep(on[0][3][1]), me)
            if n == 'get_work_dim':
                got = {(((KI, 'workDim', None),)) if m == ((KI, 'workDim', 0),) else m: k for m, k in got.items()}
            R.check(same_poly(got, want), 'scalar', n, on[0][1].loc(), 'computes %s instead of %s' % (qs(got), qs(want)), fn=f)
    getters(P, R)
    ctors(P, R)


def nzq(e):
    return deep(e)


def same_poly(a, b):
    srt = lambda p: {tuple(sorted(m, key=repr)): c for m, c in p.items()}      # noqa: E731
    return srt(a) == srt(b)


def qs(p):
    def one(l):
        if l[0] == '?':
            return l[1]
        return '%s::%s%s' % (l[0], l[1], '' if l[2] is None else '[%d]' % l[2])
    return ' + '.join(('%d*' % c if c != 1 else '') + '*'.join(one(l) for l in m) for m, c in p.items()) or '0'


def getters(P, R):
    R.rule('getter', 'each getter returns the member it is named after', 11)
    for cl, g in GETTERS:
        f = P.one('oclgrind::%s::%s' % (cl, g))
        n = 'm_' + g[3].lower() + g[4:]
        ok = False
        fieldp = ('fld', THIS, n)
        cp = [c for c in f.calls if (c.callee or '').startswith('llvm.memcpy')]
        if cp:
            a = [nz(x) for x in args(f, cp[0])]
            ok = len(cp) == 1 and a[1] == fieldp and a[2] == C(24) and path_avoiding(f, cp) is None and not stores(f)
        else:
            rv = ret_values(f)
            if rv and rv[0][0] is not None:
                ok = all(nz(v) in (('load', fieldp), fieldp) for v, _, _ in rv)
            elif stores(f):
                got = {}
                for s in stores(f):
                    b, p = byteoff(f.expr(s.args[1]))
                    c = p.get((), 0) // 8
                    if b[0] == 'fld' and b[2] in 'xyz':
                        c += 'xyz'.index(b[2])
                    q_ = quantity(f.expr(s.args[0]), {THIS: cl})
                    got[c] = q_
                ok = got == {c: (cl, n[2:], c) for c in range(3)}
        R.check(ok, 'getter', '%s::%s' % (cl, g), floc(f), '%s does not return %s' % (g, n), fn=f)
    R.rule('index', 'indexing a Size3 selects x, y, z for 0, 1, 2', 6)
    for f in P.get('oclgrind::Size3::operator[]'):
        pn = pnames(f)[1]
        for d in range(3):
            ev = Ev(f, lambda e, d=d: d if nz(e) == ('arg', pn) and e[0] == 'arg' else None)
            got = []
            for kn, path, came, end in ev.explore(0):
                t = f.blocks[path[-1]].term
                if t.op != 'ret':
                    got.append(None)
                    continue
                a = lift(ev.val(f.expr(t.args[0]), came, kn))
                c = 0
                if a[0] == 'fld' and a[2] in 'xyz' and nz(a[1]) == THIS:
                    c = 'xyz'.index(a[2])
                else:
                    b, p = byteoff(a)
                    if nz(b) != THIS or set(p) - {()}:
                        got.append(None)
                        continue
                    c = p.get((), 0) // 8
                got.append(c)
            R.check(got and all(g == d for g in got), 'index', '%s[%d]' % (f.name, d),
                    floc(f), 'component %d is not what [%d] returns' % (d, d), fn=f)


def ctors(P, R):
    R.rule('ctor', 'constructors compute the ids from group id, group size, local id and offset and keep the launch sizes unchanged', 25)
    def vec(f, fin, field, me, want):
        for c in range(3):
            got = [qpoly(deep(x[field][c]), me) for x in fin]
            bad = [g for g in got if not same_poly(g, want(c))]
            R.check(not bad, 'ctor', '%s:%s.%s' % (f.short, field, 'xyz'[c]), floc(f),
                    '%s.%s is %s instead of %s' % (field, 'xyz'[c], qs(bad[0]) if bad else '', qs(want(c))), fn=f)

    def scalar(f, fin, field, me, want):
        bad = [g for g in (qpoly(deep(x[field]), me) for x in fin) if not same_poly(g, want)]
        R.check(not bad, 'ctor', '%s:%s' % (f.short, field), floc(f), '%s is %s instead of %s' % (field, qs(bad[0]) if bad else '', qs(want)), fn=f)

    def one(q_):
        return lambda c: {(q_ + (c,),): 1}
    f = P.one('oclgrind::KernelInvocation::KernelInvocation')
    prm = pnames(f)
    me = {('arg', n): ('P', n) for n in prm[4:7]}
    names = ('m_globalOffset', 'm_globalSize', 'm_localSize')
    fin = finals(f, [(n, True) for n in names] + [('m_workDim', False)])
    for n, pn in zip(names, prm[4:7]):
        vec(f, fin, n, me, one(('P', pn)))
    R.check(all(nz(x['m_workDim']) == ('arg', prm[3]) for x in fin), 'ctor', 'KernelInvocation:m_workDim', floc(f),
            'm_workDim is not the launch dimension', fn=f)
    f = [x for x in P.get('oclgrind::WorkGroup::WorkGroup') if len(x.params) == 4]
    need(len(f) == 1, 'WorkGroup constructor not found')
    f = f[0]
    ki, gid, gsz = pnames(f)[1:4]
    me = {('arg', ki): KI, ('arg', gid): (WG, 'groupID'), ('arg', gsz): (WG, 'groupSize'), THIS: WG}
    fin = finals(f, [('m_groupID', True), ('m_groupSize', True), ('m_groupIndex', False)])
    vec(f, fin, 'm_groupID', me, one((WG, 'groupID')))
    vec(f, fin, 'm_groupSize', me, one((WG, 'groupSize')))
    scalar(f, fin, 'm_groupIndex', me, lin((WG, 'groupID'), (KI, 'numGroups')))
    f = P.one('oclgrind::WorkItem::WorkItem')
    ki, wg, lid = pnames(f)[1:4]
    me = {('arg', ki): KI, ('arg', wg): WG, ('arg', lid): (WI, 'localID'), THIS: WI}
    fin = finals(f, [('m_localID', True), ('m_globalID', True), ('m_globalIndex', False)])
    vec(f, fin, 'm_localID', me, one((WI, 'localID')))

    def gid(c):
        return padd(padd({((WI, 'localID', c),): 1}, {((WG, 'groupID', c), (KI, 'localSize', c)): 1}), {((KI, 'globalOffset', c),): 1})
    vec(f, fin, 'm_globalID', me, gid)
    want = {}
    for c, by in ((0, ()), (1, (0,)), (2, (0, 1))):
        t = gid(c)
        for s_ in by:
            t = pmul(t, {((KI, 'globalSize', s_),): 1})
        want = padd(want, t)
    scalar(f, fin, 'm_globalIndex', me, want)
    # run() passes the launch through
    f = [x for x in P.get('oclgrind::KernelInvocation::run') if len(x.params) >= 6]
    need(len(f) == 1, 'KernelInvocation::run not found')
    f = f[0]
    c = calls(f, 'KernelInvocation::KernelInvocation')
    prm = [('arg', n) for n in pnames(f)]
    prm = prm[1:] if prm[0] == THIS else prm
    ok = len(c) == 1
    if ok:
        a = [nz(x) for x in args(f, c[0])][1:]
        a = [x[1] if x[0] == 'ptrto' else x for x in a]
        ok = a == [nz(x) for x in prm]
    R.check(ok, 'ctor', 'KernelInvocation::run', floc(f), 'the launch parameters are not handed to the invocation unchanged and in order', fn=f)
