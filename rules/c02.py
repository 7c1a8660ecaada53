"""C02: every simulated access is announced exactly as performed."""
from common import *
from flow import Flow

TUS = ['Memory', 'Queue', 'WorkItem', 'WorkItemBuiltins', 'WorkGroup', 'Kernel', 'Program', 'KernelInvocation',
       'runtime', 'async_queue', 'Simulation', 'RaceDetector', 'MemCheck', 'Uninitialized', 'InteractiveDebugger']
MEM = 'oclgrind::Memory'
CTX = fld(THIS, 'm_context')
OPS = ['AtomicAdd', 'AtomicAnd', 'AtomicCmpXchg']


def valid_lit(A, S):
    return ('true', ('call', MEM + '::isAddressValid', THIS, A, S))


def once(R, f, name, want, cond=None, key=None, where='every', opt=None):
    """call `name` with argument list `want` happens exactly once on every path
    (on which literal cond holds); no other call of that name exists"""
    cs = calls(f, name)
    key = key or '%s:%s' % (f.short, name.split('::')[-1])
    loc = '%s:%s' % (f.relfile(), f.line)
    good = []
    for c in cs:
        a = [nz(x) for x in args(f, c)]
        bad = [(k, w, x) for k, (w, x) in enumerate(zip(want, a)) if w is not None and not match(w, x)]
        if len(a) != len(want) or bad:
            k, w, x = bad[0] if bad else (0, ('s', '?'), ('s', '?'))
            R.bad('as-performed', key, c.loc(), '%s announces argument %d as %s instead of %s' % (
                name.split('::')[-1], k, show(x, f), w if callable(w) else show(w, f)), f)
        else:
            R.ok('as-performed', '%s %s' % (key, c.loc()), f)
            good.append(c)
    if not good:
        R.bad('announced', key, loc, 'never calls %s' % name, f)
        return good
    # must-pass
    ends = opt if opt is not None else f.ret_insts()
    p = cut_path(f, good, cond)
    R.check(p is None, 'announced', key, '%s:%s' % (f.relfile(), f.blocks[p[-1]].term.line if p else f.line),
            'a path (lines %s) reaches the end without %s' % (path_lines(f, p) if p else '', name.split('::')[-1]), fn=f)
    for c in good:
        q2 = reach_without(f, c, good, [])
        lp = f.loop_of(c.blk.id)
        R.check(q2 is None or lp is not None and all(b in lp[1] for b in q2), 'announced', key + ':twice', c.loc(),
                'announced twice on one path', fn=f)
    return good


def match(w, x):
    return w(x) if callable(w) else same(w, x)


def cut_path(f, stops, cond):
    """path entry->ret avoiding stops along which literal cond (atom,pol) is not refuted"""
    stops = {i.id for i in stops}
    seen, st = set(), [(0, [0])]
    while st:
        b, path = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if any(i.id in stops for i in f.blocks[b].insts):
            continue
        if f.blocks[b].term.op == 'ret':
            return path
        for s in f.blocks[b].succs:
            if cond:
                ls = edge_literals(f, b, s)
                if any((nz_atom(a), p) == (nz_atom(c[0]), not c[1]) for a, p in ls for c in cond):
                    continue
            st.append((s, path + [s]))
    return None


def run(P, R):
    R.rule('announced', 'the announcement is made exactly once on every path of the access (including those that then '
           'fail validation)', 20)
    R.rule('as-performed', 'the announced memory, address, size, data and operation are those of the access itself', 14)
    R.rule('order', 'an access is announced before backing storage is touched', 6)
    A, SZ = arg('address'), arg('size')
    f = P.one(MEM + '::load')
    g = once(R, f, 'Context::notifyMemoryLoad', [CTX, THIS, A, SZ])
    before(R, f, g, A)
    f = P.one(MEM + '::store')
    g = once(R, f, 'Context::notifyMemoryStore', [CTX, THIS, A, SZ, arg('source')])
    before(R, f, g, A)
    f = P.one(MEM + '::copy')
    g = once(R, f, 'Context::notifyMemoryLoad', [CTX, THIS, arg('src'), SZ])
    isdata = lambda x: data_of(x) == arg('src')     # noqa: E731
    g2 = once(R, f, 'Context::notifyMemoryStore', [CTX, THIS, arg('dst'), SZ, isdata],
              cond=[(valid_lit(arg('src'), SZ), True)])
    before(R, f, g, arg('src'))
    before(R, f, g2, arg('src'))
    ats = [x for x in P.fns.values() if x.qual.startswith(MEM + '::atomic<')]
    need(len(ats) >= 4, 'Memory::atomic instances: %d' % len(ats))
    for f in ats:
        n = C(width(f))
        g = once(R, f, 'Context::notifyMemoryAtomicLoad', [CTX, THIS, arg('op'), A, n])
        g2 = once(R, f, 'Context::notifyMemoryAtomicStore', [CTX, THIS, arg('op'), A, n])
        before(R, f, g, A)
    cx = [x for x in P.fns.values() if x.qual.startswith(MEM + '::atomicCmpxchg<')]
    need(len(cx) >= 2, 'Memory::atomicCmpxchg instances: %d' % len(cx))
    opn = enum_val(P, 'AtomicOp', 'AtomicCmpXchg')
    for f in cx:
        n = C(width(f))
        g = once(R, f, 'Context::notifyMemoryAtomicLoad', [CTX, THIS, C(opn), A, n])
        before(R, f, g, A)
        # the store half accompanies the write of the new value, and only it
        ws = [s for s in stores(f) if data_of(f.expr(s.args[1])) is not None]
        cs = calls(f, 'Context::notifyMemoryAtomicStore')
        for c in cs:
            a = [nz(x) for x in args(f, c)]
            w = [CTX, THIS, C(opn), A, n]
            R.check(len(a) == 5 and all(same(x, y) for x, y in zip(a, w)), 'as-performed', f.short + ':store', c.loc(),
                    'store half announced with other arguments', fn=f)
        need(ws, '%s writes nothing' % f.short)
        silent, idle = None, None
        for p in Flow(f).paths():
            told = p.calls('Context::notifyMemoryAtomicStore')
            # putting the old value back writes nothing new
            put = [e for e in p.stores() if data_of(e[2]) is not None and nz(strip(picked(p, e[3]))) != nz(strip(p.ret or C(0)))]
            if put and not told:
                silent = put[0][1]
            if told and not put:
                idle = told[0][1]
        R.check(silent is None, 'announced', f.short + ':store', (silent or ws[0]).loc(), 'the new value is written '
                'without announcing the store half', fn=f)
        R.check(idle is None, 'announced', f.short + ':store-only', (idle or ws[0]).loc(), 'store half announced '
                'although the value was not written', fn=f)
    # allocation
    for name, data in (('allocateBuffer', arg('initData')), ('createHostBuffer', arg('ptr'))):
        f = P.one(MEM + '::' + name)
        cs = calls(f, 'Context::notifyMemoryAllocated')
        for c in cs:
            a = [nz(x) for x in args(f, c)]
            okr = {repr(nz(v)) for v, fs, b in ret_values(f) if nz(v) != C(0)}
            ok = len(a) == 6 and a[0] == CTX and a[1] == THIS and repr(a[2]) in okr and same(a[3], SZ) and \
                same(a[4], arg('flags')) and same(a[5], data)
            R.check(ok, 'as-performed', name, c.loc(), 'allocation announced with other memory/address/size/flags/data: '
                    + ', '.join(show(x, f) for x in a), fn=f)
        # success <=> announced
        for v, fs, b in ret_values(f):
            blk = f.blocks[b]
            if nz(v) == C(0):
                p = [c for c in cs if b in f.reachable_from(c.blk.id)]
                R.check(not p, 'announced', name + ':fail', '%s:%s' % (f.relfile(), blk.term.line),
                        'a refused allocation is announced', fn=f)
            else:
                p = reach_without(f, 0, [blk.term], cs)
                R.check(p is None, 'announced', name, '%s:%s' % (f.relfile(), blk.term.line),
                        'a successful allocation is not announced', fn=f)
        for c in cs:
            R.check(reach_without(f, c, cs, []) is None, 'announced', name + ':twice', c.loc(), 'announced twice', fn=f)
            # contents are in place before the announcement
            ini = [i for i in mem_intrinsics(f)]
            R.check(not any(reach_without(f, c, [i], []) for i in ini), 'order', name, c.loc(),
                    'allocation announced before its contents are initialised', fn=f)
    f = P.one(MEM + '::deallocateBuffer')
    once(R, f, 'Context::notifyMemoryDeallocated', [CTX, THIS, A])
    # clear: one announcement per live buffer, with the buffer's own address
    f = P.one(MEM + '::clear')
    cs = calls(f, 'Context::notifyMemoryDeallocated')
    R.check(bool(cs), 'announced', 'clear', '%s:%s' % (f.relfile(), f.line), 'clear() announces no deallocation', fn=f)
    for c in cs:
        lp = f.loop_of(c.blk.id)
        ok = lp is not None
        if ok:
            dels = [d for d in calls(f, 'operator delete') if d.blk.id in lp[1]]
            bufs = {repr(nz(args(f, d)[0])) for d in dels}
            # every iteration over a non-null slot passes the announcement
            ok = bool(dels)
            for d in dels:
                h = f.blocks[lp[0]]
                ok = ok and reach_without(f, d, [h.insts[0]], [c]) is None
        R.check(ok, 'announced', 'clear', c.loc(), 'a live buffer may be dropped by clear() unannounced', fn=f)
        a = [nz(x) for x in args(f, c)]
        ok = a[0] == CTX and a[1] == THIS and a[2][0] == 'shl' and a[2][2] == fld(THIS, 'm_numBitsAddress')
        R.check(ok, 'as-performed', 'clear', c.loc(), 'clear() announces %s' % show(a[2], f), fn=f)
    # map / unmap commands
    g = fld(CTX, None)
    for name, note, cmd in (('executeMap', 'notifyMemoryMap', ['address', 'offset', 'size', 'flags']),
                            ('executeUnmap', 'notifyMemoryUnmap', ['address', 'ptr'])):
        f = P.one('oclgrind::Queue::' + name)
        c0 = arg(f.params[1].get('dn'))
        want = [CTX, lambda x: is_call(x, 'Context::getGlobalMemory')]
        want += [(lambda x, c=c: cmdfld(P, x, c0, c)) for c in cmd]
        once(R, f, 'Context::' + note, want)
    # nobody else announces memory events
    R.rule('only-here', 'memory events are announced by the access routines only', 1)
    allowed = {'Memory', 'Queue'}
    n = 0
    for f in P.fns.values():
        for c in f.calls:
            cn = c.callee or ''
            if cn.startswith('oclgrind::Context::notifyMemory'):
                n += 1
                R.check(f.qual.split('::')[1] in allowed if '::' in f.qual else False, 'only-here', f.qual, c.loc(),
                        'announces %s without being the access routine' % cn, fn=f)


def cmdfld(P, x, c0, name):
    x = nz(x)
    return x == fld(c0, name) or (x == ('load', c0) and False) or (x[0] == 'load' and root(x[1]) == c0 and
                                                                   x[1][0] == 'fld' and x[1][2] == name)


def data_of(e):
    """address A when e points into (or is) backing storage of A"""
    r0, off = byteoff(nz(e))
    if r0[0] == 'load' and r0[1][0] == 'fld' and r0[1][2] == 'data':
        for x in subexprs(r0[1][1]):
            if is_call(x, 'Memory::extractBuffer'):
                return x[3]
    return None


def before(R, f, notes, A):
    ts = [i for i in mem_intrinsics(f) if any(data_of(a) is not None for a in args(f, i)[:2])]
    ts += [i for i in stores(f) if data_of(f.expr(i.args[1])) is not None]
    for t in ts:
        R.check(any(f.dominates(n, t) for n in notes), 'order', f.short, t.loc(),
                'backing storage is touched before the access is announced', fn=f)


def width(f):
    t = f.qual[f.qual.index('<') + 1:-1]
    return {'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8}[t]


