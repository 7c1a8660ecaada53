"""C07: for the barrier callback the exact condition under which each access table (local/global) of the group is
synchronised is computed as a truth table and compared with the fence bits; for the group and kernel end callbacks
path rules show that both tables are synchronised before merging, that every merged record is compared and stored while a
lock derived from its own buffer/offset is held (must-lockset dataflow), and that group tables, group state, kernel tables and race
list are emptied on every path.  All uses of the detector's shared members on worker threads must hold a lock; the
per-group state must be reached through the thread-local variable only."""
from common import *
import c06
from truth import differ, A, AND, OR, NOT, TRUE
import q

TECHNIQUE = 'truth tables of barrier conditions, must-lockset dataflow and must-pass rules over the detector callbacks'
TUS = ['RaceDetector', 'Memory', 'Context']
OPTS = ('--extra-inline', 'RaceDetector::(MemoryAccess::(is|get|set)|registerAccess)')
RD = 'oclgrind::RaceDetector::'
HOST = ('kernelBegin', 'kernelEnd', 'memoryAllocated', 'memoryDeallocated', 'RaceDetector', '~RaceDetector')


def erases(c):
    return (c.callee or '').split('::')[-1].split('[')[0] == 'erase'


def found(f, x, m, key):
    """x is the position of `key` in the map"""
    x = strip(x)
    return x[0] == 'call' and x[1].endswith('::find') and nz(x[2]) == m and holds(f, x[3], key)


def holds(f, e, val):
    """e is val, or the address of a local only ever set to val"""
    e = nz(e)
    if e == nz(val):
        return True
    if e[0] == 'alloca':
        ss = [s for s in stores(f) if nz(f.expr(s.args[1])) == e]
        return bool(ss) and all(nz(f.expr(s.args[0])) == nz(val) for s in ss)
    return False


def own_state(f, e, wg):
    """expression of this group's state: groups->at(workGroup) or groups[workGroup]"""
    e = nz(e)
    return e[0] == 'call' and e[1].split('::')[-1] in ('at', 'operator[]') and len(e) == 4 and holds(f, e[3], wg) and \
        mentions(e[2], lambda x: is_call(x, 'llvm.threadlocal.address.p0'))


def syncs(f, wg):
    """{'wiLocal'|'wiGlobal': [calls]} for syncWorkItems calls on this group's own tables with the right memory"""
    r = {}
    lm = ('call', 'oclgrind::WorkGroup::getLocalMemory', wg)
    gm = ('call', 'oclgrind::Context::getGlobalMemory', fld(THIS, 'm_context'))
    for c in calls(f, 'RaceDetector::syncWorkItems'):
        a = [nz(x) for x in args(f, c)]
        if a[3][0] != 'fld' or not own_state(f, a[3][1], wg) or a[2] != a[3][1] and not own_state(f, a[2], wg):
            continue
        if a[3][2] == 'wiLocal' and a[1] == nz(lm) or a[3][2] == 'wiGlobal' and a[1] == nz(gm):
            r.setdefault(a[3][2], []).append(c)
    return r


def run(P, R):
    WG = ('arg', 'workGroup')
    R.rule('barrier', 'a barrier synchronises the local table exactly when its flags contain the local fence and the global '
           'table exactly when they contain the global fence', 4)
    f = P.one(RD + 'workGroupBarrier')
    sy = syncs(f, WG)
    alls = calls(f, 'RaceDetector::syncWorkItems')
    for n, bitv in (('wiLocal', 1), ('wiGlobal', 2)):
        cs = sy.get(n, [])
        if not R.check(bool(cs), 'barrier', n, floc(f), 'never synchronises this group\'s %s accesses with the memory they '
                       'are in' % n, fn=f):
            continue
        w = differ(f, cs, A('ne0', ('and', ('arg', 'flags'), C(bitv))))
        R.check(w is None, 'barrier', n + ':when', cs[0].loc(), 'synchronisation of %s %s' % (n, w), fn=f)
    good = {c.id for v in sy.values() for c in v}
    R.check(all(c.id in good for c in alls), 'barrier', 'only', floc(f), 'synchronises a table with another memory or group', fn=f)

    # --------------------------------------------------------- sync itself
    R.rule('sync', 'synchronising compares a slot with the accesses merged before it in the same synchronisation, forgets the slot '
           'afterwards, and hands the global accesses (only) on to the group', 6)
    f = P.one(RD + 'syncWorkItems')
    acc, state, mem = ('arg', 'accesses'), ('arg', 'state'), ('arg', 'memory')
    ins = calls(f, 'RaceDetector::insert')
    head, its = c06.rounds(f)
    need(bool(its), 'syncWorkItems: no loop')
    inner = [l for l in f.loops if l[0] == head][0]
    outer = max((l for l in f.loops if head in l[1]), key=lambda l: len(l[1]))
    merged = []
    for c in calls(f, 'RaceDetector::check'):
        for x in args(f, c)[1:3]:
            merged += [y for y in subexprs(nz(x)) if y[0] == 'call' and y[1].split('::')[-1] in ('operator[]', 'at')
                       and y[2][0] == 'alloca']
    R.check(bool(merged), 'sync', 'fresh', floc(f), 'accesses are compared with more than this synchronisation merged', fn=f)
    for m in {repr(x[2]): x[2] for x in merged}.values():
        ctor = [c for c in f.calls if args(f, c) and nz(args(f, c)[0]) == m and '::~' not in (c.callee or '') and
                (c.callee or '').split('::')[-1] == 'unordered_map']
        R.check(bool(ctor) and all(c.blk.id not in outer[1] for c in ctor), 'sync', 'fresh', floc(f),
                'merged accesses are forgotten between slots', fn=f)
        bad = [c for c in f.calls if args(f, c) and nz(args(f, c)[0]) == m and (c.callee or '').split('::')[-1] in ('clear', 'erase')
               and c.blk.id in outer[1]]
        R.check(not bad, 'sync', 'kept', bad[0].loc() if bad else floc(f), 'merged accesses are forgotten between slots', fn=f)
    cl = [c for c in f.calls if (c.callee or '').split('::')[-1] in ('clear',) and c.blk.id in f.idom and
          mentions(nz(args(f, c)[0]), lambda x: x == acc)]
    ok = bool(cl)
    if ok:
        p = every_iteration(f, outer, cl)
        # the iterated slot itself
        slot = [i for i in f.blocks[inner[0]].insts if i.op == 'phi']
        tgt = nz(args(f, cl[0])[0])
        st = [nz(f.expr(v)) for i in slot for v, pp in i.args if pp not in inner[1]]
        ok = p is None and (any(mentions(v, lambda x: x == tgt) for v in st))
        ok = ok and all(not reach_in_loop(f, c, i, outer) for c in cl for i in ins)
    else:
        ok = False
        # cleared wholesale after the loop
        for c in [c for c in f.calls if (c.callee or '').split('::')[-1] in ('clear', 'swap', 'assign')]:
            pass
    R.check(ok, 'sync', 'forget', cl[0].loc() if cl else floc(f),
            'a slot keeps its accesses past the synchronisation on some path', fn=f)
    # hand over to the group
    space = ('call', 'oclgrind::Memory::getAddressSpace', mem)
    glob, SET = enum_val(P, 'AddressSpace', 'AddrSpaceGlobal'), set_bit(P)
    cell = lambda x: x[0] == 'call' and x[1].split('::')[-1] in ('operator[]', 'at') and len(x) >= 4
    for w in ('load', 'store'):
        n, wv, same = 0, None, True
        for p in its:
            here = [e for e in p.events if c06.ncall(e, 'insert') and mentions(nz(e[3][1]), lambda x: x == ('fld', state, 'wgGlobal')) and
                    c06.accref(f, e[3][2])[0] == w and not cell(c06.accref(f, e[3][2])[1])]
            known = [q for a, q in p.lits if a[0] == 'eq' and a[2] == C(glob) and nz(a[1]) == space]
            src = [nz(z) for e in p.events if c06.ncall(e, 'check') for z in e[3][1:3]
                   if c06.accref(f, z)[0] == w and not cell(c06.accref(f, z)[1])]
            on = c06.isset(p, src[0], SET) if src else None
            if here:
                n += 1
                if known[:1] != [True] or on is not True or src and nz(here[0][3][2]) != src[0]:
                    wv = wv or 'happens although it must not (lines %s)' % path_lines(f, p.blocks)
                keys = {repr(x[3]) for e in here for x in subexprs(nz(e[3][1])) if cell(x)}
                base = {repr(x[3]) for e in p.events if c06.ncall(e, 'check') for z in e[3][1:3] for x in subexprs(nz(z))
                        if cell(x) and x[2][0] == 'alloca'}
                same = same and len(keys) == 1 and keys <= base
            elif not (known[:1] == [False] or on is False):
                wv = wv or 'does not happen (lines %s)' % path_lines(f, p.blocks)
        if not R.check(bool(n), 'sync', 'group:' + w, floc(f), 'own global %ss are not handed on to the group' % w, fn=f):
            continue
        R.check(wv is None, 'sync', 'group:' + w, floc(f), 'handing an own %s on %s' % (w, wv), fn=f)
        R.check(same, 'sync', 'group:%s:address' % w, floc(f), 'handed on under another address', fn=f)

    # --------------------------------------------------------- group end
    R.rule('group-end', 'when a group finishes both tables are synchronised before its accesses are merged into the kernel\'s, '
           'and its state is dropped', 7)
    f = P.one(RD + 'workGroupComplete')
    sy = syncs(f, WG)
    ins = calls(f, 'RaceDetector::insert') + calls(f, 'RaceDetector::check')
    lp = None
    for c in ins:
        l = f.loop_of(c.blk.id)
        lp = lp or l
    need(lp is not None, 'workGroupComplete: no merge loop')
    for n in ('wiLocal', 'wiGlobal'):
        cs = sy.get(n, [])
        if exactly_once(R, 'group-end', f, cs, 'synchronise ' + n, twice=False) and n == 'wiGlobal':
            R.check(all(must_precede(f, i, cs) for i in f.blocks[lp[0]].insts[:1] + ins), 'group-end', 'before-merge',
                    cs[0].loc(), 'group accesses are merged before they are complete', fn=f)
    R.check(walks(f, lp, lambda x: x[0] == 'fld' and x[2] == 'wgGlobal' and own_state(f, x[1], WG)), 'group-end', 'all',
            f.blocks[lp[0]].term.loc(), 'not every access of the group is merged', fn=f)
    er = [c for c in f.calls if (c.callee or '').split('::')[-1] == 'erase' and len(args(f, c)) > 1 and holds(f, args(f, c)[1], WG)
          and c.blk.id in f.idom]
    cl = [c for c in f.calls if (c.callee or '').split('::')[-1] == 'clear' and nz(args(f, c)[0])[0] == 'fld' and
          nz(args(f, c)[0])[2] == 'wgGlobal']
    exactly_once(R, 'group-end', f, er, 'drop the state of the group', twice=False)
    R.check(all(not reach_without(f, e, ins, []) for e in er + cl), 'group-end', 'drop-last', floc(f),
            'state dropped before its accesses were merged', fn=f)
    dl = [c for c in f.calls if (c.callee or '').startswith('operator delete') and c.blk.id in f.idom]
    groups = None
    for c in dl:
        g = nz(args(f, c)[0])
        nul = [s for s in stores(f) if ('load', nz(f.expr(s.args[1]))) == g and nz(f.expr(s.args[0])) == C(0)]
        R.check(must_follow(f, c, nul), 'group-end', 'null', c.loc(), 'deleted per-thread table stays reachable', fn=f)
        emp = [x for x in f.calls if (x.callee or '').split('::')[-1] == 'empty' and nz(args(f, x)[0]) == g]
        fs = facts(f, c.blk.id)
        R.check(any(nonzero(fs, f.iexpr(x)) for x in emp) or any(
            iszero(fs, a[1]) for a, p in fs if a[0] == 'eq' and 'size' in repr(a[1])), 'group-end', 'empty', c.loc(),
            'per-thread table deleted while groups are in it', fn=f)

    # --------------------------------------------------------- kernel end
    R.rule('kernel-end', 'at the end of a launch the races are reported and forgotten and every global access is forgotten', 5)
    f = P.one(RD + 'kernelEnd')
    lg = calls(f, 'RaceDetector::logRace')
    cl = [c for c in f.calls if (c.callee or '').split('::')[-1] == 'clear' and nz(args(f, c)[0]) == ('fld', THIS, 'kernelRaces')]
    exactly_once(R, 'kernel-end', f, cl, 'forget the reported races', twice=False)
    R.check(all(not reach_without(f, c, lg, []) for c in cl), 'kernel-end', 'report-first', floc(f),
            'races are forgotten before they are reported', fn=f)
    lps = loops_walking(f, ('fld', THIS, 'm_globalAccesses'))
    done = False
    for lp in lps:
        h = lp[0]
        me = [('phi', i.id) for i in f.blocks[h].insts if i.op == 'phi']
        cs = [c for c in f.calls if c.blk.id in lp[1] and (c.callee or '').split('::')[-1] in ('clear', 'assign') and
              any(mentions(nz(args(f, c)[0]), lambda x: x == m) for m in me)]
        cs += [c for c in f.calls if c.blk.id in lp[1] and (c.callee or '').startswith(('std::fill', 'std::vector')) and
               'operator=' in (c.callee or '') or (c.callee or '').startswith('std::fill')]
        if cs and every_iteration(f, lp, cs) is None:
            done = True
            for c in cs:
                if c.callee.split('::')[-1] == 'clear':
                    rs = [x for x in f.calls if (x.callee or '').split('::')[-1] == 'resize' and x.blk.id in lp[1] and
                          nz(args(f, x)[0]) == nz(args(f, c)[0])]
                    ok = bool(rs) and every_iteration(f, lp, rs) is None and all(
                        before(f, d, c) for x in rs for d in deps(f, x.args[1]) if d.op == 'load')
                    ok = ok and all(mentions(nz(args(f, x)[1]), lambda y: y == nz(args(f, c)[0])) for x in rs)
                    R.check(ok, 'kernel-end', 'size', c.loc(), 'table of a buffer does not keep one entry per byte', fn=f)
    R.check(done, 'kernel-end', 'forget', floc(f), 'global accesses of a launch are kept for the next one', fn=f)
    nul = field_stores(f, ('fld', THIS, 'm_kernelInvocation'))
    R.check(all(not reach_without(f, s, lg, []) for s in nul), 'kernel-end', 'invocation', floc(f),
            'the launch is forgotten before its races are reported', fn=f)
    f = P.one(RD + 'kernelBegin')
    st = [s for s in field_stores(f, ('fld', THIS, 'm_kernelInvocation')) if nz(f.expr(s.args[0])) == ('arg', 'kernelInvocation')]
    exactly_once(R, 'kernel-end', f, st, 'remember the launch')

    # --------------------------------------------------------- allocation
    R.rule('tables', 'every global allocation gets one table entry per byte and locks for its buffer, and loses both when freed', 5)
    f = P.one(RD + 'memoryAllocated')
    glob = enum_val(P, 'AddressSpace', 'AddrSpaceGlobal')
    isg = A('eq', ('call', 'oclgrind::Memory::getAddressSpace', ('arg', 'memory')), C(glob))
    buf = ('call', 'oclgrind::Memory::extractBuffer', ('arg', 'memory'), ('arg', 'address'))

    def keyed(f, e, member, fns=('operator[]', 'at')):
        e = nz(e)
        return e[0] == 'call' and e[1].split('::')[-1] in fns and e[2] == ('fld', THIS, member) and holds(f, e[3], buf)
    rs = [c for c in f.calls if (c.callee or '').split('::')[-1] in ('resize', 'assign') and c.blk.id in f.idom and
          keyed(f, args(f, c)[0], 'm_globalAccesses') and nz(args(f, c)[1]) == ('arg', 'size')]
    bl = [l[0] for l in f.loops]
    when(R, f, 'tables', 'resize', rs, isg, 'giving the buffer one entry per byte')
    ms = [s for s in stores(f) if keyed(f, f.expr(s.args[1]), 'm_globalMutexes')]
    when(R, f, 'tables', 'mutexes', ms, isg, 'giving the buffer its locks')
    f = P.one(RD + 'memoryDeallocated')
    for m in ('m_globalAccesses', 'm_globalMutexes'):
        er = [c for c in f.calls if erases(c) and nz(args(f, c)[0]) == ('fld', THIS, m) and
              (holds(f, args(f, c)[1], buf) or found(f, args(f, c)[1], ('fld', THIS, m), buf))]
        when(R, f, 'tables', 'erase:' + m, er, isg, 'dropping %s of the buffer' % m)
    dl = [c for c in f.calls if (c.callee or '').startswith('operator delete')]
    er = [c for c in f.calls if erases(c) and nz(args(f, c)[0]) == ('fld', THIS, 'm_globalMutexes')]
    R.check(bool(dl) and all((c.callee or '').startswith('operator delete[]') for c in dl) and all(
        not reach_without(f, e, dl, []) for e in er), 'tables', 'delete', floc(f), 'locks of the buffer are not deleted properly',
        fn=f)

    # --------------------------------------------------------- locks
    R.rule('locked', 'worker threads touch the kernel-wide tables only while holding a shared lock chosen by the byte\'s own '
           'buffer and offset, and group state only through the thread-local variable', 12)
    for f in methods(P, 'oclgrind::RaceDetector'):
        nm = f.qual.split('::')[-1]
        for i in f.all():
            if i.blk.id not in f.idom or i.op not in ('load', 'store', 'call', 'invoke') or \
                    (i.callee or '').startswith('llvm.threadlocal'):
                continue
            es = [f.expr(a) for a in i.args if a[0] != 'b']
            for e in es:
                for x in tl_raw(nz(e)):
                    R.bad('locked', '%s:thread-local' % f.short, i.loc(), 'group state is shared between threads', f)
        if nm in HOST:
            continue
        ls = lockset(f)
        for i in f.all():
            if i.blk.id not in f.idom or i.op not in ('load', 'store', 'call', 'invoke') or i.id in lock_events(f):
                continue
            es = [nz(f.expr(a)) for a in i.args]
            if i.op == 'load':
                es = es[:1]
            for m in ('kernelRaces', 'm_globalAccesses'):
                if any(mentions(e, lambda x: x == ('fld', THIS, m)) for e in es):
                    held = [l for l in ls[i.id] if shared_lock(f, l)]
                    R.check(bool(held), 'locked', '%s:%s' % (f.short, m), i.loc(),
                            '%s is used on a worker thread without a lock' % m, fn=f)
    f = P.one(RD + 'workGroupComplete')
    for c in calls(f, 'RaceDetector::insert', 'RaceDetector::check'):
        held = [l for l in lockset(f)[c.id] if shared_lock(f, l)]
        ok = bool(held)
        own = False
        for l in held:
            own = own or lock_for(f, l, args(f, c))
        R.check(own, 'locked', 'merge', c.loc(), 'the record is used without the lock of its own buffer and offset', fn=f)
    # the locked index stays inside the bank
    for i, (k, l) in lock_events(f).items():
        if k != '+' or l[0] not in ('ptr', 'idx'):
            continue
        ix = nz(l[2])
        n = bank(P)
        R.check(ix[0] == 'and' and ix[2][0] == 'c' and n and ix[2][1] < n or ix[0] == 'urem' and n and ix[2] == C(n), 'locked',
                'bank', f.insts[i].loc(), 'lock index may exceed the %s locks of a buffer' % n, fn=f)


def when(R, f, rule, key, insts, cond, what):
    if not R.check(bool(insts), rule, key, floc(f), 'never happens: ' + what, fn=f):
        return
    # loops (array construction) are cut where they repeat
    w = differ_loopless(f, insts, cond)
    R.check(w is None, rule, key, insts[0].loc(), '%s %s' % (what, w), fn=f)


def differ_loopless(f, insts, cond):
    """necessity and sufficiency by path search: every path under cond passes one of insts, none otherwise"""
    at, pol = (cond[1], True)
    atom = (at, True)
    from truth import canon

    def lits(b, s):
        return [(canon(a), p) for a, p in edge_literals(f, b, s)]

    def search(val, avoid):
        st, seen = [(0, [0])], set()
        ids = {i.id for i in insts}
        while st:
            b, path = st.pop()
            if b in seen:
                continue
            seen.add(b)
            if any(i.id in ids for i in f.blocks[b].insts):
                if not avoid:
                    return path
                continue
            if f.blocks[b].term.op == 'ret' and avoid:
                return path
            for s in f.blocks[b].succs:
                if any(a == at and p != val for a, p in lits(b, s)):
                    continue
                st.append((s, path + [s]))
        return None
    p = search(True, True)
    if p:
        return 'does not happen on a path (lines %s)' % path_lines(f, p)
    p = search(False, False)
    if p:
        return 'happens although it should not (lines %s)' % path_lines(f, p)
    return None


def set_bit(P):
    import c06

    class Quiet:
        def check(self, *a, **k):
            return True
    B = c06.bits(P, Quiet())
    need(B, 'flag layout of an access not determined')
    return B[0]


def reach_in_loop(f, a, b, lp):
    """b reachable from a inside the loop without going back through its header"""
    if a.blk.id == b.blk.id and a.pos < b.pos:
        return True
    st, seen = [a.blk.id], set()
    while st:
        x = st.pop()
        for s in f.blocks[x].succs:
            if s == lp[0] or s not in lp[1] or s in seen:
                continue
            if s == b.blk.id:
                return True
            seen.add(s)
            st.append(s)
    return False


def deps(f, o, seen=None):
    """instructions the operand is computed from"""
    seen = {} if seen is None else seen
    if o[0] == 'v' and o[1] not in seen and o[1] in f.insts:
        i = f.insts[o[1]]
        seen[o[1]] = i
        if i.op == 'phi':
            return []
        for a in i.args:
            if isinstance(a, (list, tuple)) and a:
                if isinstance(a[0], (list, tuple)):
                    deps(f, a[0], seen)
                else:
                    deps(f, a, seen)
    return list(seen.values())


def before(f, a, b):
    return a.blk.id == b.blk.id and a.pos < b.pos or a.blk.id != b.blk.id and f.dominates(a, b)


def tl_raw(e, inside=False):
    """occurrences of the detector's static state not under threadlocal.address"""
    if not isinstance(e, tuple) or not e:
        return
    if e[0] == 'g' and 'RaceDetector' in str(e[1]) and 'm_state' in str(e[1]):
        if not inside:
            yield e
        return
    ins = is_call(e, 'llvm.threadlocal.address.p0')
    for x in e[1:]:
        if isinstance(x, tuple):
            yield from tl_raw(x, ins)


def shared_lock(f, l):
    return not mentions(l, lambda x: is_call(x, 'llvm.threadlocal.address.p0')) and l[0] != 'alloca' and \
        not mentions(l, lambda x: x == ('arg', 'workGroup'))


def lock_for(f, l, aa):
    """a fixed member lock, or one selected by buffer and offset of the address"""
    if not mentions(l, lambda x: x[0] == 'phi'):
        return l[0] in ('fld', 'g') or True and not mentions(l, lambda x: x[0] == 'alloca' or x[0] == 'phi')
    ok = True
    for x in subexprs(l):
        if isinstance(x, tuple) and x and x[0] in ('ptr', 'idx') and mentions(x[2], lambda y: y[0] == 'phi'):
            ok = ok and any(mentions(nz(a), lambda z: z == y) for a in aa for y in [strip_mask(x[2])])
    return ok


def strip_mask(e):
    e = nz(e)
    while e[0] in ('and', 'urem') and e[2][0] == 'c':
        e = e[1]
    return e


def bank(P):
    f = P.one(RD + 'memoryAllocated')
    for c in f.calls:
        if (c.callee or '').startswith('operator new[]'):
            v = nz(args(f, c)[0])
            if v[0] == 'c':
                return v[1] // 40
    return None
