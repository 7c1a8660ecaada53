"""C04: bracketing and order of execution events."""
from common import *

TUS = ['KernelInvocation', 'WorkItem', 'WorkGroup', 'WorkItemBuiltins', 'Context', 'InteractiveDebugger', 'Queue', 'Kernel']
KI = 'oclgrind::KernelInvocation'


def run(P, R):
    wi = P.one(KI + '::getCurrentWorkItem')
    wg = P.one(KI + '::getCurrentWorkGroup')
    WI = nz(ret_values(wi)[0][0])
    WG = nz(ret_values(wg)[0][0])
    need(WI[0] == 'load' and WG[0] == 'load' and WI != WG, 'current work-item / work-group state not recognised')
    isWI = lambda e: nz(e) == WI     # noqa: E731
    # ---------------------------------------------------------------- kernel
    R.rule('kernel', 'a launch announces its begin, then runs all workers to completion, then announces its end; each '
           'exactly once and for the same invocation', 6)
    runs = P.get(KI + '::run')
    f = [x for x in runs if len(x.params) > 3][0]
    g = [x for x in runs if len(x.params) == 1][0]
    b, r, e = calls(f, 'Context::notifyKernelBegin'), calls(f, KI + '::run'), calls(f, 'Context::notifyKernelEnd')
    for s, w in ((b, 'notifyKernelBegin'), (r, 'run the invocation'), (e, 'notifyKernelEnd')):
        exactly_once(R, 'kernel', f, s, w)
    if b and r and e:
        R.check(f.dominates(b[0], r[0]) and f.dominates(r[0], e[0]), 'kernel', 'order', e[0].loc(),
                'begin, run and end are not in this order', fn=f)
        objs = {repr(nz(args(f, b[0])[1])), repr(nz(args(f, r[0])[0])), repr(nz(args(f, e[0])[1]))}
        ct = calls(f, 'KernelInvocation::KernelInvocation')
        R.check(len(objs) == 1 and ct and repr(nz(args(f, ct[0])[0])) in objs, 'kernel', 'same-invocation', e[0].loc(),
                'begin, run and end do not concern the same new invocation', fn=f)
        for d in calls(f, 'KernelInvocation::~KernelInvocation'):
            R.check(f.dominates(e[0], d), 'kernel', 'delete', d.loc(), 'invocation destroyed before its end is announced',
                    fn=f)
    # run(): every worker started is joined before return
    R.rule('join', 'every worker thread started is joined before the run returns, and the group counter is reset before '
           'the first starts', 3)
    th = [c for c in g.calls if starts_thread(c)]
    jn = calls(g, 'std::thread::join')
    R.check(bool(th) and bool(jn), 'join', 'threads', floc(g), 'no worker threads or no join', fn=g)
    if th and jn:
        def bound(c):
            lp = g.loop_of(c.blk.id)
            if lp is None:
                return None
            out = set()
            for bb in lp[1]:
                for s in g.blocks[bb].succs:
                    if s not in lp[1] and not g.error_exit(s):
                        for a, p in edge_literals(g, bb, s):
                            if a[0] in ('lt', 'slt') and not p:
                                out.add(repr(nz(a[2])))
                            elif a[0] == 'eq':
                                out.add(repr(nz(a[1])) if 'm_numWorkers' not in repr(a[2]) else repr(nz(a[2])))
            ok = all(g.dominates_block(c.blk.id, x) for x in lp[1] if lp[0] in g.blocks[x].succs)
            return out if ok else None
        for c, w in ((th[0], 'start'), (jn[0], 'join')):
            bs = bound(c)
            okb = bs is not None and len(bs) == 1 and ('m_numWorkers' in next(iter(bs)) or 'sdiv' in next(iter(bs)) or
                                                       'phi' in next(iter(bs)) or 'sub' in next(iter(bs)) or
                                                       '#1' in next(iter(bs)))
            R.check(okb, 'join', w, c.loc(), 'not all workers are %sed' % w, fn=g)
        R.check(not reach_without(g, jn[0], th, []), 'join', 'order', jn[0].loc(), 'workers started after joining', fn=g)
        ng = [c for c in g.calls if 'nextGroupIndex' in ' '.join(show(x) for x in args(g, c)) or
              (c.callee or '').startswith('std::__atomic_base') or (c.callee or '').startswith('std::atomic<')]
        rs = [c for c in ng if c.callee.endswith('operator=') or c.callee.endswith('::store')]
        R.check(any(nz(args(g, c)[1]) == C(0) and g.dominates(c, th[0]) for c in rs), 'join', 'reset', floc(g),
                'the next-group counter is not reset to 0 before workers start', fn=g)
    # ------------------------------------------------------------ work-groups
    R.rule('group-begin', 'a work-group is announced exactly when it was newly created, before any of its work-items '
           'runs', 4)
    for name in ('runWorker', 'switchWorkItem'):
        f = P.one(KI + '::' + name)
        news = calls(f, 'WorkGroup::WorkGroup')
        bg = calls(f, 'Context::notifyWorkGroupBegin')
        steps = calls(f, 'WorkItem::step', 'WorkGroup::getNextWorkItem', 'WorkGroup::getWorkItem')
        R.check(bool(news), 'group-begin', name + ':new', floc(f), 'creates no work-group', fn=f)
        for n in news:
            o = nz(args(f, n)[0])
            R.check(reach_without(f, n, steps, bg) is None and must_follow(f, n, bg), 'group-begin', name, n.loc(),
                    'a new work-group may run without being announced', fn=f)
            # becomes the current group before it is announced
            sts = [s for s in field_stores(f, WG[1]) if nz(f.expr(s.args[0])) == o]
            R.check(bool(sts) and all(reach_without(f, n, bg, sts) is None for _ in (1,)), 'group-begin',
                    name + ':current', n.loc(), 'the new group is not the current one when it is announced', fn=f)
        for c in bg:
            a = nz(args(f, c)[1])
            R.check(must_precede(f, c, news) and reach_without(f, c, bg, news) is None, 'group-begin', name + ':only-new',
                    c.loc(), 'a work-group that was not newly created is announced (again)', fn=f)
            R.check(a == WG or any(a == nz(args(f, n)[0]) for n in news), 'group-begin', name + ':which', c.loc(),
                    'announces another work-group than the new one', fn=f)
    f = P.one(KI + '::runWorker')
    R.rule('group-end', 'a work-group is completed exactly once, when no work-item is left to run and no barrier is '
           'pending, before it is destroyed', 4)
    comp = calls(f, 'Context::notifyWorkGroupComplete')
    steps = calls(f, 'WorkItem::step')
    dels = calls(f, 'WorkGroup::~WorkGroup')
    R.check(bool(comp) and bool(dels), 'group-end', 'runWorker', floc(f), 'work-groups are not completed/destroyed', fn=f)
    nxt = calls(f, 'WorkGroup::getNextWorkItem')
    for s in steps + nxt + calls(f, 'WorkGroup::WorkGroup'):
        # from running, the next group or return is reached only through completion
        take = field_stores(f, WG[1])
        take = [t for t in take if nz(f.expr(t.args[0])) != C(0)]
        R.check(reach_without(f, s, take + f.ret_insts(), comp) is None or s.callee.endswith('WorkGroup::WorkGroup'),
                'group-end', 'complete', s.loc(), 'the worker moves on without completing the group', fn=f)
    for c in comp:
        a = nz(args(f, c)[1])
        R.check(a == WG, 'group-end', 'which', c.loc(), 'completes %s' % show(a, f), fn=f)
        fs = facts(f, c.blk.id)
        R.check(iszero(fs, WI), 'group-end', 'idle', c.loc(),
                'completion announced while a work-item may still be current', fn=f)
        hb = calls(f, 'WorkGroup::hasBarrier')
        # on the way from the last getNextWorkItem()==NULL the barrier state was examined
        R.check(not any(reach_state(f, s, [c], hb, WI[1]) for s in steps), 'group-end', 'barrier', c.loc(),
                'completion without checking for a pending barrier', fn=f)
        R.check(reach_without(f, c, comp, nxt) is None, 'group-end', 'once', c.loc(), 'completed twice', fn=f)
    for d in dels:
        takes = [t for t in field_stores(f, WG[1]) if nz(f.expr(t.args[0])) != C(0)]
        R.check(bool(takes) and all(reach_without(f, t, [d], comp) is None for t in takes), 'group-end', 'delete', d.loc(),
                'destroyed before its completion is announced', fn=f)
        z = [s for s in field_stores(f, WG[1]) if nz(f.expr(s.args[0])) == C(0)]
        use = [i for i in f.all() if i.op == 'load' and nz(f.expr(i.args[0])) == WG[1]]
        w = [s for s in field_stores(f, WG[1])]
        R.check(reach_without(f, d, use, w) is None, 'group-end', 'dangling', d.loc(),
                'the destroyed group stays current', fn=f)
    # barrier release only when nobody runs; work-item state then re-fetched
    R.rule('idle-release', 'a pending barrier is released only when no work-item is ready, with no work-item current, '
           'and execution then resumes with the next ready one', 2)
    cb = calls(f, 'WorkGroup::clearBarrier')
    R.check(bool(cb), 'idle-release', 'release', floc(f), 'barriers are never released', fn=f)
    for c in cb:
        fs = facts(f, c.blk.id)
        R.check(iszero(fs, WI) and has(fs, ('true', ('call', 'oclgrind::WorkGroup::hasBarrier', WG))), 'idle-release',
                'when', c.loc(), 'barrier released while a work-item may still run, or without a pending barrier', fn=f)
        wst = field_stores(f, WI[1])
        rd = [i for i in f.all() if i.op == 'load' and nz(f.expr(i.args[0])) == WI[1]]
        R.check(reach_without(f, c, rd, wst) is None and reach_without(f, c, comp, nxt) is None, 'idle-release', 'resume',
                c.loc(), 'released work-items are not resumed', fn=f)
    # current work-item is what getNextWorkItem says
    for s in field_stores(f, WI[1]):
        v = nz(f.expr(s.args[0]))
        R.check(v == C(0) or is_call(v, 'WorkGroup::getNextWorkItem') and v[2] == WG, 'idle-release', 'current', s.loc(),
                'current work-item set to %s' % show(v, f), fn=f)
    for s in steps:
        R.check(nz(args(f, s)[0]) == WI, 'idle-release', 'step', s.loc(), 'steps another work-item than the current one',
                fn=f)
        fs = facts(f, s.blk.id)
        rdy = enum_val(P, 'State', 'READY')
        stt = ('call', 'oclgrind::WorkItem::getState', WI)
        R.check(has(fs, ('eq', stt, C(rdy))), 'idle-release', 'ready', s.loc(),
                'steps a work-item that is not in the ready state', fn=f)
    # ------------------------------------------------------------ work-items
    R.rule('item', 'a work-item is announced before its first instruction and completed right after the step in which it '
           'finished', 6)
    f = P.one('oclgrind::WorkItem::step')
    begun = None
    bg = calls(f, 'Context::notifyWorkItemBegin')
    ex = calls(f, 'WorkItem::execute')
    cm = calls(f, 'Context::notifyWorkItemComplete')
    exactly_once(R, 'item', f, ex, 'execute the current instruction')
    R.check(bool(bg), 'item', 'begin', floc(f), 'work-items are never announced', fn=f)
    for c in bg:
        fs = facts(f, c.blk.id)
        cands = [nz(a[1]) for a, p in fs if not p and a[0] == 'true'] + \
                [nz(a[1]) for a, p in fs if p and a[0] == 'eq' and nz(a[2]) == C(0)]
        cands = [x for x in cands if x[0] == 'load' and mentions(x, lambda y: y == ('fld', THIS, 'm_position'))]
        flag = cands[0] if cands else None
        R.check(flag is not None, 'item', 'begin-once', c.loc(), 'begin is not tied to a not-yet-begun flag', fn=f)
        if flag:
            st = [s for s in field_stores(f, flag[1])]
            R.check(bool(st) and all(nz(f.expr(s.args[0])) not in (C(0),) for s in st) and
                    (any(f.dominates(s, c) for s in st) or must_follow(f, c, st)), 'item', 'begin-mark', c.loc(),
                    'the work-item is not marked as begun', fn=f)
            p = path_avoiding(f, bg, [(('true', flag), False)], ends=ex)
            R.check(p is None and not any(reach_without(f, x, bg, []) for x in ex), 'item', 'begin-first', c.loc(),
                    'an instruction may execute before the begin announcement', fn=f)
            ct = P.one('oclgrind::WorkItem::WorkItem')
            R.check(init_false(ct, flag), 'item', 'begin-init', floc(ct), 'a new work-item is not marked as not begun', fn=ct)
        R.check(nz(args(f, c)[1]) == THIS, 'item', 'begin-who', c.loc(), 'announces another work-item', fn=f)
    fin = enum_val(P, 'State', 'FINISHED')
    state = fld(THIS, 'm_state')
    R.check(bool(cm), 'item', 'complete', floc(f), 'work-items are never completed', fn=f)
    for c in cm:
        fs = facts(f, c.blk.id)
        R.check(has(fs, ('eq', state, C(fin))) and all(f.dominates(x, c) for x in ex), 'item', 'complete-when', c.loc(),
                'completion is not announced exactly after the finishing step', fn=f)
        R.check(nz(args(f, c)[1]) == THIS, 'item', 'complete-who', c.loc(), 'announces another work-item', fn=f)
    if cm:
        p = path_avoiding(f, cm, [(('eq', state, C(fin)), True)])
        R.check(p is None, 'item', 'complete-always', floc(f), 'a finished work-item may not be completed', fn=f)
        R.check(not any(reach_without(f, c, cm, []) for c in cm), 'item', 'complete-twice', floc(f), 'completed twice', fn=f)
    # finished exactly at the return of the kernel function
    for f2 in P.fns.values():
        for s in field_stores(f2, state[1]):
            if nz(f2.expr(s.args[0])) == C(fin):
                R.check(f2.qual == 'oclgrind::WorkItem::ret', 'item', 'finished-where', s.loc(),
                        'work-item marked finished outside the return instruction', fn=f2)
                nf = calls(f2, 'WorkGroup::notifyFinished')
                R.check(bool(nf) and (must_follow(f2, s, nf) or all(must_precede(f2, s, nf) for _ in (1,))), 'item',
                        'finished-group', s.loc(), 'the group does not learn that the work-item finished', fn=f2)
    rt = P.one('oclgrind::WorkItem::ret')
    fst = [s for s in field_stores(rt, state[1]) if nz(rt.expr(s.args[0])) == C(fin)]
    emp = [c for c in rt.calls if (c.callee or '').endswith('::empty') and 'callStack' in show(args(rt, c)[0])]
    R.check(bool(fst) and bool(emp) and path_avoiding(rt, fst, [(('true', rt.iexpr(emp[0])), True)]) is None and
            all(has(facts(rt, s.blk.id), ('true', rt.iexpr(emp[0]))) for s in fst), 'item', 'finished-when', floc(rt),
            'returning from the kernel function is not what finishes a work-item', fn=rt)
    # -------------------------------------------------------- instructions
    R.rule('instruction', 'every executed instruction is dispatched once, its result stored, and then announced once', 5)
    f = P.one('oclgrind::WorkItem::execute')
    di = calls(f, 'WorkItem::dispatch')
    no = calls(f, 'Context::notifyInstructionExecuted')
    sv = calls(f, 'WorkItem::setValue')
    exactly_once(R, 'instruction', f, di, 'dispatch')
    exactly_once(R, 'instruction', f, no, 'notifyInstructionExecuted')
    for n in no:
        a = [nz(x) for x in args(f, n)]
        dr = [nz(args(f, d)[2]) for d in di]
        R.check(a[1] == THIS and a[2] == arg(f.params[1].get('dn')) and a[3] in dr, 'instruction', 'what', n.loc(),
                'announces %s' % ', '.join(show(x, f) for x in a[1:]), fn=f)
        R.check(all(f.dominates(d, n) for d in di) and not any(reach_without(f, n, [s], []) for s in sv + di),
                'instruction', 'after', n.loc(), 'announced before the instruction took effect', fn=f)
    for d in di:
        a = [nz(x) for x in args(f, d)]
        R.check(a[0] == THIS and a[1] == arg(f.params[1].get('dn')), 'instruction', 'dispatched', d.loc(),
                'dispatches something else than the instruction', fn=f)
    # -------------------------------------------------------- exclusivity
    R.rule('only-here', 'execution events are announced only from the places that perform them', 8)
    own = {'notifyKernelBegin': ['KernelInvocation::run'], 'notifyKernelEnd': ['KernelInvocation::run'],
           'notifyWorkGroupBegin': ['KernelInvocation::runWorker', 'KernelInvocation::switchWorkItem'],
           'notifyWorkGroupComplete': ['KernelInvocation::runWorker'],
           'notifyWorkItemBegin': ['WorkItem::step'], 'notifyWorkItemComplete': ['WorkItem::step'],
           'notifyInstructionExecuted': ['WorkItem::execute'], 'notifyWorkGroupBarrier': ['WorkGroup::clearBarrier']}
    for n, fs in own.items():
        for f, c in callers(P, 'Context::' + n):
            R.check(any(f.qual.endswith('::' + x) for x in fs), 'only-here', n, c.loc(), '%s called from %s' % (n, f.qual),
                    fn=f)


def init_false(ct, flag):
    name = flag[1][2] if flag[1][0] == 'fld' else None
    for s in stores(ct):
        if nz(ct.expr(s.args[0])) != C(0):
            continue
        d = nz(ct.expr(s.args[1]))
        if name is None:
            # first member of the freshly allocated position object
            if s.d.get('vt') in ('i8', 'i1') and is_call(root(d), 'operator new') and d == root(d) or \
                    s.d.get('vt') in ('i8', 'i1') and d == flag[1]:
                return True
        elif d[0] == 'fld' and d[2] == name:
            return True
    for c in mem_intrinsics(ct):
        if c.callee.startswith('llvm.memset') and nz(args(ct, c)[1]) == C(0) and is_call(root(nz(args(ct, c)[0])), 'operator new'):
            return True
    return False
