"""C11: path-wise rules over the four group-synchronisation routines of WorkGroup and the built-ins that call them.  Every path
of an arrival moves the work-item from the runnable set to the barrier; paths without a divergence report have established
equality of every compared quantity and paths with one a difference; the release walks all waiting work-items, performs
every registered copy of every awaited event element by element and retires the barrier."""
from common import *
from flow import Flow

TECHNIQUE = 'path-wise fact/effect analysis (must-event and must-fact rules on every path) of the synchronisation routines'
TUS = ['WorkGroup', 'WorkItemBuiltins', 'WorkItem']
W = 'oclgrind::WorkGroup::'
BAR = ('load', ('fld', THIS, 'm_barrier'))


def ev(p, names, recv=None):
    """call events by short name whose receiver satisfies recv"""
    return [e for e in p.events if e[0] == 'call' and short(e[2]) in names and (recv is None or e[3] and recv(p, e[3][0]))]


def member(name):
    return lambda p, a: nz(a) == ('fld', THIS, name)


def barfield(name):
    """receiver is member `name` of the pending barrier (stored in m_barrier)"""
    def f(p, a):
        a = strip(a)
        return a[0] == 'fld' and a[2] == name and isbar(a[1])
    return f


def isbar(e):
    e = strip(e)
    return nz(e) == BAR or nz(e)[0] == 'call' and nz(e)[1].startswith('operator new') or e[0] == 'clob' and e[1] == ('fld', THIS, 'm_barrier')


def holdsarg(p, e, a, n):
    """by-reference or by-value argument a of event e is parameter n"""
    v = strip(a)
    if v[0] in ('alloca',):
        v = p.at(e, a)
    return nz(v) == ('arg', n)


def reports(p):
    return [e for e in p.events if e[0] == 'call' and (e[2] or '').endswith(('Context::Message::send', 'Context::logError'))]


def different(lits, side):
    """(known equal, known different) sets of names, side(x, y) naming a comparison of x with y"""
    eq, ne = set(), set()
    for a, pol in lits:
        x = y = None
        if a[0] == 'eq':
            x, y = a[1], a[2]
        elif a[0] == 'true' and a[1][0] == 'call' and short(a[1][1]) in ('operator==', 'operator!='):
            x, y = a[1][2], a[1][3]
            if short(a[1][1]) == 'operator!=':
                pol = not pol
        else:
            continue
        n = side(x, y) or side(y, x)
        if n:
            (eq if pol else ne).add(n)
    return eq, ne


def run(P, R):
    arrive(P, R)
    finish(P, R)
    copies(P, R)
    release(P, R)
    builtins(P, R)


def arrive(P, R):
    R.rule('arrive', 'every arrival at a barrier takes the work-item out of the runnable set and adds it to the pending barrier, exactly once', 2)
    R.rule('same-point', 'an arrival is reported as divergence exactly when its location, fence or events differ from the pending barrier\'s', 6)
    R.rule('first', 'the first arrival records its own instruction, fence and events, and unknown events are reported', 4)
    f = P.one(W + 'notifyBarrier')
    me, ins, fen, evs = pnames(f)[1:5]
    bad, n = {}, 0
    seen = set()
    first = 0

    def side(x, y):
        sx, sy = deep(x), deep(y)
        if is_call(sx, 'getDebugLoc') and is_call(sy, 'getDebugLoc') and mentions(sx, lambda z: z == ('arg', ins)) and \
                mentions(sy, lambda z: z[0] == 'fld' and z[2] == 'm_barrier') and not mentions(sy, lambda z: z == ('arg', ins)):
            return 'location'
        if sx == ('arg', fen) and sy[0] == 'load' and sy[1][0] == 'fld' and sy[1][2] == 'fence':
            return 'fence'
        if sx[0] == 'call' and short(sx[1]) == 'size' and nz(sx[2]) == ('arg', evs) and sy[0] == 'call' and short(sy[1]) == 'size' and \
                sy[2][0] == 'fld' and sy[2][2] == 'events':
            return 'number of events'
        # the elements both cursors stand at
        if sx[0] == 'load' and sy[0] == 'load' and sx[1][0] == 'fld' and sy[1][0] == 'fld' and sx[1][1][0] == 'phi' and sy[1][1][0] == 'phi' \
                and sx[1][1] != sy[1][1]:
            return 'event'
        if nz(sx) == ('arg', evs) and sy[0] == 'fld' and sy[2] == 'events':
            return 'events'
        return None
    for p in Flow(f).paths():
        isnew = [x for x in p.lits if x[0][0] == 'eq' and nz(x[0][1]) == BAR and x[0][2] == C(0)]
        if not isnew:
            if p.end[0] == 'ret':
                bad['first'] = 'the pending barrier is not looked at'
            continue
        new = isnew[0][1]
        if p.end[0] == 'iter':
            if not new:
                eq, ne = different(p.lits, side)
                if ne:
                    bad['event'] = 'a difference does not stop the comparison'
                seen |= eq
            else:
                unk = [x for x in p.lits if x[0][0] == 'eq' and is_call(x[0][1], 'count') and x[0][2] == C(0)]
                fnd = [x for x in p.lits if x[0][0] == 'eq' and is_call(x[0][1], 'find')]
                missing = unk[-1][1] if unk else fnd[-1][1] if fnd else None
                if missing is None or missing != bool(reports(p)):
                    bad['unknown'] = 'an unknown event is accepted silently, or a known one reported'
                else:
                    seen.add('unknown')
            continue
        if p.end[0] != 'ret':
            continue
        n += 1
        er = ev(p, ('erase',), member('m_running'))
        ad = ev(p, ('insert', 'emplace'), barfield('workItems'))
        if len(er) != 1 or not holdsarg(p, er[0], er[0][3][1], me):
            bad['erase'] = 'the work-item stays runnable'
        if len(ad) != 1 or not holdsarg(p, ad[0], ad[0][3][1], me):
            bad['insert'] = 'the work-item is not added to the barrier once'
        if new:
            first += 1
            b = p.load(('fld', THIS, 'm_barrier'))
            if not (b[0] == 'call' and b[1].startswith('operator new')):
                bad['new'] = 'no barrier is created'
                continue
            st_ = {nz(e[2])[2] if nz(e[2])[0] == 'fld' else 'instruction': e[3] for e in p.stores() if e[2] == b or strip(e[2])[0] == 'fld' and strip(e[2])[1] == b}
            if nz(st_.get('instruction', C(0))) != ('arg', ins):
                bad['new'] = 'the barrier does not record its instruction'
            if nz(st_.get('fence', C(0))) != ('arg', fen):
                bad['new'] = 'the barrier does not record its fence'
            cp = [e for e in p.events if e[0] == 'call' and short(e[2]) in ('operator=', 'assign', 'list', 'swap', 'insert', 'splice') and barfield('events')(p, e[3][0])]
            if not cp or not any(mentions(x, lambda y: y == ('arg', evs)) for x in cp[-1][3][1:]):
                bad['new'] = 'the barrier does not record its events'
        else:
            eq, ne = different(p.lits, side)
            seen |= eq | ne
            if reports(p) and not ne:
                if __import__('os').environ.get('DBG'): print([(show(a)[:300],q) for a,q in p.lits][-12:])
                bad['spurious'] = 'divergence reported although nothing differs'
            if not reports(p):
                if ne:
                    bad[sorted(ne)[0]] = 'a different %s is not reported' % sorted(ne)[0]
                if 'location' not in eq:
                    bad['location'] = 'the location is not compared'
                if 'fence' not in eq:
                    bad['fence'] = 'the fence is not compared'
                if 'number of events' not in eq and 'events' not in eq:
                    bad['number of events'] = 'the number of events is not compared'
    if not ({'event', 'events'} & seen):
        bad.setdefault('event', 'the events are not compared one by one')
    if 'unknown' not in seen:
        bad.setdefault('unknown', 'unknown events are not looked for')
    for k in ('erase', 'insert'):
        R.check(n > 0 and k not in bad, 'arrive', k, floc(f), bad.get(k, ''), fn=f)
    for k in ('location', 'fence', 'number of events', 'event', 'events', 'spurious'):
        R.check(k not in bad, 'same-point', k, floc(f), bad.get(k, ''), fn=f)
    for k in ('first', 'new', 'unknown'):
        R.check(first > 0 and k not in bad, 'first', k, floc(f), bad.get(k, ''), fn=f)
    g = P.one('oclgrind::WorkItem::clearBarrier')
    for p in Flow(g).paths():
        ss = [e for e in p.stores() if nz(e[2]) == ('fld', THIS, 'm_state')]
        at = [x for x in p.lits if x[0][0] == 'eq' and nz(x[0][1]) == fld(THIS, 'm_state') and x[0][2] == C(1)]
        ok = len(at) == 1 and (at[0][1] and len(ss) == 1 and ss[0][3] == C(0) or not at[0][1] and not ss)
        if not ok:
            break
    R.check(ok, 'first', 'resume', floc(g), 'a work-item waiting at a barrier does not become ready, or another one changes state', fn=g)


def finish(P, R):
    R.rule('finish', 'a finished work-item is no longer runnable; the last one to finish with unawaited copies and no barrier pending is reported', 2)
    f = P.one(W + 'notifyFinished')
    me = pnames(f)[1]
    bad = {}
    n = 0
    for p in Flow(f).paths():
        if p.end[0] != 'ret':
            continue
        n += 1
        er = ev(p, ('erase',), member('m_running'))
        if len(er) != 1 or not holdsarg(p, er[0], er[0][3][1], me):
            bad['erase'] = 'the work-item stays runnable'
            continue
        empty = {}
        for a, pol in p.lits:
            for m in ('m_running', 'm_events', 'm_barrier'):
                if mentions(a, lambda x: x == ('fld', THIS, m)):
                    empty[m] = pol
        want = empty == {'m_running': True, 'm_events': False, 'm_barrier': True}
        if bool(reports(p)) != want:
            bad['report'] = 'reported when %s' % empty if reports(p) else 'not reported when %s' % empty
        chk = [e for e in p.events if e[0] == 'call' and short(e[2]) in ('empty', 'size') and member('m_running')(p, e[3][0])]
        if chk and p.events.index(chk[0]) < p.events.index(er[0]):
            bad['report'] = 'the runnable set is looked at before the work-item left it'
    for k in ('erase', 'report'):
        R.check(n > 0 and k not in bad, 'finish', k, floc(f), bad.get(k, ''), fn=f)


FIELDS = ('type', 'dest', 'src', 'size', 'num', 'srcStride', 'destStride')


def copies(P, R):
    R.rule('copy-same', 'a work-item joining a registered copy is reported exactly when its location or an argument differs, and is counted once', 11)
    R.rule('copy-new', 'a new copy is registered with the caller\'s own arguments under its event, for the calling work-item', 5)
    f = P.one(W + 'async_copy')
    pn = pnames(f)
    need(len(pn) == 11, 'async_copy has other parameters')
    me, ins = pn[1:3]
    par = dict(zip(('type', 'dest', 'src', 'size', 'num', 'srcStride', 'destStride'), pn[3:10]))
    rev = {v: k for k, v in par.items()}
    event = pn[10]

    def side(x, y):
        sx, sy = deep(x), deep(y)
        if is_call(sx, 'getDebugLoc') and is_call(sy, 'getDebugLoc') and mentions(sx, lambda z: z == ('arg', ins)) and \
                not mentions(sy, lambda z: z == ('arg', ins)):
            return 'location'
        if sx[0] == 'arg' and sx[1] in rev and sy[0] == 'load' and sy[1][0] == 'fld' and sy[1][2] == rev[sx[1]]:
            return rev[sx[1]]
        return None
    all_, bad, joined, news = set(), {}, 0, 0
    fl = Flow(f)
    for p in fl.paths():
        cnt = [x for x in p.lits if x[0][0] == 'eq' and is_call(x[0][1], 'count') and x[0][2] == C(0) and
               not mentions(x[0][1], lambda y: y == ('fld', THIS, 'm_events'))]
        cnt += [(('eq', x[0][1], C(0)), x[1]) for x in p.lits if x[0][0] == 'eq' and (is_call(x[0][1], 'find') or is_call(x[0][2], 'find')) and
                not mentions(x[0], lambda y: y == ('fld', THIS, 'm_events'))]
        member_ = cnt and not cnt[-1][1]
        eq, ne = different(p.lits, side)
        sets = [e for e in ev(p, ('insert', 'emplace')) if 'set' in e[2].split('<')[0] and 'm_' not in show(e[3][0]) and
                holdsarg(p, e, e[3][1], me)]
        pushed = ev(p, ('push_back', 'emplace_back', 'push_front'), member('m_asyncCopies'))
        if p.end[0] == 'iter':
            if sets or reports(p):
                bad['skip'] = 'a copy the work-item joins does not end the search'
            if not member_:
                bad['skip'] = 'a registered copy the work-item has not joined is skipped'
            continue
        if p.end[0] != 'ret':
            continue
        if not pushed:
            joined += 1
            all_ |= ne
            if member_ or not cnt:
                bad['once'] = 'a work-item may join the same copy twice'
            if reports(p) and not ne:
                if __import__('os').environ.get('DBG'): print([(show(a)[:300],q) for a,q in p.lits][-12:])
                bad['spurious'] = 'divergence reported although nothing differs'
            if not reports(p):
                for k in FIELDS + ('location',):
                    if k not in eq:
                        bad[k] = 'a different %s is not reported' % k
            if len(sets) != 1:
                bad['join'] = 'the work-item is not counted for the copy'
            r = nz(p.ret)
            if not (r[0] == 'load' and r[1][0] == 'fld' and r[1][2] == 'event'):
                bad['join'] = 'the event of the registered copy is not returned'
        else:
            news += 1
            ne0 = [x for x in p.lits if x[0] == ('eq', ('arg', event), C(0))]
            r = nz(p.ret)
            fresh = r == fld(THIS, 'm_nextEvent')
            if not ne0 or ne0[0][1] != fresh or not fresh and r != ('arg', event):
                bad['event'] = 'the event of a new copy is not the given one, or a fresh one when none is given'
            nx = [e for e in p.stores() if nz(e[2]) == ('fld', THIS, 'm_nextEvent')]
            if fresh and not (len(nx) == 1 and poly(nx[0][3]) == padd(poly(fld(THIS, 'm_nextEvent')), {(): 1})) or not fresh and nx:
                bad['event'] = 'a fresh event number may be given out twice'
            me_ = lambda p_, a: is_call(strip(a), 'operator[]', 'at') and mentions(a, lambda x: x == ('fld', THIS, 'm_events'))  # noqa: E731
            lst = ev(p, ('push_back', 'emplace_back'), me_)
            if len(lst) != 1 or not holdsret(p, lst[0][3][0], r):
                bad['list'] = 'the copy is not registered under its event once'
            for e, w in [(pushed[0], 'm_asyncCopies')] + [(e, 'm_events') for e in lst]:
                a = e[3][1]
                for k in FIELDS:
                    v = p.at(e, ('fld', a, k)) if fl.key(('fld', a, k)) else None
                    v = compfield(p, e, a, k)
                    if v is None or nz(v) != ('arg', par[k]):
                        bad['args'] = '%s of the copy put into %s is %s' % (k, w, show(v) if v else 'unknown')
                v = compfield(p, e, a, 'event')
                if v is None or nz(v) != r:
                    bad['args'] = 'event of the copy put into %s is %s' % (w, show(v) if v else 'unknown')
                v = compfield(p, e, a, 'instruction')
                if v is None or nz(v) != ('arg', ins):
                    bad['args'] = 'instruction of the copy put into %s is %s' % (w, show(v) if v else 'unknown')
            reset = [e for e in p.events if e[0] == 'call' and short(e[2]) in ('operator=', 'clear', 'erase') and
                     mentions(e[3][0], lambda x: x == ('fld', THIS, 'm_events'))]
            has_ = [x for x in p.lits if x[0][0] == 'eq' and is_call(x[0][1], 'count') and mentions(x[0][1], lambda y: y == ('fld', THIS, 'm_events'))]
            if reset and not (has_ and has_[0][1]):
                bad['list'] = 'copies registered earlier under the event are dropped'
            own = [e for e in ev(p, ('insert', 'emplace')) if holdsarg(p, e, e[3][1], me)]
            if len(own) != 1:
                bad['own'] = 'the calling work-item is not counted for its own copy'
    for k in FIELDS + ('location', 'spurious', 'skip', 'once', 'join'):
        R.check(joined > 0 and k not in bad, 'copy-same', k, floc(f), bad.get(k, ''), fn=f)
    for k in ('event', 'list', 'args', 'own'):
        R.check(news > 0 and k not in bad, 'copy-new', k, floc(f), bad.get(k, ''), fn=f)
    lp = [l for l in f.loops]
    from c05 import iteration_over
    R.check(any(iteration_over(f, l[0], 'm_asyncCopies') or any(mentions(a, lambda x: x == ('fld', THIS, 'm_asyncCopies')) for b in (l[0],)
                for s in f.blocks[b].succs for a, _ in edge_literals(f, b, s)) for l in lp), 'copy-new', 'search', floc(f),
            'the registered copies are not all searched', fn=f)


def holdsret(p, recv, r):
    k = strip(recv)[3]
    v = strip(k)
    v = p.load(k) if v[0] in ('alloca', 'fld') else v
    return nz(v) == r


AC = {'instruction': 0, 'type': 8, 'dest': 16, 'src': 24, 'size': 32, 'num': 40, 'srcStride': 48, 'destStride': 56, 'event': 64}


def compfield(p, e, a, k):
    """value of AsyncCopy member k of the object at address a when event e happens"""
    fl = p.flow
    r, v, c = fl.key(a)
    off = None
    for (rr, vv, cc), nm in fl.names.items():
        if rr == r and vv == v and nm[0] == 'fld' and nm[2] == k:
            off = cc
    if off is None:
        off = c + AC[k]
    x = ('fld', a, k)
    fl.keys.setdefault(x, (r, v, off))
    y = p.at(e, x, 4 if k == 'type' else 8)
    return y


def release(P, R):
    R.rule('count', 'resuming a barrier reports divergence exactly when not all work-items of the group arrived', 2)
    R.rule('resume', 'every waiting work-item is made ready and runnable again, the barrier is announced and retired', 5)
    R.rule('perform', 'every registered copy of every awaited event is performed element by element between the two memories with its own strides', 8)
    R.rule('retire', 'a performed event is forgotten, and copies not registered by the whole group are reported', 4)
    f = P.one(W + 'clearBarrier')
    bad, seen = {}, set()
    fl = Flow(f)
    hd = dict(f.loops)

    def sizecmp(x, y):
        sx, sy = deep(x), deep(y)
        allm = mentions(sy, lambda z: z == ('fld', THIS, 'm_workItems')) and not is_call(sy, 'count')
        if sx[0] == 'call' and short(sx[1]) == 'size' and allm and len(poly(y)) == 1:
            if mentions(sx, lambda z: z[0] == 'fld' and z[2] == 'm_barrier') and mentions(sx, lambda z: z[0] == 'fld' and z[2] == 'workItems'):
                return 'arrived'
            if not mentions(sx, lambda z: z[0] == 'fld' and z[2] == 'm_barrier'):
                return 'registered'
        return None

    def evt(e):
        """is e the awaited event being handled"""
        s_ = show(e)
        return 'm_barrier' in s_ and 'events' in s_

    def copyfield(e, k):
        e = nz(e)
        return e[0] == 'load' and e[1][0] == 'fld' and e[1][2] == k
    for p in fl.paths():
        eq, ne = different(p.lits, sizecmp)
        rp = reports(p)
        ren = p.events
        wk = [e for e in ren if e[0] == 'call' and (e[2] or '').endswith('WorkItem::clearBarrier')]
        ins = ev(p, ('insert', 'emplace'), member('m_running'))
        ld, stt = p.calls('Memory::load'), p.calls('Memory::store')
        # divergence at the barrier
        reg = [x for x in ('registered',) if x in eq | ne]
        n_want = (1 if 'arrived' in ne else 0) + (1 if 'registered' in ne else 0)
        if 'arrived' not in eq | ne:
            bad['arrived'] = 'the number of arrived work-items is not compared with the group'
        elif len(rp) != n_want:
            bad['registered' if reg and not ('arrived' in ne and not rp) else 'arrived'] = 'divergence is %s' % ('not reported' if len(rp) < n_want else 'reported without cause')
        seen |= ne
        if p.end[0] == 'iter':
            if wk or ins:
                ok = len(wk) == 1 and len(ins) == 1
                if ok:
                    x = nz(wk[0][3][0])
                    y = strip(ins[0][3][1])
                    y = nz(y) if y[0] not in ('alloca', 'fld') else nz(p.at(ins[0], ins[0][3][1]))
                    ok = x == y or deep(x) == deep(y)
                if not ok:
                    bad['items'] = 'a waiting work-item is not made ready and runnable'
                seen.add('items')
            if ld or stt:
                seen.add('copy')
                perform(p, f, ld, stt, bad, copyfield)
                for e in rp:
                    pass
            er = ev(p, ('erase',), member('m_asyncCopies'))
            if p.end[1] in hd and (er or 'registered' in eq | ne):
                m = [x for x in p.lits if x[0][0] == 'eq' and (copyfield(x[0][1], 'event') and evt(x[0][2]) or copyfield(x[0][2], 'event') and evt(x[0][1]))]
                if er and not (m and m[-1][1]):
                    bad['own'] = 'copies of other events are retired'
                if m and m[-1][1] and len(er) != 1:
                    bad['own'] = 'a performed copy stays registered'
                if er and 'registered' not in eq | ne:
                    bad['registered'] = 'the number of registered work-items is not compared with the group'
                seen.add('own')
            fr = ev(p, ('remove', 'pop_front', 'erase'), barfield('events'))
            if fr:
                seen.add('event')
                e2 = ev(p, ('erase',), member('m_events'))
                if not e2:
                    bad['forget'] = 'a performed event stays registered'
        elif p.end[0] == 'ret':
            nt = p.calls('Context::notifyWorkGroupBarrier')
            if len(nt) != 1 or nz(nt[0][3][1]) != THIS or not copyfield(nt[0][3][2], 'fence'):
                bad['announce'] = 'the barrier is not announced once with its fence'
            b = p.load(('fld', THIS, 'm_barrier'))
            if b != C(0):
                bad['gone'] = 'the barrier stays pending'
            dl = [e for e in ren if e[0] == 'call' and (e[2] or '').startswith('operator delete') and isbar(e[3][0])]
            if len(dl) != 1 and not any(x[0][0] == 'eq' and x[1] and isbar(x[0][1]) for x in p.lits):
                bad['deleted'] = 'the barrier object is not deleted once'
            fa = [x for x in p.lits if mentions(x[0], lambda y: y[0] == 'fld' and y[2] == 'events')]
            if not fa:
                bad['events'] = 'awaited events may be left over'
            seen.add('ret')
    for k in ('items', 'copy', 'own', 'event', 'ret'):
        if k not in seen:
            bad.setdefault({'copy': 'data', 'event': 'forget', 'ret': 'gone'}.get(k, k), 'nothing like this happens')
    for k in ('arrived', 'registered'):
        R.check(k in seen and k not in bad, 'count', k, floc(f), bad.get(k, 'never compared'), fn=f)
    for k in ('items', 'announce', 'gone', 'deleted'):
        R.check(k not in bad, 'resume', k, floc(f), bad.get(k, ''), fn=f)
    wl = [l for l in f.loops if any((c.callee or '').endswith('WorkItem::clearBarrier') and c.blk.id in l[1] for c in f.calls)]
    ok = len(wl) == 1 and walks(f, wl[0], lambda x: x[0] == 'fld' and x[2] == 'workItems') and path_avoiding(f, [f.blocks[wl[0][0]].insts[0]]) is None
    R.check(ok, 'resume', 'all', floc(f), 'not every waiting work-item is resumed', fn=f)
    for k in ('memories', 'data', 'size', 'src', 'dest', 'events'):
        R.check(k not in bad, 'perform', k, floc(f), bad.get(k, ''), fn=f)
    cl = sorted([l for l in f.loops if any((c.callee or '').endswith('Memory::store') and c.blk.id in l[1] for c in f.calls)], key=lambda l: len(l[1]))
    ok = len(cl) >= 3
    if ok:
        ok = any(st == C(0) and any(a[0] == 'lt' and p and nz(a[1]) == me and copyfield(a[2], 'num') or
                                    a[0] == 'eq' and not p and (nz(a[1]) == me and copyfield(a[2], 'num') or nz(a[2]) == me and copyfield(a[1], 'num'))
                                    for a, p in fs) for me, st, fs in counted(f, cl[0])) \
            and loop_exits(f, cl[0]) == {cl[0][0]}
    R.check(ok, 'perform', 'count', floc(f), 'a copy does not move its number of elements', fn=f)
    st_ = [c for c in f.calls if (c.callee or '').endswith('Memory::store')]
    ok = len(cl) >= 3 and every_iteration(f, cl[0], st_) is None and walked(f, cl[1]) and \
        every_iteration(f, cl[1], [f.blocks[cl[0][0]].insts[0]]) is None and every_iteration(f, cl[2], [f.blocks[cl[1][0]].insts[0]]) is None
    R.check(ok, 'perform', 'every', floc(f), 'some registered copy of an awaited event is not performed', fn=f)
    for k in ('own', 'forget'):
        R.check(k not in bad, 'retire', k, floc(f), bad.get(k, ''), fn=f)
    al = [l for l in f.loops if any(short(c.callee) == 'erase' and c.args and nz(args(f, c)[0]) == ('fld', THIS, 'm_asyncCopies') and c.blk.id in l[1] for c in f.calls)]
    al.sort(key=lambda l: len(l[1]))
    R.check(bool(al) and walked(f, al[0]), 'retire', 'search', floc(f), 'not every registered copy is examined', fn=f)
    rm = [c for c in f.calls if short(c.callee) in ('remove', 'pop_front', 'erase') and c.args and mentions(f.expr(c.args[0]), lambda x: x[0] == 'fld' and x[2] == 'events')
          and not mentions(f.expr(c.args[0]), lambda x: x[0] == 'fld' and x[2] == 'm_events')]
    ok = bool(rm) and bool(cl) and every_iteration(f, cl[-1], rm) is None
    R.check(ok or is_range(f, cl), 'retire', 'progress', floc(f), 'an awaited event is not taken off the list', fn=f)


def is_range(f, cl):
    """the event loop walks the list of awaited events instead of emptying it"""
    return bool(cl) and walks(f, cl[-1], lambda x: x[0] == 'fld' and x[2] == 'events')


def walked(f, lp):
    """left at the header only, when the cursor equals an end"""
    if loop_exits(f, lp) != {lp[0]}:
        return False
    out = [x for s in f.blocks[lp[0]].succs if s not in lp[1] for x in edge_literals(f, lp[0], s)]
    return bool(out) and all(a[0] == 'eq' and p for a, p in out)


def perform(p, f, ld, stt, bad, copyfield):
    if len(ld) != 1 or len(stt) != 1 or p.events.index(ld[0]) > p.events.index(stt[0]):
        bad['data'] = 'an element is not loaded and then stored once'
        return
    l, s = ld[0][3], stt[0][3]
    if strip(steady(p, ld[0], stt[0], l[1])) != strip(steady(p, ld[0], stt[0], s[1])):
        bad['data'] = 'the bytes stored are not the bytes loaded'
    if not (copyfield(l[3], 'size') and copyfield(s[3], 'size')):
        bad['size'] = 'an element is moved with %s and %s bytes' % (show(l[3]), show(s[3]))
    t = [x for x in p.lits if x[0][0] == 'eq' and copyfield(x[0][1], 'type')]
    loc = lambda e: nz(e) == fld(THIS, 'm_localMemory')      # noqa: E731
    glb = lambda e: is_call(nz(e), 'Context::getGlobalMemory')     # noqa: E731
    if not t:
        bad['memories'] = 'the direction of the copy is not looked at'
    else:
        tolocal = t[0][1] == (t[0][0][2] == C(0))
        if not (glb(l[0]) and loc(s[0]) if tolocal else loc(l[0]) and glb(s[0])):
            bad['memories'] = 'a copy to %s memory loads from %s and stores to %s' % ('local' if tolocal else 'global', show(l[0]), show(s[0]))
    for k, e in (('src', l[2]), ('dest', s[2])):
        v = strip(e)
        if v[0] == 'phi':
            i = f.insts[v[1]]
            lp = [x for x in f.loops if x[0] == i.blk.id]
            if not lp:
                bad[k] = 'address is not advanced'
                continue
            st_ = [nz(f.expr(x)) for x, b in i.args if b not in lp[0][1]]
            up = [poly(f.expr(x)) for x, b in i.args if b in lp[0][1]]
            if not all(copyfield(x, k) for x in st_):
                bad[k] = '%s address starts at %s' % (k, ', '.join(show(x) for x in st_))
            for u in up:
                d = padd({tuple(nz(y) for y in m): c for m, c in u.items()}, {(nz(v),): -1})
                ok = len(d) == 1 and list(d.values()) == [1] and len(list(d)[0]) == 2 and any(copyfield(x, k + 'Stride') for x in list(d)[0]) and \
                    any(copyfield(x, 'size') for x in list(d)[0])
                if not ok:
                    bad[k] = '%s address advances by %s' % (k, pshow(d))
        else:
            u = poly(e)
            ok = len(u) == 2 and all(c == 1 for c in u.values()) and any(len(m) == 1 and copyfield(m[0], k) for m in u) and \
                any(len(m) == 3 and any(copyfield(x, k + 'Stride') for x in m) and any(copyfield(x, 'size') for x in m) and
                    any(nz(x)[0] == 'phi' for x in m) for m in u)
            if not ok:
                bad[k] = '%s address is %s' % (k, show(e))


def builtins(P, R):
    R.rule('enter', 'the barrier built-ins stop their work-item before announcing it, with their own instruction, fence and events', 5)
    b = {}
    for name in ('work_group_barrier', 'wait_group_events'):
        f = builtin(P, name)
        n = 0
        bad = None
        for p in Flow(f).paths():
            if p.end[0] != 'ret':
                continue
            nb = p.calls('WorkGroup::notifyBarrier')
            if not nb:
                if not any(is_call(a[1], 'Memory::load') and not pol for a, pol in p.lits):
                    bad = 'a path does not arrive at the barrier'
                continue
            n += 1
            ss = [e for e in p.stores() if nz(e[2]) == ('fld', ('arg', pnames(f)[0]), 'm_state')]
            if len(ss) != 1 or ss[0][3] != C(1) or p.events.index(ss[0]) > p.events.index(nb[0]):
                bad = 'the work-item is not stopped'
            a = nb[0][3]
            if len(nb) != 1 or nz(a[1]) != ('arg', pnames(f)[0]) or nz(a[2]) != ('arg', pnames(f)[1]):
                bad = 'the barrier is announced for something else'
            if name == 'wait_group_events' and nz(a[3]) != C(3):
                bad = 'the fence is %s' % show(a[3])
            if name == 'work_group_barrier' and (not oparg(a[3]) or oparg(a[3])[:2] != ('UInt', 0)):
                bad = 'the fence is %s' % show(a[3])
        R.check(n > 0 and not bad, 'enter', name, floc(f), bad or 'never arrives', fn=f)
    f = builtin(P, 'wait_group_events')
    bad, it = {}, 0
    for p in Flow(f).paths():
        ld, ps = p.calls('Memory::load'), [e for e in p.events if e[0] == 'call' and short(e[2]) in ('push_back', 'emplace_back')]
        if p.end[0] != 'iter':
            continue
        it += 1
        if len(ld) != 1 or len(ps) != 1 or strip(ps[0][3][1]) != strip(ld[0][3][1]) or nz(ld[0][3][3]) != C(8) or \
                nz(ld[0][3][0]) != fld(('arg', pnames(f)[0]), 'm_privateMemory'):
            bad['list'] = 'an event is not read from the list and awaited'
            continue
        a = strip(ld[0][3][2])
        u = None
        if a[0] == 'phi':
            i = f.insts[a[1]]
            lp = [x for x in f.loops if x[0] == i.blk.id][0]
            u = all((oparg(f.expr(x)) or ())[:2] == ('Pointer', 1) for x, b_ in i.args if b_ not in lp[1]) and \
                all(padd(poly(f.expr(x)), {(a,): -1}) == {(): 8} for x, b_ in i.args if b_ in lp[1])
        else:
            m = [x for x in poly(a).items()]
            u = len(m) == 2 and any(c == 8 and len(k) == 1 and k[0][0] == 'phi' for k, c in m) and any(c == 1 and (oparg(k[0]) or ())[:2] == ('Pointer', 1) for k, c in m)
        if not u:
            bad['list'] = 'events are not read from consecutive addresses'
    R.check(it > 0 and 'list' not in bad, 'enter', 'events', floc(f), bad.get('list', 'no events are read'), fn=f)
    ok = any(st == C(0) and any(a[0] == 'lt' and p and nz(a[1]) == me and (oparg(a[2]) or ())[:2] == ('UInt', 0) for a, p in fs)
             for l in f.loops for me, st, fs in counted(f, l))
    R.check(ok, 'enter', 'number', floc(f), 'the number of events read is not the number given', fn=f)
    g = builtin(P, 'async_work_group_copy')
    n, bad = 0, {}
    for p in Flow(g).paths():
        if p.end[0] != 'ret':
            continue
        c = p.calls('WorkGroup::async_copy')
        if len(c) != 1:
            bad['x'] = 'the copy is not registered once'
            continue
        n += 1
        a = c[0][3]
        if nz(a[1]) != ('arg', pnames(g)[0]) or nz(a[2]) != ('arg', pnames(g)[1]):
            bad['x'] = 'the copy is registered for something else'
        if (oparg(a[4]) or ())[:2] != ('Pointer', 0) or (oparg(a[5]) or ())[:2] != ('Pointer', 1) or (oparg(a[7]) or ())[:2] != ('UInt', 2):
            bad['x'] = 'destination, source or number of elements is not the argument given'
        str_ = [x for x in p.lits if x[0][0] == 'true' and ('s', 'async_work_group_strided_copy') in x[0][1]]
        k = 4 if str_ and str_[0][1] else 3
        if (oparg(a[10]) or ())[:2] != ('UInt', k):
            bad['x'] = 'the event is %s' % show(a[10])
        su = [e for e in p.calls('TypedValue::setUInt') if nz(e[3][0]) == ('arg', pnames(g)[4])]
        if len(su) != 1 or not is_call(su[0][3][1], 'WorkGroup::async_copy'):
            bad['x'] = 'the event of the copy is not returned'
    R.check(n > 0 and not bad, 'enter', 'copy', floc(g), bad.get('x', 'never registers a copy'), fn=g)
