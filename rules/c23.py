"""C23: all paths of Queue::execute.  The command can be started only past the test that finds its wait list empty; each
round of the wait loop takes one event off the list and may drop it only when it is complete (or is the predecessor, once
executed), after executing what it stands for; a failed event makes the command fail with that status without running.
Started paths store timestamps and states in order and remove the command from the queue once.  The predecessor joins the
wait list of an in-order (or flushed) command.  Writers of event states and the hand-over of wait lists by every enqueueing
function are checked one by one."""
from common import *
import itertools
from flow import Flow
import rt
import c20
import c22
from c21 import A

TECHNIQUE = 'path and typestate analysis of Queue::execute; writer and hand-over checks for event states and wait lists'
TUS = rt.TUS + ['Queue']
NOTE = 'The clock itself (now()) is taken to be non-decreasing; a wait list that can never complete is outside the property.'
ASSUMPTIONS = ['std::find returns the position of the command in the queue']

QUEUED, SUBMITTED, RUNNING, COMPLETE = 3, 2, 1, 0


def last(c):
    return c20.last_name(c) if c else ''


def run(P, R):
    R.rule('wait', 'a command is started only after its wait list was found empty', 1)
    R.rule('round', 'a round of the wait loop takes one event and drops it only once it is complete', 1)
    R.rule('progress', 'a pending event makes its command be executed on its own queue and recorded for release; user events are looked at again', 1)
    R.rule('failure', 'a failed event makes the command fail with the same status, without being run', 1)
    R.rule('previous', 'a command of an in-order or flushed queue waits for its predecessor', 1)
    R.rule('order', 'a started command publishes running, then its end time and completion, around its execution', 2)
    R.rule('removed', 'a command is removed from its queue exactly once', 1)
    R.rule('new', 'a new event is queued, time-stamped and tied to its command and queue', 3)
    R.rule('finish', 'finishing executes the newest command with everything before it and hands it back', 1)
    R.rule('waits', 'every event of a wait list is waited for', 1)
    R.rule('list', 'the wait list of a request is handed on with its length', 20)
    R.rule('user', 'a user event is pending until its status is set, once, to complete or a failure', 2)
    R.rule('callbacks', 'each registered callback is called with the event, its status and its data', 2)
    R.rule('writers', 'nothing else changes the state or the times of an event', 4)
    execute(P, R)
    events(P, R)
    lists(P, R)
    user(P, R)
    writers(P, R)


def value(p, e, a):
    """value passed by reference"""
    a = a
    if a[0] == 'alloca':
        return nz(p.at(e, a, 8))
    return nz(('load', a))


def execute(P, R):
    f = P.one('oclgrind::Queue::execute')
    loc = floc(f)
    prm = pnames(f)
    cmd, flush = ('arg', prm[1]), ('arg', prm[2])
    WL = ('fld', cmd, 'waitList')
    state = ('load', ('fld', cmd, 'event'))
    tm = lambda n: ('fld', state, n)
    paths = list(Flow(f, fresh=re.compile(r'oclgrind::now$'), limit=20000).paths())
    isst = lambda e, a: e[0] == 'store' and nz(e[2]) == a

    def own(x):
        return mentions(x, lambda y: y == WL)


    def raw_empty(a, pol):      # before locals are resolved
        ex = repr(a)
        if a[0] in ('eq', 'lt') and "'waitList'" in ex and '::size' in ex and C(0) in a[1:3]:
            return pol == (a[0] == 'eq')
        return pol and (a[0] == 'eq' and ex.count("'waitList'") >= 2 or a[0] == 'true' and "'waitList'" in ex and '::empty' in ex)
    # -- start only after the list is empty (control flow, all histories)
    starts = [i for i in f.all() if i.op in ('store', 'call', 'invoke') and (
        i.op != 'store' and re.search(r'Queue::execute\w+$', i.callee or '') or
        i.op == 'store' and re.search(r"'(startTime|endTime)'", repr(f.expr(i.args[1]))))]
    need(len(starts) >= 10, 'no start of a command found')
    adds = [i for i in f.calls if last(i.callee) in ('push_back', 'push_front', 'insert', 'emplace_back', 'emplace_front', 'splice', 'merge') and
            "'waitList'" in repr(f.expr(i.args[0]))]
    bad = None
    for src in [None] + adds:
        st = [src.blk.id] if src is not None else [0]
        seen = set()
        while st:
            b = st.pop()
            for s in f.blocks[b].succs:
                if s in seen or any(raw_empty(a, q) for a, q in edge_literals(f, b, s)):
                    continue
                seen.add(s)
                st.append(s)
        hit = [i for i in starts if i.blk.id in seen]
        if hit:
            bad = bad or (hit[0], src)
    R.check(not bad, 'wait', 'Queue::execute', loc, bad and 'line %s is reached without the wait list having been found empty%s' %
            (bad[0].line, ' after line %s' % bad[1].line if bad[1] is not None else ''), fn=f)
    # -- one round of the loop
    def front(x):
        x = nz(x)
        return x[0] == 'load' and (x[1][0] == 'call' and last(x[1][1]) in ('front', 'back', 'operator*') and own(x[1]) or
                                   x == head)
    head = ('load', ('fld', ('load', WL), '#1'))        # *begin()
    why = prog = None
    rounds = 0
    for p in paths:
        pops = [e for e in p.events if e[0] == 'call' and last(e[2]) in ('pop_front', 'pop_back', 'erase', 'clear', 'remove') and e[3] and own(e[3][0])]
        if p.end[0] != 'iter':
            continue
        lits = [(a, q) for a, q in p.lits]
        if not any(own(a) for a, q in lits if a[0] in ('eq', 'true')):
            continue
        rounds += 1
        kind = [last(e[2]) for e in pops]
        if kind == ['erase'] and nz(pops[0][3][1]) == ('load', WL):
            kind = ['pop_front']
        if len(pops) != 1 or kind[0] not in ('pop_front', 'pop_back'):
            why = why or 'takes %d events off the list' % len(pops)
            continue
        el = {nz(x) for a, q in lits for y in a[1:3] for x in c22.walk(y) if front(x)}
        ends = {'front' if x == head else last(x[1][1]) for x in el}
        if len(el) != 1 or ends == {'back'} and kind != ['pop_back'] or ends == {'front'} and kind != ['pop_front']:
            why = why or 'the event that is removed is not the one that was examined'
            continue
        E = el.pop()
        es = ('load', E)
        done = any(a[0] == 'eq' and q and nz(a[1]) == es and a[2] == C(COMPLETE) for a, q in lits)
        failed = any(a[0] == 'slt' and q and nz(a[1]) == es and a[2] == C(0) for a, q in lits)
        if failed:
            why = why or 'a failed event is passed over'
        back = [e for e in p.events if e[0] == 'call' and last(e[2]) in ('push_back', 'push_front') and nz(e[3][0]) == WL and value(p, e, e[3][1]) == E]
        prev = any(a[0] == 'eq' and q and (nz(a[1]) == E and isprev(a[2]) or nz(a[2]) == E and isprev(a[1])) for a, q in lits)
        ec = ('load', ('fld', E, 'command'))
        ran = [e for e in p.events if e[0] == 'call' and e[2] == 'oclgrind::Queue::execute']
        if not done and not back and not (prev and ran):
            why = why or 'an event is dropped although it is not complete'
        if done:
            if ran:
                prog = prog or 'a completed event is executed again'
            continue
        cmdnull = c22.known(lits, ec, 0)
        if cmdnull is None:
            prog = prog or 'it is not known whether the event has a command'
        elif cmdnull:
            if ran:
                prog = prog or 'a user event is executed'
        else:
            a = [nz(x) for x in ran[0][3]] if len(ran) == 1 else None
            if a is None:
                prog = prog or 'a pending command is executed %d times in a round' % len(ran)
            elif a[0] != ('load', ('fld', E, 'queue')) or a[1] != ec:
                prog = prog or 'the command that is executed is not that of the event on its queue'
            elif a[2] != flush and a[2] not in (C(1), C(-1)):
                prog = prog or 'the predecessors of the event are not flushed along'
            rec = [e for e in p.events if e[0] == 'call' and last(e[2]) in ('push_front', 'push_back') and
                   nz(e[3][0]) == ('fld', cmd, 'execBefore')]
            if len(rec) != 1 or value(p, rec[0], rec[0][3][1]) != ec:
                prog = prog or 'the executed command is not recorded for release'
    R.check(rounds and not why, 'round', 'Queue::execute', loc, why or 'there is no wait loop', fn=f)
    R.check(rounds and not prog, 'progress', 'Queue::execute', loc, prog or 'there is no wait loop', fn=f)
    # -- failure, order, removal
    fail = order = times = rem = None
    nf = ns = 0
    for p in paths:
        if p.end[0] != 'ret':
            continue
        er = [(n, e) for n, e in enumerate(p.events) if e[0] == 'call' and last(e[2]) in ('erase', 'remove', 'pop_front', 'pop_back') and
              mentions(e[3][0], lambda y: y == ('fld', THIS, 'm_queue'))]
        if len(er) != 1 or last(er[0][1][2]) not in ('erase', 'remove'):
            rem = rem or 'the command is removed %d times on a path' % len(er)
        elif last(er[0][1][2]) == 'erase' and not mentions(er[0][1][3][1], lambda y: y[0] == 'call' and y[1].startswith('std::find<')):
            rem = rem or 'what is removed is not the position of the command'
        fnd = [e for e in p.events if e[0] == 'call' and (e[2] or '').startswith('std::find<')]
        if any(value(p, e, e[3][2]) != cmd and e[3][2] != cmd for e in fnd):
            rem = rem or 'the position is not that of the command'
        ran = [n for n, e in enumerate(p.events) if e[0] == 'call' and re.search(r'Queue::execute\w+$', e[2] or '')]
        sts = [(n, nz(e[3])) for n, e in enumerate(p.events) if isst(e, state)]
        begin = [(n, e[3]) for n, e in enumerate(p.events) if isst(e, tm('startTime'))]
        end = [(n, e[3]) for n, e in enumerate(p.events) if isst(e, tm('endTime'))]
        bad = [a for a, q in p.lits if a[0] == 'slt' and q and a[2] == C(0) and nz(a[1])[0] == 'load' and front(nz(a[1])[1])]
        if bad:
            nf += 1
            if ran or begin or end:
                fail = fail or 'the command is run although an event failed'
            elif [v for n, v in sts] != [nz(bad[0][1])]:
                fail = fail or 'the status of the command becomes %s' % (', '.join(S(v) for n, v in sts) or 'nothing')
            continue
        ns += 1
        if [v for n, v in sts] != [C(RUNNING), C(COMPLETE)]:
            order = order or 'the states of the command are %s' % (', '.join(S(v) for n, v in sts) or 'never set')
            continue
        if ran and not (sts[0][0] < ran[0] and ran[-1] < sts[1][0]):
            order = order or 'the command is not executed between running and complete'
        if er and er[0][0] < (ran[-1] if ran else 0):
            order = order or 'the command is removed before it is executed'
        stamp = lambda v: v[-1][1] if v[0] == 'call' and v[1].endswith('::now') and v[-1][0] == '#' else None
        if len(begin) != 1 or len(end) != 1 or stamp(begin[0][1]) is None or stamp(end[0][1]) is None:
            times = times or 'the start or end time is not taken from the clock'
        elif stamp(begin[0][1]) >= stamp(end[0][1]):
            times = times or 'the end time is read before the start time'
        else:
            ticks = [n for n, e in enumerate(p.events) if e[0] == 'call' and (e[2] or '').endswith('::now')]
            if ran and not (ticks[stamp(begin[0][1])] < ran[0] and ran[-1] < ticks[stamp(end[0][1])]):
                times = times or 'the times do not enclose the execution'
            if not (end[0][0] < sts[1][0]):
                times = times or 'completion is published before the end time'
    R.check(nf and not fail, 'failure', 'Queue::execute', loc, fail or 'no path handles a failed event', fn=f)
    R.check(ns and not order, 'order', 'states', loc, order or 'no path completes the command', fn=f)
    R.check(ns and not times, 'order', 'times', loc, times or 'no path completes the command', fn=f)
    R.check(ns and not rem, 'removed', 'Queue::execute', loc, rem or 'no path completes the command', fn=f)
    # -- predecessor
    why, n = None, 0
    for p in paths:
        adds = [e for e in p.events if e[0] == 'call' and last(e[2]) in ('push_back', 'push_front') and nz(e[3][0]) == WL and
                isprev(value(p, e, e[3][1]))]
        n += bool(adds)
        if len(adds) > 1:
            why = why or 'the predecessor is added more than once'
        for first, ooo, fl in itertools.product((False, True), repeat=3):
            if not all(truth(a, first, ooo, fl, flush, cmd) in (None, q) for a, q in p.lits):
                continue
            if adds and first:
                why = why or 'the position in the queue is not tested'
            if not adds and not first and (fl or not ooo):
                why = why or 'the predecessor is not waited for'
    R.check(n and not why, 'previous', 'Queue::execute', loc, why or 'the predecessor is never waited for', fn=f)


def truth(x, first, ooo, fl, flush, cmd):
    """the value of a condition about the position of the command, the order of the queue and the flush flag, or None"""
    go = lambda y: truth(y, first, ooo, fl, flush, cmd)
    if not isinstance(x, tuple) or not x:
        return None
    if x[0] == 'true':
        return go(x[1])
    if x[0] == 'c':
        return bool(x[1])
    y = nz(x)
    if y == flush:
        return fl
    if y == ('load', ('fld', THIS, 'm_out_of_order')):
        return ooo
    if x[0] == 'icmp' and x[1] in ('eq', 'ne'):
        r = go(('eq',) + x[2:4])
        return r if r is None or x[1] == 'eq' else not r
    if x[0] == 'eq':
        u, v = nz(x[1]), nz(x[2])
        if cmd in (u, v) and any(z[0] == 'load' and is_call(z[1], 'front') and z[1][2] == ('fld', THIS, 'm_queue') for z in (u, v)):
            return first
        if mentions(x, lambda z: z[0] == 'call' and z[1].startswith('std::find<')) and \
                all(mentions(z, lambda w: w == ('fld', THIS, 'm_queue')) for z in (u, v)):
            if not mentions(x, lambda z: z[0] == 'call' and last(z[1]).split('<')[0] in ('front', 'back', 'prev', 'end')) and \
                    not mentions(x, lambda z: z[0] == 'fld' and z[2] in ('_M_prev', '_M_node')):
                return first
            return None
        if v[0] == 'c' and v[1] in (0, 1, -1):
            r = go(x[1])
            return None if r is None else r == bool(v[1])
        return None
    if x[0] in ('and', 'or', 'xor') and len(x) == 3:
        u, v = go(x[1]), go(x[2])
        if x[0] == 'xor':
            return None if u is None or v is None else u != v
        s = x[0] == 'or'
        return s if s in (u, v) else None if None in (u, v) else not s
    if x[0] == 'select':
        c = go(x[1])
        return None if c is None else go(x[2] if c else x[3])
    if x[0] in ('trunc', 'zext', 'sext'):
        return go(x[-1])
    if y != x:
        return go(y)
    return None


def isprev(x):
    """event of the previous command of the queue (or NULL)"""
    x = nz(x)
    return x == C(0) or x[0] == 'load' and x[1][0] == 'fld' and x[1][2] == 'event' and mentions(
        x, lambda y: y[0] == 'call' and last(y[1]).split('<')[0] in ('prev', 'operator--') or y[0] == 'fld' and y[2] == '_M_prev')


def events(P, R):
    f = P.one('oclgrind::Event::Event')
    got = {}
    for p in Flow(f).paths():
        for e in p.events:
            if e[0] == 'store':
                a = nz(e[2])
                got[a[2] if a[0] == 'fld' else 'state'] = nz(e[3])
    R.check(got.get('state') == C(QUEUED), 'new', 'state', floc(f), 'the state of a new event is %s' % S(got.get('state', C(-1))), fn=f)
    zero = lambda v: v is not None and (v == C(0) or v[0] == 'f' and float(v[1]) == 0)
    R.check(is_call(got.get('queueTime', C(0)), 'oclgrind::now') and zero(got.get('startTime')) and zero(got.get('endTime')), 'new', 'times', floc(f),
            'the times of a new event are %s' % ', '.join('%s=%s' % (k, S(v)) for k, v in sorted(got.items())), fn=f)
    f = P.one('oclgrind::Queue::enqueue')
    cmd = ('arg', pnames(f)[1])
    why, n = None, 0
    for p in Flow(f).paths():
        if p.end[0] != 'ret':
            continue
        n += 1
        ev = nz(p.ret)
        st = {nz(e[2]): nz(e[3]) for e in p.events if e[0] == 'store'}
        for a, v in ((('fld', cmd, 'event'), ev), (('fld', ev, 'command'), cmd), (('fld', ev, 'queue'), THIS)):
            if st.get(a) != v:
                why = why or '%s is %s' % (S(a), S(st[a]) if a in st else 'not set')
        if len([e for e in p.events if e[0] == 'call' and (e[2] or '').endswith('Event::Event') and nz(e[3][0]) == ev]) != 1:
            why = why or 'the event returned is not new'
        ad = [e for e in p.events if e[0] == 'call' and last(e[2]) in ('push_back', 'push_front') and mentions(e[3][0], lambda y: y == ('fld', THIS, 'm_queue'))]
        if len(ad) != 1 or last(ad[0][2]) != 'push_back' or value(p, ad[0], ad[0][3][1]) != cmd and nz(ad[0][3][1]) != cmd:
            why = why or 'the command is not appended to the queue once'
    R.check(n and not why, 'new', 'Queue::enqueue', floc(f), why or 'nothing is enqueued', fn=f)
    f = P.one('oclgrind::Queue::finish')
    why, n = None, 0
    for p in Flow(f).paths():
        if p.end[0] != 'ret':
            continue
        es = [e for e in p.events if e[0] == 'call' and e[2] == 'oclgrind::Queue::execute']
        if not es:
            if nz(p.ret) != C(0) or not any(a[0] in ('eq', 'true') and q and mentions(a, lambda y: y == ('fld', THIS, 'm_queue')) for a, q in p.lits):
                why = why or 'a queue that is not known to be empty is not executed'
            continue
        n += 1
        a = [nz(x) for x in es[0][3]]
        if len(es) != 1 or a[0] != THIS or a[2] not in (C(1), C(-1)):
            why = why or 'the queue is not flushed'
        newest = a[1][0] == 'load' and (a[1][1][0] == 'call' and last(a[1][1][1]) == 'back' and mentions(a[1], lambda y: y == ('fld', THIS, 'm_queue')) or
                                        a[1][1] == ('fld', ('load', ('fld', ('fld', THIS, 'm_queue'), '_M_prev')), '#1'))
        if not newest:
            why = why or 'the command executed is not the newest'
        if nz(p.ret) != a[1]:
            why = why or 'the executed command is not handed back'
    R.check(n and not why, 'finish', 'Queue::finish', floc(f), why or 'nothing is executed', fn=f)


def lists(P, R):
    f = P.one('asyncEnqueue')
    prm = pnames(f)
    cmd, num, lst = ('arg', prm[2]), ('arg', prm[3]), ('arg', prm[4])
    paths = list(Flow(f).paths())

    def t(p, e, me):
        if e[0] != 'call' or last(e[2]) not in ('push_back', 'push_front') or nz(e[3][0]) != ('fld', cmd, 'waitList'):
            return False
        x = value(p, e, e[3][1])
        return x[0] == 'load' and x[1][0] == 'fld' and x[1][2] == 'event' and c20.at(x[1][1], lst, me)
    R.check(c20.over(f, paths, num, t), 'waits', 'asyncEnqueue', floc(f), 'not every event of the list is entered in the wait list of the command', fn=f)
    for f in rt.entry_points(P):
        n = short(f.qual)
        if not n.startswith('clEnqueue'):
            continue
        prm = pnames(f)
        num = [x for x in prm if x in ('num_events_in_wait_list', 'num_events')]
        ls = [x for x in prm if x in ('event_wait_list', 'event_list')]
        why, seen = None, 0
        for p in rt.flow(f):
            for e in p.events:
                if e[0] != 'call' or not e[2]:
                    continue
                if last(e[2]) == 'asyncEnqueue':
                    a, l = nz(e[3][3]), nz(e[3][4])
                elif last(e[2]).startswith('clEnqueue'):
                    g = [x for x in rt.entry_points(P) if x.qual == e[2]]
                    if not g:
                        continue
                    q = pnames(g[0])
                    if 'event_wait_list' not in q:
                        continue
                    a, l = nz(e[3][q.index('num_events_in_wait_list')]), nz(e[3][q.index('event_wait_list')])
                else:
                    continue
                seen += 1
                if num and ls:
                    if strip(a) != A(num[0]) or strip(l) != A(ls[0]):
                        why = why or 'hands on %s, %s' % (S(a), S(l))
                elif a != C(0) or l != C(0):
                    why = why or 'hands on %s, %s' % (S(a), S(l))
        if seen:
            R.check(not why, 'list', n, floc(f), why, fn=f)


def user(P, R):
    f = [x for x in rt.entry_points(P) if x.qual == 'clCreateUserEvent'][0]
    why, n = None, 0
    for p in rt.flow(f):
        if p.end[0] != 'ret' or nz(p.ret) == C(0):
            continue
        n += 1
        st = {nz(e[2]): nz(e[3]) for e in p.events if e[0] == 'store'}
        o = nz(p.ret)
        ev = [v for a, v in st.items() if a == ('fld', o, 'event')]
        if not ev or not any(e[0] == 'call' and (e[2] or '').endswith('oclgrind::Event::Event') and nz(e[3][0]) == ev[0] for e in p.events):
            why = why or 'it has no new event'
            continue
        if st.get(ev[0]) != C(SUBMITTED):
            why = why or 'its state is %s' % S(st.get(ev[0], C(QUEUED)))
        if st.get(('fld', ev[0], 'command')) != C(0):
            why = why or 'it has a command'
        if st.get(('fld', o, 'queue')) != C(0):
            why = why or 'it has a queue'
    R.check(n and not why, 'user', 'clCreateUserEvent', floc(f), why or 'no user event is made', fn=f)
    f = [x for x in rt.entry_points(P) if x.qual == 'clSetUserEventStatus'][0]
    ev, new = A(pnames(f)[0]), A(pnames(f)[1])
    sa = ('load', ('fld', ev, 'event'))
    why, n = None, 0
    cb = None
    paths = rt.flow(f)
    for p in paths:
        st = [nz(e[3]) for e in p.events if e[0] == 'store' and nz(e[2]) == sa]
        ok = p.end[0] == 'ret' and nz(p.ret) == C(0)
        if p.end[0] == 'ret' and ok != bool(st):
            why = why or ('reports success without setting the status' if ok else 'sets the status and fails')
        if not st:
            continue
        n += 1
        if st != [new]:
            why = why or 'the status becomes %s' % S(st[0])
        final = known0(p.lits, ('load', sa))
        valid = known0(p.lits, new)
        neg = lambda e: any(a[0] == 'slt' and nz(a[1]) == e and a[2] == C(0) and not q for a, q in p.lits)
        if final is not False or not neg(('load', sa)):
            why = why or 'a final status is overwritten'
        if valid is not True and not any(a[0] == 'slt' and q and nz(a[1]) == new and a[2] == C(0) or
                                         a[0] == 'slt' and not q and nz(a[2]) == new and a[1] == C(0) for a, q in p.lits):
            why = why or 'a status that is not final is set'
        if c22.known(p.lits, ('load', ('fld', ev, 'queue')), 0) is not True:
            why = why or 'the status of a command is set'
    R.check(n and not why, 'user', 'clSetUserEventStatus', floc(f), why or 'the status is never set', fn=f)
    callbacks(P, R, f, ev, lambda v: v == new or v == ('load', sa))
    f = P.one('asyncQueueRelease')
    callbacks(P, R, f, None, None)


def known0(fs, e):
    return c22.known(fs, e, 0)


def callbacks(P, R, f, ev, status):
    why, n = None, 0
    loops = [lp for lp in f.loops if walks(f, lp, lambda x: x[0] == 'fld' and x[2] == 'callbacks')]
    for p in Flow(f, limit=20000).paths():
        es = [e for e in p.events if e[0] == 'call' and e[2] is None]
        if p.end[0] == 'iter' and any(lp[0] == p.end[1] for lp in loops):
            n += 1
            if len(es) != 1:
                why = why or '%d calls are made for a callback' % len(es)
                continue
            a = [nz(x) for x in es[0][3]]
            e0 = ev or a[0]
            ok = a[0] == e0 and (status(a[1]) if status else a[1] == ('load', ('load', ('fld', a[0], 'event'))))
            if not ok:
                why = why or 'a callback is called with %s, %s' % (S(a[0]), S(a[1]))
    good = loops and n and not why
    R.check(good, 'callbacks', short(f.qual), floc(f), why or 'not every callback is called', fn=f)


def writers(P, R):
    """stores to fields of oclgrind::Event outside the functions above"""
    ok = {'oclgrind::Event::Event': {'state', 'queueTime', 'startTime', 'endTime'},
          'oclgrind::Queue::execute': {'state', 'startTime', 'endTime'}, 'clSetUserEventStatus': {'state'}, 'clCreateUserEvent': {'state'}}
    seen = {}
    for f in P.fns.values():
        for i in f.all():
            if i.op != 'store':
                continue
            a = f.expr(i.args[1])
            n = None
            if a[0] == 'fld' and a[2] in ('queueTime', 'startTime', 'endTime'):
                n = a[2]
            elif nz(a)[0] == 'load' and nz(a)[1][0] == 'fld' and nz(a)[1][2] == 'event' and i.d.get('vt') == 'i32':
                n = 'state'
            elif f.qual in ok and i.d.get('vt') == 'i32' and (nz(a) == THIS or nz(a)[0] == 'call' and nz(a)[1].startswith('operator new')):
                n = 'state'
            if n:
                seen.setdefault(f.qual, []).append((n, i))
    for q, l in sorted(seen.items()):
        bad = [(n, i) for n, i in l if n not in ok.get(q, ())]
        g = l[0][1].blk.fn if hasattr(l[0][1].blk, 'fn') else P.one(q)
        R.check(not bad, 'writers', short(q), floc(g), bad and 'line %s sets the %s of an event' % (bad[0][1].line, bad[0][0]), fn=g)
