"""C20: from the enqueue of a command to its release the runtime keeps books of the objects the command uses.  The rule
follows every path of every enqueue function (each memory object or kernel it was given is entered for the very command
that is enqueued, with the right command type and the caller's event list), of the book-keeping functions (taking a
reference and recording it go together; releasing walks every record, drops each reference once and deletes the record)
and of every function that executes commands (each executed command is released exactly once, after its execution)."""
from common import *
from flow import Flow
import build
import rt

TECHNIQUE = 'path-wise typestate of the per-command books of retained objects, from enqueue to release'
TUS = rt.TUS
NOTE = 'The books are maps keyed by the command; which map holds what is discovered from the functions that fill them.'

# command type each function reports through its event (OpenCL 3.0, table of command types)
TYPES = {'clEnqueueNDRangeKernel': 0x11F0, 'clEnqueueTask': 0x11F1, 'clEnqueueNativeKernel': 0x11F2, 'clEnqueueReadBuffer': 0x11F3,
         'clEnqueueWriteBuffer': 0x11F4, 'clEnqueueCopyBuffer': 0x11F5, 'clEnqueueReadImage': 0x11F6, 'clEnqueueWriteImage': 0x11F7,
         'clEnqueueCopyImage': 0x11F8, 'clEnqueueCopyImageToBuffer': 0x11F9, 'clEnqueueCopyBufferToImage': 0x11FA,
         'clEnqueueMapBuffer': 0x11FB, 'clEnqueueMapImage': 0x11FC, 'clEnqueueUnmapMemObject': 0x11FD, 'clEnqueueMarker': 0x11FE,
         'clEnqueueReadBufferRect': 0x1201, 'clEnqueueWriteBufferRect': 0x1202, 'clEnqueueCopyBufferRect': 0x1203,
         'clEnqueueBarrier': 0x1205, 'clEnqueueMigrateMemObjects': 0x1206, 'clEnqueueFillBuffer': 0x1207, 'clEnqueueFillImage': 0x1208,
         'clEnqueueMarkerWithWaitList': 0x11FE, 'clEnqueueBarrierWithWaitList': 0x1205, 'clEnqueueWaitForEvents': None}
KERNEL = 5   # Command::KERNEL, checked against the enumeration


def last_name(c):
    """last component of a (template) function name"""
    c = re.sub(r'\[abi:\w+\]', '', c or '')
    if c.endswith('operator[]'):
        return 'operator[]'
    d, k = 0, 0
    for n, ch in enumerate(c):
        d += ch == '<'
        d -= ch == '>'
        if d == 0 and c.startswith('::', n):
            k = n + 2
    return re.sub(r'<.*', '', c[k:])


def entry(x):
    """global map of an element-of-map expression"""
    if x[0] == 'call' and last_name(x[1]) in ('operator[]', 'at', 'find') and 'map<' in x[1] and len(x) > 3 and x[2][0] == 'g':
        return x[2]
    return None


def rec(g):
    return lambda x: entry(x) == g


def mapcall(p, e, *names):
    """(map, key) of an operation on a global map"""
    if e[0] == 'call' and e[2] and 'map<' in e[2] and last_name(e[2]) in names and len(e[3]) > 1 and e[3][0][0] == 'g':
        a = e[3][1]
        v = p.at(e, a, 8) if a[0] == 'alloca' else a
        if entry(v):
            k = [mapcall(p, x, 'find') for x in p.events[:p.events.index(e)]]
            k = [x for x in k if x and x[0] == e[3][0]]
            v = k[-1][1] if k else v
        return e[3][0], strip(nz(v))
    return None


def keyed(p, e, x):
    """key under which the element expression x was looked up, as of the latest look-up before e"""
    k = None
    for ev in p.events[:p.events.index(e)]:
        m = mapcall(p, ev, 'operator[]', 'at', 'find')
        if m and m[0] == entry(x):
            k = m[1]
    return k


def drains(f, lp, cont):
    """container expression X when the loop takes the first element off X until X is empty, X being `cont` or a copy of it"""
    if loop_exits(f, lp) != {lp[0]}:
        return None
    outs = [x for s in f.blocks[lp[0]].succs if s not in lp[1] for x in edge_literals(f, lp[0], s)]
    for a, pol in outs:
        X = None
        if a[0] == 'true' and pol and is_call(nz(a[1]), 'empty'):
            X = nz(a[1])[2]
        elif a[0] == 'eq' and pol:
            for u, v in ((nz(a[1]), nz(a[2])), (nz(a[2]), nz(a[1]))):
                if v == ('load', u) or v[0] == 'load' and v[1] == u or v[0] == 'clob' and v[1] == u:
                    X = u
                if v == C(0) and is_call(u, 'size'):
                    X = u[2]
        if X is None:
            continue
        ok = cont(X)
        if not ok and X[0] == 'alloca':
            for i in f.calls:
                xs = [nz(f.expr(v)) for v in i.args]
                if xs and xs[0] == X and len(xs) == 2 and cont(xs[1]):
                    ok = True
        pops = [i for i in f.calls if last_name(i.callee) in ('pop_front', 'pop_back') and nz(f.expr(i.args[0])) == X]
        if ok and every_iteration(f, lp, pops) is None:
            return X
    return None


def releases(f, paths, cont, fn, g):
    """the element loop that calls fn once per element of `cont`, or a complaint"""
    why = 'no loop over every element'
    for lp in f.loops:
        X = None
        if walks(f, lp, cont):
            el = lambda a: mentions(a, lambda y: y[0] == 'phi')
        else:
            X = drains(f, lp, cont)
            if X is None:
                continue
            el = lambda a: mentions(a, lambda y: y[0] == 'call' and last_name(y[1]) in ('front', 'back') and nz(y[2]) == X)
        its = [p for p in paths if p.end[0] == 'iter' and p.end[1] == lp[0]]
        if not its:
            continue
        why = None
        for p in its:
            c = [e for e in p.events if e[0] == 'call' and (e[2] or '').split('::')[-1] == fn and e[3] and el(nz(e[3][0]))]
            if len(c) != 1:
                why = 'an element is passed to %s %d times' % (fn, len(c))
                continue
            if g is None:
                continue
            t = None
            for n, e in enumerate(p.events):
                m = mapcall(p, e, 'erase')
                if m and m[0] == g and t is None:
                    t = n
                if e[0] == 'call' and t is not None and any(cont(nz(a)) for a in e[3]):
                    why = 'the record is erased before its elements were visited'
            if t is not None and X is None:
                why = 'the record is erased before its elements were visited'
        if why is None:
            return lp, None
    return None, why


def run(P, R):
    R.rule('retain', 'every memory object or kernel handed to an enqueue function is entered in the books of the enqueued command', 14)
    R.rule('delegate', 'an enqueue function built on another one hands on its queue, objects and events', 8)
    R.rule('type', 'the event of a command carries the type of the function that was called', 20)
    R.rule('record', 'entering an object takes a reference and records it under the command', 3)
    R.rule('wait', 'every event of the wait list is retained, recorded under the command and waited for', 3)
    R.rule('event', 'the event of a command is recorded under it, describes its queue and context and is handed out with its own reference', 7)
    R.rule('release', 'releasing a command drops every recorded reference exactly once and deletes each record', 8)
    R.rule('once', 'a command is released exactly once, after its execution, with the commands executed on its behalf', 5)
    need(enum_val(P, 'oclgrind::Command::CommandType', 'KERNEL') == KERNEL, 'Command::KERNEL')
    books = record(P, R)
    wait(P, R, books)
    release(P, R, books)
    enqueue(P, R)
    once(P, R)
    # what a kernel command retains are the recorded objects of its arguments
    import c27
    from c36 import Only
    c27.run(build.program(c27.TUS, c27.OPTS), Only(R, 'object'))


def enqueue(P, R):
    for f in rt.entry_points(P):
        if not f.qual.startswith('clEnqueue'):
            continue
        objs = [(n, t) for i, n, t in rt.handles(f) if t in ('cl_mem', 'cl_kernel')]
        lists = [n for i, n, t in rt.handle_lists(f) if t == 'cl_mem']
        bad = typ = dele = None
        direct = delegated = 0
        want = TYPES.get(f.qual, 0)
        for p in rt.flow(f):
            for e in p.events:
                if e[0] != 'call' or last_name(e[2]) != 'asyncEnqueue':
                    continue
                direct += 1
                q, ty, cmd, n, lst, ev = [strip(nz(x)) for x in e[3]]
                args = {x['dn'] for x in f.params}
                for x in ('num_events_in_wait_list', 'num_events'):
                    if x in args and n != ('arg', x):
                        dele = 'passes %s events on' % S(n)
                for x in ('event_wait_list', 'event_list'):
                    if x in args and lst != ('arg', x):
                        dele = 'passes the event list %s on' % S(lst)
                if 'event' in args and ev != ('arg', 'event'):
                    dele = 'does not hand the event out'
                if q != ('arg', 'command_queue'):
                    dele = 'uses the queue %s' % S(q)
                if want is not None and ty != C(want):
                    typ = 'reports the type %s (line %s)' % (hex(ty[1]) if ty[0] == 'c' else S(ty), e[1].line)
                if p.end[0] != 'ret':
                    continue
                upto = p.events
                for k, x in enumerate(p.events):
                    if x[0] == 'call' and re.match(r'cl(Finish|Wait\w*|Flush)$', x[2] or ''):
                        upto = p.events[:k]
                        break
                kept = [strip(nz(x[3][1])) for x in upto if x[0] == 'call' and last_name(x[2]) == 'asyncQueueRetain' and strip(nz(x[3][0])) == cmd]
                for o, t in objs:
                    if ('arg', o) not in kept:
                        bad = 'enqueues a command that uses %s without having retained it (line %s)' % (o, e[1].line)
            for e in p.events:
                if e[0] == 'call' and re.match('clEnqueue', e[2] or ''):
                    delegated += 1
                    xs = [strip(nz(a)) for a in e[3]]
                    for n in [o for o, t in objs] + ['command_queue'] + [x for x in ('num_events_in_wait_list', 'event_wait_list', 'event') if x in {y['dn'] for y in f.params}]:
                        if ('arg', n) not in xs:
                            dele = 'does not pass %s on to %s' % (n, e[2])
                    if p.end[0] != 'ret':
                        continue
                    r = ('call', e[2]) + tuple(e[3])
                    if strip(nz(p.ret)) != strip(nz(r)) and p.ret != C(0):
                        dele = 'returns %s instead of the result of %s' % (S(p.ret), e[2])
                    if want is not None and want != TYPES.get(e[2]):
                        v = [x[3] for x in p.stores() if x[2] == ('fld', ('load', ('arg', 'event')), 'type')]
                        ok = any(a[0] == 'eq' and pol and a[2] == C(0) and nz(a[1]) == nz(r) for a, pol in p.lits)
                        out = not any(a[0] == 'eq' and pol and a[1] == ('arg', 'event') for a, pol in p.lits)
                        no = any(a[0] == 'eq' and not pol and a[2] == C(0) and nz(a[1]) == nz(r) for a, pol in p.lits)
                        if out and not no and (not v or v[-1] != C(want)):
                            typ = 'leaves the type %s in the event' % (hex(v[-1][1]) if v else hex(TYPES.get(e[2]) or 0))
                        if v and not ok:
                            typ = 'writes the event although nothing was enqueued'
        if lists and direct and f.qual != 'clEnqueueMigrateMemObjects':
            bad = bad or listed(f, lists[0])
        if direct and objs + lists:
            R.check(bad is None, 'retain', f.qual, floc(f), '%s %s' % (f.qual, bad), fn=f)
        if direct or delegated:
            R.check(dele is None, 'delegate', f.qual, floc(f), '%s %s' % (f.qual, dele), fn=f)
            if want is not None:
                R.check(typ is None and want, 'type', f.qual, floc(f), '%s %s' % (f.qual, typ or 'has no known command type'), fn=f)


def over(f, paths, count, test):
    """test(event, index) holds for an event of every iteration of a loop from 0 to count that every successful path enters"""
    for lp in f.loops:
        for me, st, fs in counted(f, lp):
            if st != C(0) or not any(a[0] == 'lt' and pol and strip(nz(a[1])) == me and strip(nz(a[2])) == count for a, pol in fs):
                continue
            its = [p for p in paths if p.end[0] == 'iter' and p.end[1] == lp[0]]
            if its and all(any(test(p, e, me) for e in p.events) for p in its) and \
                    all(lp[0] in p.blocks for p in paths if p.end[0] == 'ret' and (p.ret is None or p.ret == C(0))):
                return True
    return False


def at(x, lst, me):
    """x is lst[me]"""
    x = strip(nz(x))
    return x[0] == 'load' and x[1][0] in ('ptr', 'idx') and strip(x[1][1]) == lst and strip(x[1][2]) == me


def listed(f, name):
    lst = ('arg', name)
    paths = rt.flow(f)
    cmds = {strip(nz(e[3][2])) for p in paths for e in p.events if e[0] == 'call' and last_name(e[2]) == 'asyncEnqueue'}

    def t(p, e, me):
        return e[0] == 'call' and last_name(e[2]) == 'asyncQueueRetain' and strip(nz(e[3][0])) in cmds and at(e[3][1], lst, me)
    if not over(f, paths, ('arg', 'num_mem_objects'), t):
        return 'does not retain every element of ' + name
    return None


def record(P, R):
    """the maps: {'mem': g, 'kernel': g}"""
    books = {}
    fs = {f.d['sig'][2]: f for f in P.get('asyncQueueRetain')}
    need(set(fs) == {'cl_mem', 'cl_kernel'}, 'asyncQueueRetain')
    for t, f in fs.items():
        obj, cmd = ('arg', f.params[1]['dn']), ('arg', f.params[0]['dn'])
        rf = {'cl_mem': 'clRetainMemObject', 'cl_kernel': 'clRetainKernel'}[t]
        paths = rt.flow(f)
        bad = None
        for p in paths:
            if p.end[0] != 'ret':
                continue
            n = sum(1 for e in p.events if e[0] == 'call' and e[2] == rf and strip(nz(e[3][0])) == obj)
            at_ = []
            for e in p.events:
                if e[0] == 'call' and last_name(e[2]) in ('push_back', 'push_front', 'emplace_back') and entry(nz(e[3][0])) and \
                        strip(nz(p.at(e, e[3][1], 8) if e[3][1][0] == 'alloca' else e[3][1])) == obj:
                    at_.append((entry(nz(e[3][0])), keyed(p, e, nz(e[3][0]))))
                if e[0] == 'store' and entry(e[2]) and strip(nz(e[3])) == obj:
                    at_.append((entry(e[2]), keyed(p, e, e[2])))
            if n != 1 or len(at_) != 1:
                bad = 'takes %d references and records %d' % (n, len(at_))
            elif at_[0][1] != cmd:
                bad = 'records the object under %s' % S(at_[0][1] or C(0))
            else:
                books[{'cl_mem': 'mem', 'cl_kernel': 'kernel'}[t]] = at_[0][0]
        R.check(bad is None, 'record', t, floc(f), 'asyncQueueRetain(%s) %s' % (t, bad), fn=f)
    f = fs['cl_kernel']
    k = ('arg', f.params[1]['dn'])
    good = None
    for lp in loops_walking(f, lambda x: x == ('fld', k, 'memArgs')):
        its = [p for p in rt.flow(f) if p.end[0] == 'iter' and p.end[1] == lp[0]]
        if its and all(any(e[0] == 'call' and last_name(e[2]) == 'asyncQueueRetain' and strip(nz(e[3][0])) == ('arg', f.params[0]['dn']) and
                           mentions(e[3][1], lambda y: y[0] == 'phi') for e in p.events) for p in its):
            good = lp
    R.check(good is not None and all(good[0] in p.blocks for p in rt.flow(f) if p.end[0] == 'ret'), 'record', 'memory arguments', floc(f),
            'the memory objects that are arguments of the kernel are not all retained', fn=f)
    return books


def wait(P, R, books):
    f = P.get('asyncEnqueue')
    need(len(f) == 1, 'asyncEnqueue')
    f = f[0]
    queue, typ, cmd, num, lst, out = [('arg', q['dn']) for q in f.params]
    paths = rt.flow(f)

    def arg(p, e, n):
        a = e[3][n]
        return strip(nz(p.at(e, a, 8) if a[0] == 'alloca' else ('load', a)))

    def waits(p, e, me):
        if e[0] != 'call' or last_name(e[2]) != 'push_back' or nz(e[3][0]) != ('fld', cmd, 'waitList'):
            return False
        v = arg(p, e, 1)
        return v[0] == 'load' and v[1][0] == 'fld' and v[1][2] == 'event' and at(v[1][1], lst, me)

    def keeps(p, e, me):
        return e[0] == 'call' and e[2] == 'clRetainEvent' and at(e[3][0], lst, me)

    def books_(p, e, me):
        if e[0] == 'call' and last_name(e[2]) == 'push_back' and entry(nz(e[3][0])) and at(arg(p, e, 1), lst, me) and keyed(p, e, nz(e[3][0])) == cmd:
            books['wait'] = entry(nz(e[3][0]))
            return True
        return False
    for n, t, w in (('waits', waits, 'is not made to wait for'), ('retains', keeps, 'does not retain'), ('records', books_, 'does not record')):
        R.check(over(f, paths, num, t), 'wait', n, floc(f), 'the command %s every event of the list' % w, fn=f)
    bad = {}
    for p in paths:
        if p.end[0] != 'ret':
            continue
        enq = [e for e in p.events if e[0] == 'call' and (e[2] or '').endswith('Queue::enqueue')]
        new = [e for e in p.events if e[0] == 'call' and last_name(e[2]) == '_cl_event']
        if len(enq) != 1 or strip(nz(enq[0][3][0])) != ('load', ('fld', queue, 'queue')) or strip(nz(enq[0][3][1])) != cmd:
            bad['queue'] = 'the command is not put into its queue exactly once'
            continue
        obj = nz(new[0][3][0]) if len(new) == 1 else None
        if obj is None:
            bad['object'] = '%d event objects are made' % len(new)
            continue
        want = {'context': ('load', ('fld', queue, 'context')), 'queue': queue, 'type': typ, 'event': ('call', enq[0][2]) + tuple(enq[0][3])}
        got = {e[2][2]: strip(nz(e[3])) for e in p.stores() if e[2][0] == 'fld' and nz(e[2][1]) == obj}
        for k, v in want.items():
            if got.get(k) != strip(nz(v)):
                bad[k] = 'the %s of the event is %s' % (k, S(got[k]) if k in got else 'not set')
        recs = [(entry(e[2]), keyed(p, e, e[2])) for e in p.stores() if entry(e[2]) and nz(e[3]) == obj]
        if len(recs) != 1 or recs[0][1] != cmd:
            bad['record'] = 'the event is not recorded under the command'
        else:
            books['event'] = recs[0][0]
        given = [e for e in p.stores() if e[2] == out]
        n = sum(1 for e in p.events if e[0] == 'call' and e[2] == 'clRetainEvent' and nz(e[3][0]) == obj)
        isout = not any(a[0] == 'eq' and pol and a[1] == out for a, pol in p.lits)
        cnt = got.get('refCount')
        have = n + (cnt[1] if cnt and cnt[0] == 'c' else -9)
        if isout != bool(given) or given and nz(given[-1][3]) != obj:
            bad['out'] = 'the event is %s' % ('handed out unasked' if given and not isout else 'not handed out')
        if have != 1 + isout:
            bad['count'] = 'the event has %d references where %d exist' % (have, 1 + isout)
    for k in ('queue', 'object', 'context', 'type', 'event', 'record', 'out', 'count'):
        R.check(k not in bad, 'event', k, floc(f), bad.get(k, ''), fn=f)


def release(P, R, books):
    f = P.get('asyncQueueRelease')
    need(len(f) == 1, 'asyncQueueRelease')
    f = f[0]
    if set(books) != {'mem', 'kernel', 'wait', 'event'}:
        R.bad('release', 'books', floc(f), 'not every kind of object is recorded: %s' % sorted(books), f)
        return
    cmd = ('arg', f.params[0]['dn'])
    paths = rt.flow(f)
    for kind, fn in (('mem', 'clReleaseMemObject'), ('wait', 'clReleaseEvent')):
        g = books[kind]
        lp, why = releases(f, paths, rec(g), fn, g)
        R.check(lp is not None, 'release', kind + ' elements', floc(f), '%s records: %s' % (kind, why), fn=f)
        bad = None
        for p in paths:
            if p.end[0] != 'ret':
                continue
            none = absent(p, g)
            er = [mapcall(p, e, 'erase')[1] for e in p.events if (mapcall(p, e, 'erase') or (None,))[0] == g]
            if not none and lp is not None and lp[0] not in p.blocks:
                bad = 'a path passes the records by'
            if not none and er != [cmd] or none and er not in ([], [cmd]):
                bad = 'the record is deleted %d times' % len(er)
        R.check(bad is None, 'release', kind + ' record', floc(f), '%s records: %s' % (kind, bad), fn=f)
    bad = kept = None
    ev = None
    cb = None
    seen = 0
    for p in paths:
        if p.end[0] != 'ret':
            continue
        g = books['kernel']
        is_k = [pol for a, pol in p.lits if a[0] == 'eq' and nz(a[2]) == C(KERNEL) and nz(a[1]) == ('load', ('fld', cmd, 'type'))]
        has = is_k[0] if is_k else not absent(p, g)
        rel = [n for n, e in enumerate(p.events) if e[0] == 'call' and e[2] == 'clReleaseKernel' and
               mentions(nz(e[3][0]), rec(g))]
        er = [n for n, e in enumerate(p.events) if (mapcall(p, e, 'erase') or (None,))[0] == g]
        look = [n for n, e in enumerate(p.events) if (mapcall(p, e, 'operator[]', 'at', 'find') or (None,))[0] == g]
        keys = {mapcall(p, e, 'erase', 'operator[]', 'at', 'find')[1] for e in p.events if (mapcall(p, e, 'erase', 'operator[]', 'at', 'find') or (None,))[0] == g}
        own = ('load', ('fld', cmd, 'kernel'))
        fr = [n for n, e in enumerate(p.events) if e[0] == 'call' and (e[2] or '').endswith('Kernel::~Kernel') and nz(e[3][0]) == own]
        null = any(a[0] == 'eq' and pol and nz(a[1]) == own and a[2] == C(0) for a, pol in p.lits)
        seen += has
        if has and (len(rel) != 1 or len(er) != 1):
            bad = 'the kernel is released %d times and its record deleted %d times' % (len(rel), len(er))
        elif has and (keys != {cmd} or not look or look[-1] > er[0]):
            bad = 'the kernel looked up is not the recorded one'
        elif not has and (rel or er):
            bad = 'a kernel is released for a command without one'
        if has and not null and len(fr) != 1 or not has and fr:
            kept = 'the copy of the kernel is deleted %d times' % len(fr)
        g = books['event']
        er = [n for n, e in enumerate(p.events) if (mapcall(p, e, 'erase') or (None,))[0] == g]
        look = [n for n, e in enumerate(p.events) if (mapcall(p, e, 'operator[]', 'at', 'find') or (None,))[0] == g]
        keys = {mapcall(p, e, 'erase', 'operator[]', 'at', 'find')[1] for e in p.events if (mapcall(p, e, 'erase', 'operator[]', 'at', 'find') or (None,))[0] == g}
        rel = [n for n, e in enumerate(p.events) if e[0] == 'call' and e[2] == 'clReleaseEvent' and mentions(nz(e[3][0]), rec(g))]
        if len(rel) != 1 or len(er) != 1 or keys != {cmd} or not look or look[-1] > er[0]:
            ev = 'the event is released %d times and its record deleted %d times' % (len(rel), len(er))
    R.check(bad is None and seen, 'release', 'kernel', floc(f), bad or 'no path releases the kernel', fn=f)
    R.check(kept is None, 'release', 'kernel copy', floc(f), kept, fn=f)
    R.check(ev is None, 'release', 'event', floc(f), ev, fn=f)
    # the callbacks run before the event they are given is released
    g = books['event']
    why = 'the callbacks of the event are not all called'
    for lp in loops_walking(f, lambda x: x[0] == 'fld' and x[2] == 'callbacks' and mentions(x[1], rec(g))):
        its = [p for p in paths if p.end[0] == 'iter' and p.end[1] == lp[0]]
        why = None if its else why
        for p in its:
            c = [n for n, e in enumerate(p.events) if e[0] == 'call' and e[2] is None and mentions(nz(e[3][0]), rec(g))]
            rel = [n for n, e in enumerate(p.events) if e[0] == 'call' and e[2] == 'clReleaseEvent' and mentions(nz(e[3][0]), rec(g))]
            if len(c) != 1 or rel and rel[0] < c[0]:
                why = 'a callback is called %d times or with a released event' % len(c)
        if any(lp[0] not in p.blocks for p in paths if p.end[0] == 'ret'):
            why = 'a path skips the callbacks'
    R.check(why is None, 'release', 'callbacks', floc(f), why, fn=f)


def absent(p, g):
    """the path found no record in g"""
    for a, pol in p.lits:
        if a[0] == 'eq' and pol and any(mentions(nz(x), lambda y: y[0] == 'call' and last_name(y[1]) == 'end' and g in y) for x in a[1:3]) and \
                any(mentions(nz(x), lambda y: y[0] == 'call' and last_name(y[1]) == 'find' and g in y) for x in a[1:3]):
            return True
        if a[0] in ('eq', 'true') and mentions(nz(a[1]), lambda y: y[0] == 'call' and last_name(y[1]) == 'count' and g in y):
            if pol == (a[0] == 'eq'):
                return True
    return False


def once(P, R):
    rel = [f for f in rt.functions(P) if last_name(f.qual) != 'asyncQueueRelease' and any(last_name(i.callee) == 'asyncQueueRelease' for i in f.calls)]
    R.check(len(rel) == 1, 'once', 'callers', floc(rel[0]) if rel else '', 'asyncQueueRelease is called by %s' % [f.qual for f in rel])
    if len(rel) != 1:
        return
    f = rel[0]
    cmd = ('arg', f.params[0]['dn'])
    name = f.qual
    paths = rt.flow(f)
    why = None
    for p in paths:
        if p.end[0] != 'ret':
            continue
        null = any(a[0] == 'eq' and pol and strip(nz(a[1])) == cmd for a, pol in p.lits)
        ev = [('release' if last_name(e[2]) == 'asyncQueueRelease' else 'delete') for e in p.events
              if e[0] == 'call' and e[3] and strip(nz(e[3][0])) == cmd and (last_name(e[2]) == 'asyncQueueRelease' or '~' in (e[2] or ''))]
        if ev != ([] if null else ['release', 'delete']):
            why = 'a command goes through %s' % (ev or 'no release')
    R.check(why is None, 'once', 'release and delete', floc(f), why, fn=f)
    lp, w = releases(f, paths, lambda x: x == ('fld', cmd, 'execBefore'), last_name(name), None)
    ok = lp is not None and all(lp[0] in p.blocks for p in paths if p.end[0] == 'ret' and any('~' in (e[2] or '') for e in p.events if e[0] == 'call'))
    R.check(ok, 'once', 'dependent commands', floc(f), 'commands executed before this one: %s' % (w or 'not released on every path'), fn=f)
    n = 0
    for g in rt.functions(P):
        if g is f or not any((i.callee or '').endswith(('Queue::execute', 'Queue::finish')) or i.callee == name for i in g.calls):
            continue
        n += 1
        bad = None
        for p in rt.flow(g):
            due = []
            for e in p.events:
                if e[0] != 'call':
                    continue
                if (e[2] or '').endswith('Queue::execute'):
                    due.append(strip(nz(e[3][1])))
                elif (e[2] or '').endswith('Queue::finish'):
                    due.append(strip(nz(('call', e[2]) + tuple(e[3]))))
                elif e[2] == name:
                    x = strip(nz(e[3][0]))
                    if x not in due:
                        bad = 'releases a command it has not executed (line %s)' % e[1].line
                    else:
                        due.remove(x)
            due = [x for x in due if not any(a[0] == 'eq' and pol and a[2] == C(0) and strip(nz(a[1])) == x for a, pol in p.lits)]
            if due and p.end[0] in ('ret', 'iter'):
                bad = bad or 'executes a command without releasing it'
        R.check(bad is None, 'once', g.qual, floc(g), '%s %s' % (g.qual, bad), fn=g)
    need(n >= 2, 'functions that execute commands')
