"""C24: on every successful path of a function with a blocking flag that enqueues a command, either the flag is known to be
clear or the queue is finished after the command was enqueued; functions that forward to such a function hand the flag on.
clFinish can report success only when the queue has nothing left; clWaitForEvents only past a pass over the whole list in
which every event was found final, after executing the pending ones on their own queues."""
from common import *
from flow import Flow
import rt
import c20
import c22
from c21 import A

TECHNIQUE = 'path analysis of blocking functions; must-pass analysis of the waiting loops'
TUS = rt.TUS
NOTE = 'What executing a command or finishing a queue does is C22/C23.'
ASSUMPTIONS = []
FLAGS = {'blocking_read', 'blocking_write', 'blocking_map'}


def last(c):
    return c20.last_name(c) if c else ''


def run(P, R):
    R.rule('flag', 'a call whose blocking flag is set finishes its queue after enqueueing and reports the outcome', 8)
    R.rule('finish', 'clFinish returns success only when its queue is empty', 1)
    R.rule('delete', 'a queue is finished before it is destroyed', 1)
    R.rule('waited', 'clWaitForEvents returns success only after every event of the list was found final', 1)
    R.rule('driven', 'a pending event of the list has its command executed on its queue and released', 1)
    R.rule('failed', 'clWaitForEvents reports a failed event', 1)
    R.rule('final', 'an event is final when it is complete or failed', 1)
    eps = {f.qual: f for f in rt.entry_points(P)}
    for n, f in sorted(eps.items()):
        fl = [x for x in pnames(f) if x in FLAGS]
        if fl:
            blocking(R, eps, f, fl[0])
    finish(R, eps['clFinish'])
    delete(R, eps['clReleaseCommandQueue'])
    wait(P, R, eps['clWaitForEvents'])


def isfinish(e, q):
    return e[0] == 'call' and last(e[2]) == 'clFinish' and nz(e[3][0]) == q


def blocking(R, eps, f, flag):
    q = A('command_queue')
    why, n = None, 0
    for p in rt.flow(f):
        if p.end[0] != 'ret':
            continue
        enq = [k for k, e in enumerate(p.events) if e[0] == 'call' and last(e[2]) == 'asyncEnqueue']
        fwd = [e for e in p.events if e[0] == 'call' and e[2] in eps and e[2].startswith('clEnqueue')]
        r = nz(p.ret) if p.ret is not None else C(0)
        if fwd:
            n += 1
            g = eps[fwd[0][2]]
            gf = [x for x in pnames(g) if x in FLAGS]
            if not gf or strip(nz(fwd[0][3][pnames(g).index(gf[0])])) != A(flag):
                why = why or 'the flag is not handed on'
            if not (r == nz(('call', fwd[0][2]) + fwd[0][3]) or is_call(r, fwd[0][2])):
                why = why or 'the outcome is not that of %s' % fwd[0][2]
            continue
        if not enq:
            if not f.d['sig'][0].endswith('*') and r == C(0):
                why = why or 'success is reported although nothing was enqueued'
            continue
        n += 1
        z = c22.known(p.lits, A(flag), 0)
        fin = [k for k, e in enumerate(p.events) if isfinish(e, q)]
        if z is True:
            continue
        if not fin or fin[-1] < enq[-1]:
            why = why or ('the queue is not finished although the flag %s' % ('is set' if z is False else 'may be set'))
        elif f.d['sig'][0].endswith('*'):
            pass        # the outcome of a map is its pointer
        elif not is_call(r, 'clFinish'):
            why = why or 'the outcome is %s' % S(r)
    R.check(not why, 'flag', f.qual, floc(f), why, fn=f)


def finish(R, f):
    q = A('command_queue')
    why, n = None, 0
    for p in rt.flow(f, fresh=re.compile(r'Queue::finish$')):
        if p.end[0] != 'ret' or nz(p.ret) != C(0):
            continue
        n += 1
        es = [e for e in p.events if e[0] == 'call' and last(e[2]) == 'finish']
        if not es or nz(es[-1][3][0]) != ('load', ('fld', q, 'queue')):
            # another way: empty test of the queue
            if any(a[0] == 'true' and pol and is_call(nz(a[1]), 'isEmpty') and nz(nz(a[1])[2]) == ('load', ('fld', q, 'queue')) for a, pol in p.lits):
                continue
            why = why or 'success is reported without finishing the queue'
            continue
        k = len(es) - 1
        none = any(a[0] == 'eq' and pol and a[2] == C(0) and is_call(nz(a[1]), 'oclgrind::Queue::finish') and
                   (nz(a[1])[-1] == ('#', k) or nz(a[1])[-1] == ('#', ('c', k)) or len(es) == 1) for a, pol in p.lits)
        emptied = any(a[0] == 'true' and pol and is_call(nz(a[1]), 'isEmpty') for a, pol in p.lits)
        if not none and not emptied:
            why = why or 'success is reported although commands may be left'
    R.check(n and not why, 'finish', 'clFinish', floc(f), why or 'success is never reported', fn=f)


def delete(R, f):
    q = A('command_queue')
    why, n = None, 0
    for p in rt.flow(f):
        d = [k for k, e in enumerate(p.events) if e[0] == 'call' and re.search(r'Queue::~Queue|operator delete', e[2] or '') and
             (nz(e[3][0]) == q or nz(e[3][0]) == ('load', ('fld', q, 'queue')))]
        if not d:
            continue
        n += 1
        fin = [k for k, e in enumerate(p.events) if isfinish(e, q)]
        if not fin or fin[0] > d[0]:
            why = why or 'the queue is destroyed without having been finished'
    R.check(n and not why, 'delete', 'clReleaseCommandQueue', floc(f), why or 'the queue is never destroyed', fn=f)


def statelit(a, E):
    """a is about event E's state: 'done' (complete), 'failed', or None"""
    s = ('load', ('load', ('fld', E, 'event')))
    if a[0] == 'eq' and nz(a[1]) == s and a[2] == C(0):
        return 'done'
    if a[0] == 'slt' and nz(a[1]) == s and a[2] == C(0):
        return 'failed'
    if a[0] == 'slt' and nz(a[2]) == s and a[1] == C(0):
        return 'pending'
    return None


def wait(P, R, f):
    prm = pnames(f)
    num, lst = ('arg', prm[0]), ('arg', prm[1])
    paths = rt.flow(f, fresh=re.compile('isComplete$'))
    fin = P.get('isComplete') or [x for x in P.fns.values() if (x.qual or '').endswith('isComplete')]
    # the predicate
    why = None
    for g in fin:
        ev = ('arg', pnames(g)[0])
        s = ('load', ('load', ('fld', ev, 'event')))
        got = {}
        for p in Flow(g).paths():
            r = nz(p.ret)
            ls = {(statelit(a, ev), pol) for a, pol in p.lits}
            for v in (-5, 0, 1):
                ok = all({'done': v == 0, 'failed': v < 0, 'pending': v > 0}.get(k) == pol for k, pol in ls if k)
                if ok:
                    if r[0] == 'c':
                        got.setdefault(v, set()).add(bool(r[1]))
                    else:
                        got.setdefault(v, set()).add(fold(r, s, v))
        if got != {-5: {True}, 0: {True}, 1: {False}}:
            why = 'the test gives %s' % ', '.join('%s for %d' % (sorted(map(str, y)), x) for x, y in sorted(got.items()))
    if fin:
        R.check(not why, 'final', 'isComplete', floc(fin[0]), why, fn=fin[0])
    else:
        R.check(True, 'final', 'isComplete', floc(f), '', fn=f)

    def elem(x, me):
        return c20.at(x, lst, me)

    def final(p, me):
        """the last thing the path learned about element me: True final, False pending, None"""
        r = None
        for a, pol in p.lits:
            if a[0] == 'true' and is_call(nz(a[1]), 'isComplete') and elem(nz(a[1])[2], me):
                r = pol
            E = None
            for x in c22.walk(nz(a[1]) if isinstance(a[1], tuple) else ()):
                if x[0] == 'fld' and x[2] == 'event' and elem(x[1], me):
                    E = x[1]
            if E is not None:
                k = statelit(a, E)
                if k in ('done', 'failed') and pol or k == 'pending' and not pol:
                    r = True
                elif k == 'pending':
                    r = False
        return r
    succ = {p.end[1] for p in paths if p.end[0] == 'ret' and nz(p.ret) == C(0)}
    good = False
    why = 'no pass over the list finds every event final'
    cands = []
    for lp in f.loops:
        for me, st, fs in counted(f, lp):
            if st == C(0) and any(a[0] == 'lt' and pol and strip(nz(a[1])) == me and strip(nz(a[2])) == num for a, pol in fs):
                cands.append((lp, me))
    driven = None
    nd = 0
    for lp, me in cands:
        its = [p for p in paths if p.end[0] == 'iter' and p.end[1] == lp[0]]
        flags = []
        for i in f.blocks[lp[0]].insts:
            if i.op == 'phi' and re.fullmatch(r'i\d+', i.d.get('t') or ''):
                flags.append(i)
        ok_plain = its and all(final(p, me) is True for p in its)
        if ok_plain and not reach_success(f, paths, lp[0], succ):
            good = True
        for phi in flags:
            # the value the phi starts with means that every event met so far was final
            out = {strip(nz(f.expr(v))) for v, b in phi.args if b not in lp[1]}
            if len(out) != 1 or not isk(next(iter(out))) or ('phi', phi.id) == me:
                continue
            clean = next(iter(out))[1]
            ok = bool(its)
            for p in its:
                v = [p.flow.val(p.st, v) for v, b in phi.args if b == p.end[2]]
                v = strip(nz(v[0])) if v else None
                if v is not None and (v[0] == 'c' and bool(v[1]) != bool(clean) or clean == 0 and grows(v, phi.id)):
                    continue
                if final(p, me) is not True or v not in (('phi', phi.id), C(clean)) or \
                        v == C(clean) and v != ('phi', phi.id) and not any(kept(a, pol, phi.id, clean) for a, pol in p.lits):
                    ok = False
                    why = 'an event may be pending while the pass counts as complete'
            if ok and gated(f, phi, lp, clean):
                good = True
        for p in its:
            if any(e[0] == 'call' and last(e[2]) in ('execute', 'releaseCommand', 'finish') for e in p.events) or final(p, me) is not None:
                pend = [a for a, pol in p.lits if not pol and a[0] == 'true' and is_call(nz(a[1]), 'isComplete')] or \
                    any(statelit(a, E) for a, pol in p.lits for E in [x[1] for x in c22.walk(nz(a[1]) if isinstance(a[1], tuple) else ()) if x[0] == 'fld' and x[2] == 'event'])
                hasq = None
                for a, pol in p.lits:
                    x = nz(a[1]) if isinstance(a[1], tuple) else None
                    if a[0] == 'eq' and a[2] == C(0) and x and x[0] == 'load' and x[1][0] == 'fld' and x[1][2] in ('queue', 'command') and \
                            mentions(x, lambda y: elem(y, me)):
                        hasq = not pol
                ex = [e for e in p.events if e[0] == 'call' and e[2] == 'oclgrind::Queue::execute']
                rel = [e for e in p.events if e[0] == 'call' and last(e[2]) == 'releaseCommand']
                if hasq is None:
                    if ex:
                        driven = driven or 'a command is executed without knowing that the event has one'
                    continue
                if not hasq:
                    if ex:
                        driven = driven or 'a user event is executed'
                    continue
                nd += 1
                ev = lambda x: x[0] == 'load' and x[1][0] == 'fld' and x[1][2] == 'event' and elem(x[1][1], me)
                of = lambda x, n: x[0] == 'load' and x[1][0] == 'fld' and x[1][2] == n and ev(x[1][1])
                if len(ex) != 1 or not of(nz(ex[0][3][0]), 'queue') and not (nz(ex[0][3][0])[0] == 'load' and mentions(ex[0][3][0], lambda y: elem(y, me))) or \
                        not of(nz(ex[0][3][1]), 'command'):
                    driven = driven or 'the command of a pending event is executed %d times on its queue' % len(ex)
                elif len(rel) != 1 or not of(nz(rel[0][3][0]), 'command'):
                    driven = driven or 'the executed command is not released once'
    R.check(good, 'waited', 'clWaitForEvents', floc(f), why, fn=f)
    R.check(nd and not driven, 'driven', 'clWaitForEvents', floc(f), driven or 'pending events are not executed', fn=f)
    # failed events
    ok = False
    for lp, me in cands:
        its = [p for p in paths if p.end[0] == 'iter' and p.end[1] == lp[0]]
        clean = lambda p: any(not pol and a[0] == 'slt' and a[2] == C(0) and statelit(a, nz(a[1])[1][1][1]) == 'failed' and elem(nz(a[1])[1][1][1], me)
                              for a, pol in p.lits if a[0] == 'slt' and shape(nz(a[1]))) or \
            any(pol and a[0] in ('eq', 'slt') and shape(nz(a[1])) and elem(nz(a[1])[1][1][1], me) and statelit(a, nz(a[1])[1][1][1]) == 'done' for a, pol in p.lits)
        if its and all(clean(p) for p in its) and not reach_success(f, paths, lp[0], succ):
            ok = True
    codes = {nz(p.ret) for p in paths if p.end[0] == 'ret' and any(pol and a[0] == 'slt' and shape(nz(a[1])) and a[2] == C(0) for a, pol in p.lits)
             and not any(a[0] == 'true' and is_call(nz(a[1]), 'isComplete') for a, pol in p.lits[-1:])}
    R.check(ok and codes <= {C(-14)}, 'failed', 'clWaitForEvents', floc(f),
            'success may be reported although an event failed' if not ok else 'a failed event is reported as %s' % ', '.join(map(S, codes)), fn=f)


def shape(x):
    """*(event->event)"""
    return x[0] == 'load' and x[1][0] == 'load' and x[1][1][0] == 'fld' and x[1][1][2] == 'event'


def isk(x):
    x = strip(nz(x))
    return x[0] == 'c'


def fold(r, s, v):
    if r == s:
        return bool(v)
    if r[0] in ('icmp',) and r[2] == s and r[3][0] == 'c':
        k = r[3][1]
        return {'eq': v == k, 'ne': v != k, 'slt': v < k, 'sgt': v > k, 'sle': v <= k, 'sge': v >= k}.get(r[1], '?')
    if r[0] == 'or':
        x, y = fold(r[1], s, v), fold(r[2], s, v)
        return True if True in (x, y) else False if (x, y) == (False, False) else '?'
    return show(r)


def reach_success(f, paths, header, succ):
    """a successful return can be reached without passing the loop header"""
    st, seen = [0], {0}
    while st:
        b = st.pop()
        if b == header:
            continue
        for s in f.blocks[b].succs:
            if s not in seen and s != header:
                seen.add(s)
                st.append(s)
    # the return block may be shared: look at the paths
    return any(p.end[0] == 'ret' and nz(p.ret) == C(0) and header not in p.blocks for p in paths)


def grows(v, k):
    """v is the counter k plus something positive"""
    return v[0] == 'add' and {x for x in v[1:] if x[0] == 'phi'} == {('phi', k)} and any(x[0] == 'c' and 0 < x[1] < 2 ** 16 for x in v[1:])


def kept(a, pol, k, clean):
    """the atom says that phi k has its clean value"""
    x = strip(nz(a[1])) if isinstance(a[1], tuple) else None
    if x != ('phi', k):
        return False
    if a[0] == 'true':
        return pol == bool(clean)
    return a[0] == 'eq' and a[2][0] == 'c' and (pol == (bool(a[2][1]) == bool(clean)) if clean else pol and a[2] == C(0))


def gated(f, phi, lp, clean):
    """successful paths leave only over an edge where the flag has its clean value after the loop"""
    ok = {('phi', phi.id)}
    for b in f.blocks:
        for i in (b.insts if not isinstance(b, int) else f.blocks[b].insts):
            if i.op == 'phi' and i.id != phi.id:
                vs = [strip(nz(f.expr(v))) for v, _ in i.args]
                if vs and ('phi', phi.id) in vs and all(v == ('phi', phi.id) or v[0] == 'c' and bool(v[1]) != bool(clean) for v in vs):
                    ok.add(('phi', i.id))
    st, seen = [lp[0]], set()
    # from the loop, without crossing an edge where the flag holds
    while st:
        b = st.pop()
        for s in f.blocks[b].succs:
            lits = edge_literals(f, b, s)
            if any(kept(a, pol, x[1], clean) for a, pol in lits for x in ok):
                continue
            if s not in seen:
                seen.add(s)
                st.append(s)
    outer = [l for l in f.loops if lp[1] < l[1]]
    inside = set().union(*[l[1] for l in outer]) if outer else lp[1]
    return all(s in inside or f.error_exit(s) for s in seen)
