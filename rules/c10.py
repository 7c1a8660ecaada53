"""C10: path-wise constant and copy propagation over the launch code.  The number of groups per dimension is evaluated for
the cases 'size divides' and 'size does not divide'; the loops that build the group list and the work-items are shown to be
counted loops over exactly the three extents with one element per iteration; the worker loop is shown to take each list
index once (atomic increment), to give the group the remainder size exactly when it would overrun the global size, and to
leave a group only when no work-item is runnable and no barrier is pending."""
from common import *
from flow import Flow
from c09 import quantity, qpoly, same_poly, qs, KI, WG, WI
import re

TECHNIQUE = 'path-wise constant/copy propagation of launch extents; counted-loop recognition; must-pass rules on the worker loop'
TUS = ['KernelInvocation', 'WorkGroup', 'common']
OPTS = ('--extra-inline', 'KernelInvocation::get(G|L|N|W)|WorkGroup::getGroup')
FRESH = re.compile(r'getNextWorkItem|getState|operator\+\+|fetch_add|hasBarrier')


def size3_at(p, a):
    """component values of the Size3 argument a"""
    a = strip(a)
    if a[0] == 'ptrto' and a[1][0] == 'new' and len(a[1]) == 5:
        return list(a[1][2:])
    return [p.load(p.flow.comp(a, c)) for c in range(3)]


def upto(f, e):
    """loop of a header phi counting from 0 by 1 that is left only at its header when it reaches its bound:
    (header, bound expression normalised) or None"""
    e = nz(e)
    if e[0] != 'phi':
        return None
    h = f.insts[e[1]].blk.id
    for lp in f.loops:
        if lp[0] != h or loop_exits(f, lp) != {h}:
            continue
        for me, st, fs in counted(f, lp):
            if me == e and st == C(0):
                for a, p in fs:
                    if a[0] == 'lt' and p and nz(a[1]) == me:
                        return lp, nz(a[2])
                    if a[0] == 'eq' and not p and me in (nz(a[1]), nz(a[2])):
                        return lp, nz(a[2]) if nz(a[1]) == me else nz(a[1])
    return None


def nest(f, es, bound):
    """the three index expressions are counted loops over components 0,1,2 of bound(expr)->component, properly nested;
    returns the innermost loop"""
    lps = []
    for c, e in enumerate(es):
        u = upto(f, e)
        if u is None:
            return None
        if bound(u[1]) != c:
            return None
        lps.append(u[0])
    s = sorted(lps, key=lambda l: len(l[1]))
    if len({l[0] for l in lps}) != 3 or not (s[0][1] < s[1][1] < s[2][1]):
        return None
    return s[0], [l[0] for l in sorted(lps, key=lambda l: -len(l[1]))], [l[0] for l in lps]


def enumerated(f, me):
    """the enumeration followed for the grids of a fixed set of sizes: every group id is listed once, on every path"""
    for grid_ in ((1, 1, 1), (2, 3, 4), (4, 1, 2), (1, 3, 1), (0, 2, 2), (2, 0, 3), (3, 2, 0)):
        def leaf(e):
            if is_call(e, 'Kernel::requiresUniformWorkGroups'):
                return 0
            if is_call(e, 'checkEnv'):
                return 0 if ('s', 'OCLGRIND_QUICK') in e else None
            if e[0] == 'load':
                r = quantity(e, me)
                if r and r[2] is not None and (r[0] == 'P' or r[0] == KI and r[1] in ('globalSize', 'localSize')):
                    return 1 if r[1][0] == 'l' else grid_[r[2]]
            return None
        n = 0
        for p in Flow(f, leaf, maxiter=400).paths():
            if p.end[0] != 'ret':
                if p.end[0] == 'iter' and any(pushed(e) for e in p.events):
                    return False
                continue
            n += 1
            got = []
            for e in p.events:
                if pushed(e):
                    x = strip(e[3][1])
                    v = list(x[1][2:]) if x[0] == 'ptrto' and x[1][0] == 'new' and len(x[1]) == 5 else \
                        [p.at(e, p.flow.comp(x, c), 8) for c in range(3)]
                    got.append(tuple(nz(y)[1] if y is not None and nz(y)[0] == 'c' else None for y in v))
            if sorted(map(repr, got)) != sorted(repr((x, y, z)) for x in range(grid_[0]) for y in range(grid_[1]) for z in range(grid_[2])):
                return False
        if not n:
            return False
    return True


def pushed(e):
    return e[0] == 'call' and (e[2] or '').startswith('std::vector<oclgrind::Size3') and \
        (e[2].endswith('::push_back') or 'emplace_back' in e[2]) and nz(e[3][0]) == ('fld', THIS, 'm_workGroups')


def run(P, R):
    grid(P, R)
    worker(P, R)
    group(P, R)
    switch(P, R)


def grid(P, R):
    f = P.one('oclgrind::KernelInvocation::KernelInvocation')
    prm = pnames(f)
    gs, ls = prm[5], prm[6]
    me = {('arg', gs): ('P', 'g'), ('arg', ls): ('P', 'l'), THIS: KI}
    R.rule('count', 'the number of groups in a dimension is the quotient, plus one when the division leaves a remainder and '
           'non-uniform groups are allowed', 12)

    def q3(e):
        r = quantity(e, me)
        if r and r[0] == KI and r[1] in ('globalSize', 'localSize'):
            r = ('P', r[1][0], r[2])
        return r
    for uni in (0, 1):
        for rem in (0, 1):
            def leaf(e):
                if is_call(e, 'Kernel::requiresUniformWorkGroups'):
                    return uni
                if e[0] in ('udiv', 'urem') and len(e) == 3:
                    l = q3(strip(e[2]))
                    if not l or l[:2] != ('P', 'l'):
                        return None
                    n = poly(e[1], lambda x: q3(x) or ('?', show(x)))
                    g = {(('P', 'g', l[2]),): 1}
                    up = padd(padd(g, {(l,): 1}), {(): -1})
                    if n == g:
                        return rem if e[0] == 'urem' else ('sym', l[2])
                    if n == up and e[0] == 'udiv':
                        return ('add', ('sym', l[2]), ('c', rem))
                return None
            fl = Flow(f, leaf)
            got = [set(), set(), set()]
            for p in fl.paths():
                if p.end[0] == 'ret':
                    for c in range(3):
                        v = p.load(fl.comp(('fld', THIS, 'm_numGroups'), c))
                        pv = poly(v)
                        got[c].add(frozenset(pv.items()))
            for c in range(3):
                want = frozenset(padd({(('sym', c),): 1}, {(): 1} if rem and not uni else {}).items())
                R.check(got[c] == {want}, 'count', '%s:%s:%s' % ('xyz'[c], 'uniform' if uni else 'nonuniform', 'remainder' if rem else 'exact'),
                        floc(f), 'm_numGroups.%s is %s' % ('xyz'[c], ', '.join(sorted(pshow(dict(g)) for g in got[c]))), fn=f)
    R.rule('list', 'the group list holds each group id of the grid once (first and last only in quick mode)', 3)

    def leaf(e):        # name the counts
        return None
    quick = full = 0
    fl = Flow(f, leaf)
    inner = None
    allp = list(fl.paths())
    numg = {}
    for p in allp:
        if p.end[0] == 'ret':
            for c in range(3):
                numg.setdefault(c, set()).add(repr(nz(p.load(fl.comp(('fld', THIS, 'm_numGroups'), c)))))

    def bound(e):
        r = quantity(e, me)
        if r and r[:2] == (KI, 'numGroups'):
            return r[2]
        for c in range(3):
            if repr(e) in numg[c]:
                return c
        return None
    okq, okf, why = True, True, ''
    for p in allp:
        pushes = [e for e in p.events if e[0] == 'call' and (e[2] or '').startswith('std::vector<oclgrind::Size3') and
                  (e[2].endswith('::push_back') or 'emplace_back' in e[2]) and nz(e[3][0]) == ('fld', THIS, 'm_workGroups')]
        isq = [l for l in p.lits if is_call(l[0][1], 'checkEnv') and ('s', 'OCLGRIND_QUICK') in l[0][1]]
        if isq and isq[0][1]:
            if p.end[0] != 'ret':
                okq, why = False, 'quick mode loops'
                continue
            quick += 1
            ids = [size3_at(p, e[3][1]) for e in pushes]
            last = [('sub', C(0), C(0))] * 3
            first = [C(0)] * 3
            def islast(v):
                return all(any(poly(nz(v[c])) == padd(poly(('load', ('x',))) and poly(x), {(): -1}) for x in ngs[c]) for c in range(3))
            ngs = [[nz(p.load(fl.comp(('fld', THIS, 'm_numGroups'), c)))] for c in range(3)]
            if not ids and any(iszero([l for l in p.lits], x[0]) for x in ngs):
                continue                # an empty grid has no first group
            if not ids or [nz(x) for x in ids[0]] != first:
                okq, why = False, 'quick mode does not start with the first group'
            elif len(ids) == 2 and not islast(ids[1]):
                okq, why = False, 'quick mode does not end with the last group'
            elif len(ids) > 2:
                okq, why = False, 'quick mode runs more groups'
            same3 = [l for l in p.lits if is_call(l[0][1], 'Size3::operator!=', 'Size3::operator==')]
            if same3:
                ne = same3[0][1] == same3[0][0][1][1].endswith('!=')
                if ne != (len(ids) == 2):
                    okq, why = False, 'quick mode drops or repeats the last group'
            elif len(ids) == 2:
                okq, why = False, 'quick mode may run a group twice'
            if ids and not all(nonzero(p.lits, x[0]) for x in ngs):
                okq, why = False, 'quick mode runs a group of an empty grid'
            continue
        if p.end[0] == 'iter':
            if not pushes:
                continue
            full += 1
            if len(pushes) != 1:
                okf, why = False, 'a group is listed more than once'
                continue
            v = size3_at(p, pushes[0][3][1])
            r = nest(f, v, bound)
            if r is None:
                okf, why = False, 'group ids are not enumerated by three counted loops over the number of groups: ' + ', '.join(show(x) for x in v)
                continue
            inner = r[0]
            if p.end[1] != inner[0]:
                okf, why = False, 'a group is added outside the innermost loop'
        elif pushes:
            okf, why = False, 'groups added outside of the enumeration'
    if inner is not None:
        for p in allp:
            if p.end[0] == 'iter' and p.end[1] == inner[0] and not any(
                    e[0] == 'call' and (e[2] or '').endswith('::push_back') for e in p.events):
                okf, why = False, 'an iteration adds no group'
    listed = okf and full > 0 and inner is not None or enumerated(f, me)
    R.check(okf and full > 0 or listed, 'list', 'grid', floc(f), why or 'no group enumeration found', fn=f)
    R.check(okq and quick > 0, 'list', 'quick', floc(f), why or 'no quick mode', fn=f)
    ok = inner is not None and all(any(e[0] == 'call' for e in p.events) for p in allp)
    # nothing guards the loop nest except quick mode
    if inner is not None:
        hdr = [l for l in f.loops if inner[1] <= l[1]]
        outer = max(hdr, key=lambda l: len(l[1]))
        c = [(('true', ('call', 'oclgrind::checkEnv', ('s', 'OCLGRIND_QUICK'))), False)]
        ok = path_avoiding(f, [f.blocks[outer[0]].insts[0]] if f.blocks[outer[0]].insts else [], c) is None
    R.check(ok or inner is None and listed, 'list', 'always', floc(f), 'the group list is not built on some path', fn=f)
    R.rule('workers', 'there is at least one worker, and exactly one when a plugin is not thread safe', 2)
    bad, n = set(), 0
    for p in allp:
        if p.end[0] != 'ret':
            continue
        n += 1
        v = nz(p.load(('fld', THIS, 'm_numWorkers'), 4))
        safe = [l[1] for l in p.lits if is_call(l[0][1], 'Context::isThreadSafe')]
        if v == C(1):
            continue
        if not safe or safe[0] is False:
            bad.add('several workers although a plugin may not be thread safe')
        if not (nonzero(p.facts(), v) or v[0] == 'c' and v[1] > 0 or is_call(v, 'max')):
            bad.add('the number of workers may be zero')
    for k in ('several workers although a plugin may not be thread safe', 'the number of workers may be zero'):
        R.check(n > 0 and k not in bad, 'workers', k.split()[0], floc(f), k, fn=f)


def worker(P, R):
    R.rule('threads', 'a launch resets the group counter, starts one worker per index 0..workers-1 and joins all of them', 4)
    f = [x for x in P.get('oclgrind::KernelInvocation::run') if len(x.params) == 1]
    need(len(f) == 1, 'KernelInvocation::run() not found')
    f = f[0]
    ctr = ('g', '_ZL14nextGroupIndex')
    mk = [c for c in f.calls if re.match(r'std::thread::thread<|std::vector<std::thread.*>::emplace_back<.*KernelInvocation', c.callee or '') and
          (any(mentions(f.expr(a), lambda x: x[0] == 'fn' and x[1].endswith('::runWorker')) for a in c.args) or 'KernelInvocation' in c.callee)]
    rs = [c for c in f.calls if re.search(r'__atomic_base<.*>::(operator=|store)$|atomic<.*>::(operator=|store)$', c.callee or '') and
          'nextGroupIndex' in show(args(f, c)[0]) and nz(args(f, c)[1]) == C(0)]
    jn = [c for c in f.calls if (c.callee or '') == 'std::thread::join']
    R.check(bool(rs) and all(must_precede(f, m, rs) for m in mk) and not any(
        reach_without(f, m, rs, []) for m in mk), 'threads', 'reset', floc(f), 'the group counter is not reset before the workers start', fn=f)
    nw = fld(THIS, 'm_numWorkers')
    R.check(len(mk) == 1 and counts(f, mk[0], nw), 'threads', 'start', floc(f), 'workers are not started once for each index below m_numWorkers', fn=f)
    R.check(len(jn) == 1 and (counts(f, jn[0], nw) or inloop_over(f, jn[0])), 'threads', 'join', floc(f), 'not all workers are joined', fn=f)
    R.check(all(path_avoiding(f, [f.blocks[min([l for l in f.loops if c.blk.id in l[1]], key=lambda l: len(l[1]))[0]].insts[0]]) is None
                for c in mk + jn if f.loop_of(c.blk.id)), 'threads', 'both', floc(f), 'a path skips starting or joining the workers', fn=f)
    R.rule('take', 'a worker takes each group id once and gives it the remainder size exactly when it would pass the global size', 4)
    f = P.one('oclgrind::KernelInvocation::runWorker')
    fl = Flow(f, fresh=FRESH, limit=40000)
    allp = list(fl.paths())
    incs = [c for c in f.calls if re.search(r'__atomic_base<.*>::(operator\+\+|fetch_add)$', c.callee or '') and 'nextGroupIndex' in show(args(f, c)[0])]
    if not R.check(len(incs) >= 1, 'take', 'atomic', floc(f), 'the next group index is not taken by an atomic increment', fn=f):
        return

    def isidx(e):
        e = nz(e)
        return e[0] == 'call' and re.search(r'operator\+\+$|fetch_add$', e[1]) and 'nextGroupIndex' in show(e[2]) and (
            e[1].endswith('fetch_add') and nz(e[3]) == C(1) or nz(e[3]) == C(0) and e[3][0] == 'c')
    def listsize(e):
        pe = list(poly(e).items())
        return len(pe) == 1 and pe[0][1] == 1 and len(pe[0][0]) == 1 and 'm_workGroups' in show(e)
    me = {THIS: KI}
    bad, sizes, news = [], set(), 0
    for p in allp:
        ctor = [e for e in p.calls('WorkGroup::WorkGroup')]
        taken = [e for e in p.events if e[0] == 'call' and e[1] in incs]
        if len(ctor) > 1 or len(taken) > 1 or bool(ctor) and not taken:
            bad.append('a group is created without taking one index')
            continue
        if not ctor:
            continue
        news += 1
        c = ctor[0]
        if nz(c[3][1]) != THIS:
            bad.append('wrong invocation')
        ids, szs = size3_at(p, c[3][2]), [None] * 3
        if len(c[3]) != 4:
            bad.append('the group is not given its own size')
            continue
        szs = size3_at(p, c[3][3])
        idx = None
        for k in range(3):
            b = elem_of(ids[k], k)
            if b is None or not isidx(b):
                bad.append('group id %s is not taken from the list at the index: %s' % ('xyz'[k], show(ids[k])))
                break
            idx = b
            v = sizekind(p, ids[k], szs[k], k, me)
            if v is None:
                bad.append('size.%s of the group is %s' % ('xyz'[k], show(szs[k])))
            sizes.add((k, v))
        else:
            if not any(a[0] == 'lt' and pol and isidx(a[1]) and listsize(a[2]) for a, pol in p.lits):
                bad.append('the index is not checked against the number of groups')
    R.check(not bad and news > 0, 'take', 'size', floc(f), '; '.join(sorted(set(bad))[:3]), fn=f)
    R.check({(k, v) for k in range(3) for v in ('full', 'rest')} <= sizes or {(k, 'both') for k in range(3)} <= sizes or bool(bad), 'take', 'cases',
            floc(f), 'full and remainder size are not both possible in every dimension', fn=f)
    # single-increment: no other increments of the counter on worker threads
    R.check(not any(reach_in_iter(f, i, incs) for i in incs), 'take', 'once', floc(f), 'two indices may be taken for one group', fn=f)
    R.rule('complete', 'a taken group is run until no work-item is ready and no barrier is pending, then reported complete and deleted', 4)
    done = calls(f, 'Context::notifyWorkGroupComplete')
    items = [l for l in f.loops if any((i.callee or '').endswith('WorkItem::step') for b in l[1] for i in f.blocks[b].insts)]
    need(len(items) >= 2, 'work-item loops not recognised')
    items.sort(key=lambda l: len(l[1]))
    inner, outer = items[0], items[1]
    n, bad, b2 = 0, [], []

    def known(p, call):
        """is the value of this call event known (non)null/true on the path: True/False/None"""
        for a, pol in p.lits:
            x = a[1] if len(a) > 1 else None
            if isinstance(x, tuple) and x[0] == 'call' and x[1] == call[2] and x[-1] == ('#', call[5]):
                if a[0] == 'eq' and a[2] == C(0):
                    return not pol
                if a[0] == 'true':
                    return pol
        return None

    def seq(p, upto_=None):
        out, cnt = [], {}
        for e in p.events:
            if e[0] != 'call':
                continue
            nm = (e[2] or '').split('::')[-1]
            k = cnt.get(e[2], 0)
            cnt[e[2]] = k + 1
            if e[1] in done:
                out.append(('done', None))
            elif nm == 'getNextWorkItem':
                out.append(('next', known(p, e[:4] + (None, k))))
            elif nm == 'hasBarrier':
                out.append(('has', known(p, e[:4] + (None, k))))
            elif nm == 'clearBarrier':
                out.append(('clear', None))
            elif nm == 'step':
                out.append(('step', None))
        return out
    for p in allp:
        s_ = seq(p)
        header = any(a[0] == 'eq' and a[2] == C(0) and a[1][0] in ('clob', 'load', 'phi') and ('workerState' in show(a[1]) or a[1][0] == 'phi') and pol
                     for a, pol in p.lits)
        nx = has = None
        prev = None
        for k, v in s_:
            if k == 'next':
                nx, has = (v, prev), None
            elif k == 'has':
                has = v
            elif k == 'clear':
                if not (nx and nx[0] is False and has is True):
                    b2.append('a barrier is resumed while a work-item may still be ready')
                has = None
            elif k == 'done':
                n += 1
                drained = nx and nx[0] is False and has is False or nx and nx[0] is False and nx[1] == 'clear'
                if not (drained or header):
                    bad.append('a group is completed while a work-item is runnable or a barrier pending')
            prev = k
        if p.end[0] == 'iter' and p.end[1] == outer[0] and not any(k == 'done' for k, _ in s_):
            tail = [x for x in s_ if x[0] in ('next', 'clear')]
            if tested(f, outer):
                if not tail or tail[-1][0] != 'next' or nx[0] is False and not (has is False) or nx[0] is None and nx[1] != 'clear':
                    b2.append('does not resume a pending barrier before the item loop ends')
            elif not tail:
                b2.append('does not move on to another work-item')
    R.check(n > 0 and not bad, 'complete', 'drained', floc(f), (bad or ['groups are never reported complete'])[0], fn=f)
    R.check(not b2, 'complete', 'barrier', floc(f), (b2 or [''])[0], fn=f)
    ex = loop_exits(f, inner)
    fin = [a for b in ex for s in f.blocks[b].succs if s not in inner[1] for a in edge_literals(f, b, s)]
    R.check(ex and all(a[0] == 'eq' and is_call(nz(a[1]), 'getState') and nz(a[2]) == C(0) and not p for a, p in fin) and fin, 'complete', 'ready', floc(f),
            'a work-item is left before it finished or reached a barrier', fn=f)
    ctor = calls(f, 'WorkGroup::WorkGroup')
    heads = [l for l in f.loops if ctor and ctor[0].blk.id in l[1]]
    need(heads, 'worker loop not recognised')
    h = max(heads, key=lambda l: len(l[1]))
    tgt = [f.blocks[h[0]].insts[0]] + f.ret_insts()
    dl = [c for c in f.calls if (c.callee or '').endswith('WorkGroup::~WorkGroup') or c.callee is None]
    R.check(bool(done) and all(reach_normal(f, c, tgt, done) is None for c in ctor) and all(reach_normal(f, d, tgt, dl) is None for d in done),
            'complete', 'reported', floc(f), 'a group is not reported complete and deleted on some path', fn=f)


def tested(f, lp):
    """the loop is left at its header when the current work-item is null"""
    for t in f.blocks[lp[0]].succs:
        for a, p in edge_literals(f, lp[0], t):
            if a[0] == 'eq' and p and a[2] == C(0) and t not in lp[1]:
                return True
    return False


def reach_normal(f, i, tgt, stops):
    """reach_without ignoring exception edges"""
    sid, tid = {x.id for x in stops}, {x.id for x in tgt}
    st, seen = [(i.blk.id, i.pos + 1)], set()
    while st:
        b, pos = st.pop()
        hit = False
        for x in f.blocks[b].insts[pos:]:
            if x.id in tid:
                return True
            if x.id in sid:
                hit = True
                break
        if hit:
            continue
        for s in f.blocks[b].succs:
            if s in seen or any(x.op == 'landingpad' for x in f.blocks[s].insts):
                continue
            # 'delete p' tests p against null first
            if any(a[0] == 'eq' and p and a[2] == C(0) for a, p in edge_literals(f, b, s)) and any(
                    x.id in sid for o in f.blocks[b].succs if o != s for x in f.blocks[o].insts):
                continue
            seen.add(s)
            st.append((s, 0))
    return None


def reach_in_iter(f, i, targets):
    h = [l for l in f.loops if i.blk.id in l[1]]
    if not h:
        return False
    head = f.blocks[max(h, key=lambda l: len(l[1]))[0]].insts[0]
    return reach_without(f, i, [t for t in targets], [head]) is not None


def elem_of(e, k):
    """index b when e is component k of this->m_workGroups[b]"""
    e = strip(e)
    if e[0] != 'load':
        return None
    a, c = e[1], 0
    if a[0] == 'fld' and a[2] in 'xyz':
        a, c = a[1], 'xyz'.index(a[2])
    a = _at(a)
    if c != k or a[0] not in ('ptr', 'idx') or nz(a[1]) != fld(THIS, 'm_workGroups') and nz(a[1]) != ('fld', THIS, 'm_workGroups'):
        return None
    return a[2]


def _at(a):
    if a[0] == 'call' and len(a) >= 4 and a[1].startswith('std::vector<') and a[1].endswith(('::at', '::operator[]')):
        return ('ptr', ('load', a[2]) if a[2][0] == 'fld' else a[2], a[3], None)
    return a


def sizekind(p, gid, v, k, me):
    """'full' | 'rest' | 'both' when v is the size of the group with id component gid, given the facts of the path"""
    def lf(x):
        if strip(x) == strip(gid) or deep(x) == deep(gid):
            return ('id',)
        q_ = quantity(x, me)
        return {(KI, 'localSize', k): ('l',), (KI, 'globalSize', k): ('g',)}.get(q_, ('?', show(x)))
    end = {(('id',), ('l',)): 1, (('l',),): 1}          # l*(id+1)
    beg = {(('id',), ('l',)): 1}                        # l*id
    g = {(('g',),): 1}
    pl = lambda e: {tuple(sorted(m, key=repr)): c for m, c in poly(e, lf).items()}    # noqa: E731

    def over(lits):
        for a, pol in lits:
            if a[0] != 'lt':
                continue
            x, y = pl(a[1]), pl(a[2])
            d = padd(y, pscale(x, -1))                  # x < y  <=> d > 0
            if d == padd(end, pscale(g, -1)):
                return pol
            if d == padd(padd(g, pscale(end, -1)), {}):
                return None if pol else None
            # remaining = g - l*id < l
            if pl(a[1]) == padd(g, pscale(beg, -1)) and pl(a[2]) == {(('l',),): 1}:
                return pol
        return None
    o = over(p.lits)
    e = strip(v)
    isrest = e[0] == 'urem' and pl(e[1]) == g and pl(e[2]) == {(('l',),): 1} or pl(e) == padd(g, pscale(beg, -1))
    isfull = pl(e) == {(('l',),): 1}
    if isfull and o is False:
        return 'full'
    if isrest and o is True:
        return 'rest'
    if e[0] == 'load' and is_call(e[1], 'min') or is_call(e, 'min', 'llvm.umin.i64') or e[0] == 'select':
        return 'both' if e[0] != 'select' and sorted([repr(pl(x)) for x in (e[1] if e[0] == 'load' else e)[2:4]]) == sorted(
            [repr({(('l',),): 1}), repr(padd(g, pscale(beg, -1)))]) else None
    return None


def memcounter(f, i):
    """memory-resident counter of the innermost loop around i: (alloca, bound)"""
    lp = min([l for l in f.loops if i.blk.id in l[1]], key=lambda l: len(l[1]), default=None)
    if lp is None:
        return None
    for a, p in [x for s in f.blocks[lp[0]].succs if s in lp[1] for x in edge_literals(f, lp[0], s)]:
        if a[0] in ('lt', 'eq') and p == (a[0] == 'lt'):
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                x = nz(x)
                if x[0] == 'load' and x[1][0] == 'alloca':
                    ss = field_stores(f, x[1])
                    out = [s for s in ss if s.blk.id not in lp[1]]
                    inn = [s for s in ss if s.blk.id in lp[1]]
                    if len(out) == 1 and nz(f.expr(out[0].args[0])) == C(0) and len(inn) == 1 and \
                            poly(nz(f.expr(inn[0].args[0]))) == padd(poly(x), {(): 1}) and every_iteration(f, lp, inn) is None:
                        return lp, nz(y)
                if a[0] == 'lt':
                    break
    return None


def counts(f, i, bound):
    """i runs once in every iteration of a loop counting 0..bound-1, left only at its header"""
    lp = min([l for l in f.loops if i.blk.id in l[1]], key=lambda l: len(l[1]), default=None)
    if lp is None or loop_exits(f, lp) != {lp[0]} or every_iteration(f, lp, [i]) is not None:
        return False
    for me, st, fs in counted(f, lp):
        if st == C(0) and any(a[0] == 'lt' and p and nz(a[1]) == me and nz(a[2]) == nz(bound) or
                              a[0] == 'eq' and not p and {nz(a[1]), nz(a[2])} == {me, nz(bound)} for a, p in fs):
            return True
    m = memcounter(f, i)
    return m is not None and m[1] == nz(bound)


def inloop_over(f, i):
    """i runs for every element of a local container walked from begin to end"""
    lp = min([l for l in f.loops if i.blk.id in l[1]], key=lambda l: len(l[1]), default=None)
    return lp is not None and every_iteration(f, lp, [i]) is None and walks(f, lp, lambda x: x[0] == 'alloca')


def group(P, R):
    R.rule('items', 'a group creates one work-item per local id, registers each once as member and as runnable, and finds it again by its id', 5)
    f = [x for x in P.get('oclgrind::WorkGroup::WorkGroup') if len(x.params) == 4]
    need(len(f) == 1, 'WorkGroup constructor not found')
    f = f[0]
    sz = pnames(f)[3]
    me = {THIS: WG, ('arg', sz): (WG, 'groupSize')}

    def bound(e):
        r = quantity(e, me)
        return r[2] if r and r[:2] == (WG, 'groupSize') else None
    ok, why, n, order, inner = True, '', 0, None, None
    allp = list(Flow(f).paths())
    for p in allp:
        mk = p.calls('WorkItem::WorkItem')
        if p.end[0] == 'ret' and mk:
            ok, why = False, 'work-items are created outside the enumeration'
        if p.end[0] != 'iter' or not mk:
            continue
        n += 1
        if len(mk) != 1:
            ok, why = False, 'several work-items per local id'
            continue
        item = mk[0][3][0]
        v = size3_at(p, mk[0][3][3])
        r = nest(f, v, bound)
        if r is None:
            ok, why = False, 'local ids are not enumerated by three counted loops over the group size: ' + ', '.join(show(x) for x in v)
            continue
        inner, order = r[0], [r[2].index(h) for h in r[1]]
        if p.end[1] != inner[0]:
            ok, why = False, 'a work-item is created outside the innermost loop'
        if nz(mk[0][3][1]) != ('arg', pnames(f)[1]) or nz(mk[0][3][2]) != THIS:
            ok, why = False, 'the work-item is not given its invocation and group'
        for field, pat in (('m_workItems', r'^std::vector<.*::(push_back|emplace_back)'), ('m_running', r'^std::set<.*::(insert|emplace)')):
            ins = [e for e in p.events if e[0] == 'call' and re.search(pat, e[2] or '') and nz(e[3][0]) == ('fld', THIS, field)]
            okv = len(ins) == 1
            if okv:
                a = ins[0][3][1]
                okv = strip(a) == item or strip(p.load(a)) == item
            if not okv:
                ok, why = False, 'a new work-item is not added once to %s' % field
    R.check(ok and n > 0, 'items', 'create', floc(f), why or 'no work-item creation found', fn=f)
    if inner is not None:
        bad = [p for p in allp if p.end[0] == 'iter' and p.end[1] == inner[0] and not p.calls('WorkItem::WorkItem')]
        outer = max([l for l in f.loops if inner[1] <= l[1]], key=lambda l: len(l[1]))
        R.check(not bad and path_avoiding(f, [f.blocks[outer[0]].insts[0]]) is None, 'items', 'all', floc(f), 'some local id gets no work-item', fn=f)
        g = P.one('oclgrind::WorkGroup::getWorkItem')
        lid = pnames(g)[1]
        m2 = {THIS: WG, ('arg', lid): ('P', 'l')}
        okx, got = False, None
        for v, _, _ in ret_values(g):
            e = nz(v)
            if e[0] == 'load' and e[1][0] == 'ptr' and e[1][1] == fld(THIS, 'm_workItems'):
                raw = v
                got = qpoly(deep(index_of(raw)), m2)
                want, mul = {}, {(): 1}
                for c in reversed(order):
                    want = padd(want, pmul({(('P', 'l', c),): 1}, mul))
                    mul = pmul(mul, {((WG, 'groupSize', c),): 1})
                okx = same_poly(got, want)
        R.check(okx, 'items', 'lookup', floc(g), 'looking up a local id computes %s, not its position' % (qs(got) if got else 'something else'), fn=g)
    g = P.one('oclgrind::WorkGroup::getNextWorkItem')
    okn = 0
    bad = None
    for p in Flow(g).paths():
        if p.end[0] != 'ret':
            continue
        v = nz(p.ret)
        emp = [l for l in p.lits if mentions(l[0], lambda x: x[0] == 'fld' and x[2] == 'm_running')]
        if v == C(0):
            if not emp or not all(known_empty(l, True) for l in emp[:1]):
                bad = 'returns none although work-items may be ready'
        elif 'm_running' in show(v):
            okn += 1
            if emp and known_empty(emp[0], True):
                bad = 'reads the first element of an empty set'
        else:
            bad = 'returns something that is not a runnable work-item'
    R.check(okn > 0 and not bad, 'items', 'next', floc(g), bad or 'never returns a runnable work-item', fn=g)
    g = P.one('oclgrind::WorkGroup::hasBarrier')
    R.check(all(lits_mean(v, fld(THIS, 'm_barrier')) for v, _, _ in ret_values(g)), 'items', 'hasBarrier', floc(g),
            'hasBarrier does not report a pending barrier', fn=g)
    R.rule('order', 'the order of runnable work-items tells any two work-items of a group apart', 8)
    g = P.one('oclgrind::WorkGroup::WorkItemCmp::operator()')
    order3(P, R, g)


def lits_mean(v, field):
    ls = literals(v, True)
    return ls == [(('eq', field, C(0)), False)] or nz(v) == nz(field)


def known_empty(l, want):
    (a, pol) = l
    s = show(a)
    if a[0] == 'eq':
        return pol == want
    return pol == want


def index_of(v):
    """raw index of a vector element load"""
    e = strip(v)
    if e[0] == 'load':
        e = e[1]
    while e[0] in ('load',):
        e = e[1]
    if e[0] == 'call':
        return e[3]
    return e[2]


def order3(P, R, g):
    """lexicographic (any component order) strict comparison of the global ids, decided for every outcome of the component comparisons"""
    l, r = pnames(g)[1:3]

    def side(e):
        q_ = quantity(e, {('arg', l): WI, ('arg', r): WI})
        if not q_ or q_[:2] not in ((WI, 'globalID'), (WI, 'localID')):
            return None
        who = 'l' if mentions(e, lambda x: x == ('arg', l)) else 'r'
        return who, q_[2]
    import itertools
    res = {}
    for rel in itertools.product((-1, 0, 1), repeat=3):
        def cmp(p, a, b):
            sa, sb = side(a), side(b)
            if not sa or not sb or sa[1] != sb[1]:
                return None
            d = rel[sa[1]] if (sa[0], sb[0]) == ('l', 'r') else -rel[sa[1]] if (sa[0], sb[0]) == ('r', 'l') else 0
            return {'eq': d == 0, 'ne': d != 0, 'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0, 'uge': d >= 0}.get(p)
        out = {repr(p.ret) for p in Flow(g, cmp=cmp).paths() if p.end[0] == 'ret'}
        res[rel] = out
    for rel, out in sorted(res.items()):
        if rel == (0, 0, 0):
            R.check(out == {repr(C(0))}, 'order', 'irreflexive', floc(g), 'a work-item precedes itself', fn=g)
        elif rel < (0, 0, 0):
            neg = res[tuple(-x for x in rel)]
            R.check(out | neg == {repr(C(0)), repr(C(1))} and len(out) == len(neg) == 1, 'order', 'total:%s' % (rel,), floc(g),
                    'two different work-items are not ordered either way', fn=g)


def switch(P, R):
    R.rule('switch', 'switching to a work-item picks its own group and local id, marks a pending group as taken exactly once, gives it its own '
           'size, and keeps the previous group for later', 8)
    f = P.one('oclgrind::KernelInvocation::switchWorkItem')
    gid = pnames(f)[1]
    me = {THIS: KI, ('arg', gid): ('P', 'gid')}
    fl = Flow(f, fresh=re.compile('XXX'))
    bad = {}
    n = created = 0

    def grp(v, c, op):
        v = strip(v)
        return v[0] == op and quantity(v[1], me) == ('P', 'gid', c) and quantity(v[2], me) == (KI, 'localSize', c)
    for p in fl.paths():
        if p.end[0] != 'ret':
            continue
        got = p.calls('WorkGroup::getWorkItem')
        ctor = p.calls('WorkGroup::WorkGroup')
        if nz(p.ret) == C(0):
            if got or ctor:
                bad['fail'] = 'reports failure after switching'
            continue
        n += 1
        if len(got) != 1:
            bad['item'] = 'does not look up the work-item'
            continue
        lid = size3_at(p, got[0][3][1])
        if not all(grp(lid[c], c, 'urem') for c in range(3)):
            bad['lid'] = 'local id is ' + ', '.join(show(x) for x in lid)
        if ctor:
            created += 1
            ids = size3_at(p, ctor[0][3][2])
            if not all(grp(ids[c], c, 'udiv') or 'm_workGroups' in show(ids[c]) for c in range(3)):
                bad['gid'] = 'group id is ' + ', '.join(show(x) for x in ids)
            if len(ctor[0][3]) < 4:
                bad['size'] = 'a group created by switching never gets the remainder size'
            else:
                sz = size3_at(p, ctor[0][3][3])
                for c in range(3):
                    if sizekind(p, ids[c], sz[c], c, me) is None:
                        bad['size'] = 'size.%s of the group is %s' % ('xyz'[c], show(sz[c]))
            mw = [e for e in p.events if e[0] == 'call' and (e[2] or '').startswith('std::vector<oclgrind::Size3')]
            er = [e for e in mw if e[2].endswith('::erase')]
            ins = [e for e in mw if e[2].endswith('::insert')]
            inc = [e for e in p.events if e[0] == 'call' and re.search(r'operator\+\+$|fetch_add$', e[2] or '') and 'nextGroupIndex' in show(e[3][0])]
            sw_ = [e for e in p.events if e[0] == 'call' and re.search(r'(^|::)(swap|iter_swap|rotate)', e[2] or '')]
            if not (len(inc) == 1 and (len(er) == 1 and len(ins) == 1 or sw_)):
                bad['taken'] = 'the group is not moved out of the pending part of the list exactly once'
            if not p.calls('Context::notifyWorkGroupBegin'):
                bad['begin'] = 'the new group is not announced'
        er = [e for e in p.events if e[0] == 'call' and re.search(r'list<.*>::(erase|remove|pop_front|splice)', e[2] or '')]
        kp = [e for e in p.events if e[0] == 'call' and re.search(r'list<.*>::(push_back|push_front|insert|emplace)', e[2] or '')]
        same = [l for l in p.lits if l[0][0] == 'eq' and 'workerState' in show(l[0]) and not (l[0][2] == C(0))]
        if (ctor or er) and len(kp) != 1 and not any(l[1] for l in same):
            bad['keep'] = 'the group that was running is lost or kept twice'
        if not ctor and not er and kp:
            bad['keep'] = 'a group is kept for later while it runs'
    for k in ('fail', 'item', 'lid', 'gid', 'size', 'taken', 'begin', 'keep'):
        R.check(n > 0 and created > 0 and k not in bad, 'switch', k, floc(f), bad.get(k, 'never switches'), fn=f)
