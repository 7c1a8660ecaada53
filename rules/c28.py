"""C28: a path analysis of clEnqueueNDRangeKernel derives, for every path that enqueues the command, what is known about the
number of dimensions and - through the counted loop over the dimensions - about each component of the group size; each
rejection returns a code whose reason is known on its path; every division by a launch size (or by another request parameter)
is reached only when the divisor is known to be non-zero or is the validated group size."""
from common import *
from flow import Flow
import rt
import c16
import c20
import c22
from c21 import A

TECHNIQUE = 'path facts and counted-loop facts at the launch entry points; non-zero divisor analysis'
TUS = rt.TUS + ['Queue', 'KernelInvocation', 'Simulation', 'Kernel']
NOTE = 'What a launch does with its sizes is C10; the record of the enqueued command is C22.'
ASSUMPTIONS = ['the device limit on the group size is below 2^21, so that the product of three sizes within it does not wrap',
               'a required work-group size has three non-zero components (enforced by the OpenCL C front end)']
KER = ('load', ('fld', A('kernel'), 'kernel'))
MAXWG = 'maxWGSize'


def last(c):
    return c20.last_name(c) if c else ''


def dev(e, field):
    e = strip(nz(e))
    return e[0] == 'load' and e[1][0] == 'fld' and e[1][2] == field and mentions(e, lambda x: x[0] == 'g' and 'm_device' in x[1])


def ev(e, x, n):
    """value of a 32-bit expression over the argument x"""
    e = strip(nz(e))
    if e == x:
        return n
    if e[0] == 'c':
        return e[1] & 0xffffffff
    if e[0] in ('add', 'sub', 'mul') and len(e) == 3:
        a, b = ev(e[1], x, n), ev(e[2], x, n)
        if a is not None and b is not None:
            return (a + b if e[0] == 'add' else a - b if e[0] == 'sub' else a * b) & 0xffffffff
    return None


def possible(fs, x, n):
    """the facts do not exclude x == n"""
    for a, pol in fs:
        if a[0] in ('eq', 'lt') and len(a) == 3:
            l, r = ev(a[1], x, n), ev(a[2], x, n)
            if l is not None and r is not None and ((l == r) if a[0] == 'eq' else (l < r)) != pol:
                return False
        elif a[0] == 'true' and ev(a[1], x, n) is not None and bool(ev(a[1], x, n)) != pol:
            return False
    return True


def run(P, R):
    R.rule('dims', 'a launch is enqueued only with one to three dimensions', 1)
    R.rule('size', 'each component of a given group size is known to be acceptable before the command is enqueued', 5)
    R.rule('total', 'the product of the group size components is compared with the device limit', 1)
    R.rule('memory', 'local and constant memory needs are compared with the device limits', 2)
    R.rule('code', 'a rejected launch returns the code of the reason known on its path', 5)
    R.rule('nothing', 'a rejected launch enqueues nothing', 1)
    R.rule('task', 'clEnqueueTask launches one work-item through the same checks', 1)
    R.rule('file', 'a simulator file is accepted only with a usable group size', 2)
    R.rule('divide', 'a divisor taken from a request is known to be non-zero', 12)
    eps = {f.qual: f for f in rt.entry_points(P)}
    f = eps['clEnqueueNDRangeKernel']
    launch(P, R, f)
    task(R, eps['clEnqueueTask'])
    simfile(P, R)
    divide(P, R, eps)


# ------------------------------------------------------------------ clEnqueueNDRangeKernel
def reqd(p):
    """the array that receives the required group size"""
    for e in p.events:
        if e[0] == 'call' and last(e[2]) == 'getRequiredWorkGroupSize' and nz(e[3][0]) == KER:
            return strip(nz(e[3][1]))
    return None


def comp(e, L, me=None):
    """e is L[me] (the index, when me is None)"""
    e = strip(nz(e))
    if e[0] == 'load' and e[1] == L:
        i = C(0)
    elif e[0] == 'load' and e[1][0] in ('ptr', 'idx') and strip(nz(e[1][1])) == L:
        i = strip(nz(e[1][2]))
    else:
        return None
    return i if me is None or i == me else None


def sizes(p):
    """the array the group size of the path is read from; None when there is no group size, False when unknown"""
    r = reqd(p)
    z = c22.known(p.lits, A('local_work_size'), 0)
    if z is False:
        return A('local_work_size')
    if z is None or r is None:
        return False
    for a, pol in p.lits:
        if a[0] == 'eq' and a[2] == C(0) and comp(a[1], r) is not None:
            return r if not pol else None
        if a[0] == 'true' and comp(a[1], r) is not None:
            return r if pol else None
    return False


def fact(fs, test, want):
    return any(pol == want and test(a) for a, pol in fs)


def positive(fs, L, me):
    return fact(fs, lambda a: a[0] == 'eq' and a[2] == C(0) and comp(a[1], L, me), False) or \
        fact(fs, lambda a: a[0] == 'true' and comp(a[1], L, me), True) or \
        fact(fs, lambda a: a[0] == 'lt' and a[1] == C(0) and comp(a[2], L, me), True) or \
        fact(fs, lambda a: a[0] == 'lt' and a[2] == C(1) and comp(a[1], L, me), False)


def limited(fs, L, me):
    return fact(fs, lambda a: a[0] == 'lt' and dev(a[1], MAXWG) and comp(a[2], L, me), False) or \
        fact(fs, lambda a: a[0] == 'lt' and comp(a[1], L, me) and dev(a[2], MAXWG), True)


def uniform(a):
    return a[0] in ('true', 'eq') and is_call(strip(nz(a[1])), 'requiresUniformWorkGroups')


def divides(a, L, me=None):
    x = strip(nz(a[1])) if a[0] in ('eq', 'true') else ('?',)
    if a[0] == 'eq' and a[2] != C(0) or x[0] != 'urem':
        return False
    g = strip(nz(x[1]))
    return comp(x[2], L, me) is not None and (comp(g, A('global_work_size'), me) is not None or g[0] in ('clob', 'load', 'c'))


def truth(a, pol):
    """polarity of 'the value is non-zero'"""
    return pol if a[0] == 'true' else not pol


def even(fs, L, me):
    if any(uniform(a) and truth(a, pol) is False for a, pol in fs):
        return True
    return any(divides(a, L, me) and truth(a, pol) is False for a, pol in fs)


def matching(fs, L, rq, me):
    if L == rq:
        return True
    for a, pol in fs:
        if a[0] == 'eq' and pol:
            x, y = a[1], a[2]
            if y == C(0) and comp(x, rq, me):
                return True
            for u, v in ((x, y), (y, x)):
                if comp(u, rq, me) and comp(v, L, me):
                    return True
        if a[0] == 'true' and not pol and comp(a[1], rq, me):
            return True
    return False


def launch(P, R, f):
    q = A('command_queue')
    paths = rt.flow(f)
    enq = [p for p in paths if p.end[0] == 'ret' and rt.enqueues(p)]
    rej = [p for p in paths if p.end[0] == 'ret' and not rt.enqueues(p)]
    need(enq, 'clEnqueueNDRangeKernel')
    W = A('work_dim')
    bad = [n for p in enq for n in (0, 4, 5, 0x7fffffff, 0x80000000, 0xffffffff) if possible(p.lits, W, n)]
    lost = [n for n in (1, 2, 3) if not any(possible(p.lits, W, n) for p in enq)]
    R.check(not bad and not lost, 'dims', 'dims', floc(f),
            'work_dim %d %s' % ((bad or lost or [0])[0], 'is accepted' if bad else 'is refused'), fn=f)

    def rounds(p):
        """the number of dimensions a path went through one by one, or None"""
        n = [k for k in (1, 2, 3) if possible(p.lits, W, k)]
        heads = [lp[0] for lp in f.loops if p.blocks.count(lp[0]) > n[0]] if len(n) == 1 else []
        return n[0] if heads else None

    loops = []              # counted loops over the dimensions that every enqueueing path passes
    for lp in f.loops:
        for me, st, fs in counted(f, lp):
            last = lambda a: a[0] == 'lt' and strip(nz(a[1])) == me and strip(nz(a[2])) == W
            if st == C(0) and all(fact(p.lits, last, False) for p in enq if lp[0] in p.blocks and sizes(p) is not None and not rounds(p)):
                its = [p for p in paths if p.end[0] == 'iter' and p.end[1] == lp[0]]
                if its:
                    loops.append((lp, me, its))
    unknown = [p for p in enq if sizes(p) is False]
    R.check(not unknown, 'size', 'source', floc(f), 'it is not known on some path whether a group size is given', fn=f)
    reqs = {'positive': (lambda p, L, me: positive(p.lits, L, me), 'a group size component may be zero'),
            'limit': (lambda p, L, me: limited(p.lits, L, me), 'a group size component is not compared with the device limit'),
            'uniform': (lambda p, L, me: even(p.lits, L, me), 'a group size may not divide the global size although the kernel needs it to'),
            'required': (lambda p, L, me: matching(p.lits, L, reqd(p), me), 'a group size may differ from the required one')}
    for k, (t, msg) in reqs.items():
        apart = [p for p in enq if sizes(p) and rounds(p) and all(t(p, sizes(p), C(d)) for d in range(rounds(p)))]
        good = False
        for lp, me, its in loops:
            given = [(p, sizes(p)) for p in its]
            if all(L is not False for _, L in given) and any(given) and \
                    all(t(p, L, me) for p, L in given if L is not None) and \
                    all(lp[0] in p.blocks and not rounds(p) or p in apart for p in enq if sizes(p)):
                good = True
        R.check(good, 'size', k, floc(f), msg, fn=f)

    # product of the components
    why = None
    prods = set()
    for lp, me, its in loops:
        for i in f.blocks[lp[0]].insts:
            if i.op != 'phi':
                continue
            x = ('phi', i.id)
            ok = all(f.expr(v) == C(1) for v, b in i.args if b not in lp[1])
            n = 0
            for p in its:
                L = sizes(p)
                up = [v for v, b in i.args if b == p.end[2]]
                if not up:
                    ok = False
                    continue
                v = strip(nz(p.flow.val(p.st, up[0])))
                if L is None:
                    ok = ok and (v == x or v[0] == 'mul')
                elif L is not False:
                    n += 1
                    ok = ok and v[0] == 'mul' and any(strip(a) == x and comp(b, L, me) for a, b in ((v[1], v[2]), (v[2], v[1])))
            if ok and n:
                prods.add(x)
    def product(p, e):
        e = strip(nz(e))
        L, n = sizes(p), rounds(p)
        if e in prods or not L or not n:
            return e in prods
        fs, todo = [], [e]
        while todo:
            x = strip(nz(todo.pop()))
            if x[0] == 'mul':
                todo += x[1:3]
            elif x != C(1):
                fs.append(comp(x, L))
        return None not in fs and sorted(fs) == [C(d) for d in range(n)]
    for p in enq:
        if sizes(p) and not (fact(p.lits, lambda a: a[0] == 'lt' and dev(a[1], MAXWG) and product(p, a[2]), False) or
                             fact(p.lits, lambda a: a[0] == 'lt' and product(p, a[1]) and dev(a[2], MAXWG), True)):
            why = 'the product of the group size is not compared with the device limit'
    R.check(why is None, 'total', 'total', floc(f), why, fn=f)

    # memory needs
    loc = lambda e: is_call(strip(nz(e)), 'getLocalMemorySize')
    con = constant(f, paths)
    for k, t, field in (('local', loc, 'localMemSize'), ('constant', lambda e: strip(nz(e)) in con, 'constantMemSize')):
        ok = all(fact(p.lits, lambda a: a[0] == 'lt' and dev(a[1], field) and t(a[2]), False) or
                 fact(p.lits, lambda a: a[0] == 'lt' and t(a[1]) and dev(a[2], field), True) for p in enq)
        R.check(ok, 'memory', k, floc(f), 'the %s memory need of the kernel is not compared with the device limit' % k, fn=f)

    # reasons
    CD = {'CL_INVALID_WORK_DIMENSION': -53, 'CL_INVALID_WORK_GROUP_SIZE': -54, 'CL_INVALID_WORK_ITEM_SIZE': -55,
          'CL_INVALID_KERNEL_ARGS': -52, 'CL_OUT_OF_RESOURCES': -5}
    seen = {}
    names = list(CD)
    for p in rej:
        r = strip(nz(p.ret))
        nm = [n for n in names if r == C(CD[n])]
        if not nm:
            if r == C(0):
                seen.setdefault('success', []).append(p)
            continue
        fs = p.lits
        L = sizes(p)
        arr = [x for x in (L, A('local_work_size'), reqd(p)) if x]
        n = nm[0]
        over = lambda t: fact(fs, lambda a: a[0] == 'lt' and dev(a[1], MAXWG) and t(a[2]), True)
        if n == names[0]:
            ok = not any(possible(fs, W, k) for k in (1, 2, 3))
        elif n == names[1]:
            ok = any(
                fact(fs, lambda a: a[0] == 'eq' and a[2] == C(0) and comp(a[1], x) not in (None, C(0)), True) or
                any(divides(a, x) and truth(a, pol) for a, pol in fs) or
                fact(fs, lambda a: a[0] == 'eq' and any(comp(u, reqd(p) or ('?',)) and comp(v, x) for u, v in ((a[1], a[2]), (a[2], a[1]))), False)
                for x in arr) or over(lambda e: product(p, e)) or \
                fact(fs, lambda a: a[0] == 'eq' and dev(a[1], MAXWG) and a[2] == C(0), True)
        elif n == names[2]:
            ok = any(over(lambda e: comp(e, x)) for x in arr)
        elif n == names[3]:
            ok = any(a[0] in ('true', 'eq') and is_call(strip(nz(a[1])), 'allArgumentsSet') and not truth(a, pol) for a, pol in fs)
        else:
            ok = any(fact(fs, lambda a: a[0] == 'lt' and dev(a[1], fd) and t(a[2]), True)
                     for t, fd in ((loc, 'localMemSize'), (lambda e: strip(nz(e)) in con, 'constantMemSize')))
        seen.setdefault(n, []).append(ok)
    for n in names:
        R.check(n in seen and all(seen[n]), 'code', n, floc(f),
                'is never returned' if n not in seen else 'is returned although its reason is not known to hold', fn=f)
    R.check('success' not in seen, 'nothing', 'nothing', floc(f), 'a path returns success without enqueueing the command', fn=f)


def constant(f, paths):
    """the accumulators of the sizes of the constant memory arguments"""
    cont = ('fld', A('kernel'), 'memArgs')
    r = set()
    for lp in f.loops:
        its = [p for p in paths if p.end[0] == 'iter' and p.end[1] == lp[0]]
        for i in f.blocks[lp[0]].insts:
            if i.op != 'phi' or not all(f.expr(v) == C(0) for v, b in i.args if b not in lp[1]):
                continue
            x = ('phi', i.id)
            ok = True
            n = 0
            for p in its:
                up = [v for v, b in i.args if b == p.end[2]]
                v = strip(nz(p.flow.val(p.st, up[0]))) if up else ('?',)
                k = None
                for a, pol in p.lits:
                    if a[0] == 'eq' and is_call(strip(nz(a[1])), 'getArgumentAddressQualifier') and a[2] == C(CONSTANT):
                        k = pol
                if k is None:
                    ok = False
                elif not k:
                    ok = ok and v == x
                else:
                    n += 1
                    d = padd(poly(v), pscale({(x,): 1}, -1))
                    ok = ok and len(d) == 1 and list(d.values()) == [1] and \
                        all(len(m) == 1 and m[0][0] == 'load' and m[0][1][0] == 'fld' and m[0][1][2] == 'size' for m in d)
            if ok and n and its and any(mentions(a, lambda y: y == cont) for p in its for a, _ in p.lits):
                r.add(x)
    return r


CONSTANT = 0x119D       # CL_KERNEL_ARG_ADDRESS_CONSTANT


# ------------------------------------------------------------------ others
def task(R, f):
    why, n = None, 0
    for p in rt.flow(f):
        if p.end[0] != 'ret':
            continue
        c = [e for e in p.events if e[0] == 'call' and last(e[2]) == 'clEnqueueNDRangeKernel']
        if len(c) != 1:
            why = why or 'does not launch exactly once'
            continue
        n += 1
        a = c[0][3]
        one = lambda x: p.at(c[0], x, 8)
        if strip(nz(a[2])) != C(1) or strip(nz(a[3])) != C(0) or any(one(x) is None or nz(one(x)) != C(1) for x in a[4:6]):
            why = why or 'does not launch one work-item in one dimension'
        if not is_call(strip(nz(p.ret)), 'clEnqueueNDRangeKernel'):
            why = why or 'does not return the outcome of the launch'
    R.check(n and not why, 'task', 'task', floc(f), why or 'no launch', fn=f)


def wg(e):
    """component of m_wgsize read by e"""
    e = strip(nz(e))
    if e[0] == 'load' and mentions(e, lambda x: x == ('fld', THIS, 'm_wgsize')):
        return {'y': 1, 'z': 2}.get(e[1][2] if e[1][0] == 'fld' else '', 0)
    return None


def nd(e):
    e = strip(nz(e))
    if e[0] == 'load' and mentions(e, lambda x: x == ('fld', THIS, 'm_ndrange')):
        return {'y': 1, 'z': 2}.get(e[1][2] if e[1][0] == 'fld' else '', 0)
    return None


def simfile(P, R):
    f = P.get('Simulation::load')[0]
    ok0, ok1, n = [True] * 3, True, 0
    for p in Flow(f).paths():
        # accepted: the sizes are taken and the kernel arguments are next (or loading is over)
        if p.end[0] != 'ret' or strip(nz(p.ret)) == C(0) and not any(e[0] == 'call' and last(e[2]) in ('getNumArguments', 'parseArgument') for e in p.events):
            continue
        n += 1
        for c in range(3):
            if not any(a[0] in ('eq', 'true') and wg(a[1]) == c and (a[0] == 'true' or a[2] == C(0)) and truth(a, pol) for a, pol in p.lits):
                ok0[c] = False
            if not any(uniform(a) and not truth(a, pol) for a, pol in p.lits) and \
                    not any(a[0] in ('eq', 'true') and strip(nz(a[1]))[0] == 'urem' and nd(strip(nz(a[1]))[1]) == c and
                            wg(strip(nz(a[1]))[2]) == c and not truth(a, pol) for a, pol in p.lits):
                ok1 = False
    R.check(n and all(ok0), 'file', 'positive', floc(f), 'a group size of zero is accepted', fn=f)
    R.check(n and ok1, 'file', 'uniform', floc(f), 'a group size that does not divide the range is accepted for a kernel that needs it to', fn=f)


def divide(P, R, eps):
    fs = [f for f in P.fns.values() if f.relfile() in ('src/core/Queue.cpp', 'src/core/KernelInvocation.cpp') or f.qual in eps or f.qual == 'Simulation::load']
    for f in sorted(fs, key=lambda f: f.qual):
        k = 0
        for i in f.all():
            if i.op not in ('udiv', 'sdiv', 'urem', 'srem') or i.args[1][0] == 'c' or i.blk.id not in f.idom:
                continue
            e = f.expr(i.args[1])
            k += 1
            ok = False
            if mentions(e, lambda x: x == ('fld', THIS, 'm_localSize')) and 'KernelInvocation' in f.qual:
                ok = True
            elif e[0] == 'load' and e[1] == ('fld', A('cmd'), 'pattern_size'):
                ok = True
            elif constants(f, e):
                ok = True
            else:
                x = nz(e)
                if nonzero(facts(f, i.blk.id), x) or nonzero(facts(f, i.blk.id), strip(x)):
                    ok = True
                else:
                    st = [p for p in Flow(f, limit=20000).paths(stop=(i.blk.id,)) if p.end[0] == 'stop']
                    ok = bool(st) and all(guarded_at(f, p, i) for p in st)
            R.check(ok, 'divide', '%s:%d' % (f.qual.replace('oclgrind::', ''), k), i.loc(), 'divides by %s, which may be zero' % S(e), fn=f)
    # the validated size is the one divided by
    g = [f for f in P.get('oclgrind::KernelInvocation::KernelInvocation')]
    for f in g:
        R.check(any(is_arg_copy(f, i) for i in f.all()), 'divide', 'source', floc(f), 'm_localSize is not the group size of the launch', fn=f)


def is_arg_copy(f, i):
    if i.op in ('call', 'invoke') and i.args and f.expr(i.args[0]) == ('fld', THIS, 'm_localSize') and len(i.args) > 1:
        return mentions(f.expr(i.args[1]), lambda x: x == A('localSize'))
    return i.op == 'store' and f.expr(i.args[1])[0:3] == ('fld', THIS, 'm_localSize') and mentions(f.expr(i.args[0]), lambda x: x == A('localSize'))


def guarded_at(f, p, i):
    for j in i.blk.insts[:i.pos]:
        if j.op in ('gep', 'load', 'zext', 'sext', 'trunc', 'add', 'sub', 'mul'):
            p.st.env[j.id] = p.flow.compute(p.st, j)
    v = nz(p.flow.val(p.st, i.args[1]))
    if nonzero(p.lits, v) or nonzero(p.lits, strip(v)) or v[0] == 'c' and v[1] != 0:
        return True
    v = strip(v)
    return any(a[0] == 'eq' and a[2] == C(0) and not pol and strip(nz(a[1])) == v or a[0] == 'true' and pol and strip(nz(a[1])) == v or
               a[0] == 'lt' and pol and a[1] == C(0) and strip(nz(a[2])) == v for a, pol in p.lits)


def constants(f, e, depth=0):
    """e is a choice among non-zero constants"""
    e = strip(e)
    if e[0] == 'c':
        return e[1] != 0
    if e[0] == 'phi' and depth < 60:
        i = f.insts.get(e[1])
        return i is not None and i.op == 'phi' and all(f.expr(v) != e and constants(f, f.expr(v), depth + 1) for v, b in i.args)
    return False
