"""C16: for every entry point and handle argument, the paths of the function are followed with that argument null: nothing is
read or written through it, no function that would do so receives it, and every way out reports an error, the error of
the handle's class being one of them.  Lists of handles are followed with a null element, and every wait list that
reaches the queue has passed the list check with success."""
from common import *
from flow import Flow
import rt

TECHNIQUE = 'path-wise null propagation through every entry point (interprocedural over the runtime\'s own helpers); exhaustive list of handle parameters'
TUS = rt.TUS
NOTE = ('Functions whose every path fails (unsupported extensions) only have to leave the handle alone; a null platform selects the only platform. '
        'Handles that are not null but dangling are outside what an API can validate.')
NULL = ('null',)
DEV = lambda e: e[0] == 'load' and e[1][0] == 'g' and 'm_device' in e[1][1]
VALID = '(anonymous namespace)::notifyAPIError'


def isnull(e):
    return e == NULL


def cmp(pred, a, b):
    if NULL in (a, b) and pred in ('eq', 'ne'):
        o = b if a == NULL else a
        if o == ('c', 0) or o == NULL:
            return pred == 'eq'
        if DEV(o):
            return pred == 'ne'
    return None


def through(e):
    """e is an address inside the null object"""
    return e[0] in ('fld', 'idx', 'ptr', 'cgep') and rt.base(e) == NULL


class Null:
    """what a function does with a null argument"""

    def __init__(self, P):
        self.P, self.memo = P, {}

    def paths(self, f, leaf):
        e = rt.errarg(f)
        return list(Flow(f, leaf=leaf, cmp=cmp, decide=rt.nonnull(e) if e else None, loads=True, limit=20000).paths())

    def uses(self, f, p):
        """[(line, what)] uses of the null object on a path"""
        r = []
        for ev in p.events:
            line = ev[1].line
            if ev[0] in ('load', 'store') and (ev[2] == NULL or through(ev[2])):
                r.append((line, 'reads or writes through it'))
            elif ev[0] == 'copy' and any(x == NULL or through(x) for x in ev[3][:2]):
                r.append((line, 'copies through it'))
            elif ev[0] == 'call':
                for n, x in enumerate(ev[3]):
                    if through(x):
                        r.append((line, 'passes a part of it to %s' % short(ev[2])))
                    elif x == NULL:
                        w = self.callee(ev[2], n)
                        if w:
                            r.append((line, 'passes it to %s, which %s' % (short(ev[2]), w)))
        return r

    def callee(self, name, n):
        if name is None:
            return 'is unknown'
        fs = [g for g in self.P.get(name) if g.file.endswith(('runtime.cpp', 'async_queue.cpp'))]
        if not fs:
            m = re.search(r'([\w~]+)::([\w~]+)$', name.split('<')[0])
            return 'is called on it' if n == 0 and m and not name.startswith('std::operator') and 'ostream' not in name else None
        for g in fs:
            if n >= len(g.params):
                continue
            k = (g.id if hasattr(g, 'id') else g.qual, n)
            if k not in self.memo:
                self.memo[k] = None
                h = ('arg', g.params[n]['dn'])
                for p in self.paths(g, lambda x: NULL if x == h else None):
                    u = self.uses(g, p)
                    if u:
                        self.memo[k] = '%s (line %s)' % (u[0][1], u[0][0])
                        break
            if self.memo[k]:
                return self.memo[k]
        return None


def code(f, p):
    """outcome of a path: int, ('by', callee, args), None when unknown"""
    o = rt.outcome(f, p)
    if o is None:
        return None
    if o[0] == 'c':
        return o[1]
    if o[0] == 'by':
        ev = [e for e in p.events if e[0] == 'call' and e[2] == o[1]][-1]
        return ('by', o[1], ev[3])
    o = strip(o)
    if o[0] == 'call':
        return ('by', o[1], o[2:])
    return None


def delegated(P, c):
    """the callee validates the null argument it receives"""
    return [(g, n) for g in P.get(c[1]) for n, x in enumerate(c[2]) if x == NULL and g.file.endswith('runtime.cpp')]


def run(P, R):
    R.rule('unused', 'with a null handle nothing is read or written through it, in the function or in those it hands it to', 100)
    R.rule('rejected', 'with a null handle no way out of the function reports success', 90)
    R.rule('class', 'the error reported for a null handle is that of its class', 90)
    R.rule('element', 'a null element of a list of handles is never used, and is rejected with the class of the element', 10)
    R.rule('waitlist', 'a wait list reaches the queue only after the list check found it valid', 20)
    N = Null(P)
    fs = rt.entry_points(P)
    need(len(fs) > 110, 'entry points: %d' % len(fs))
    plain = {}

    def fails(f):
        """the function fails whatever it is given"""
        if f.qual not in plain:
            ps = N.paths(f, None)
            plain[f.qual] = bool(ps) and all(isinstance(code(f, p), int) and code(f, p) != 0 for p in ps if p.end[0] == 'ret')
        return plain[f.qual]

    todo = [(f, n) for f in fs for n, h, t in rt.handles(f)]
    seen = set()
    while todo:
        f, n = todo.pop(0)
        if (f.qual, n) in seen:
            continue
        seen.add((f.qual, n))
        h, t = f.params[n]['dn'], rt.ptype(f.params[n])
        key = '%s:%s' % (f.qual.split('::')[-1], h)
        ps = N.paths(f, lambda x: NULL if x == ('arg', h) else None)
        use = [u for p in ps for u in N.uses(f, p)]
        R.check(not use, 'unused', key, '%s:%s' % (f.file, use[0][0]) if use else floc(f), '%s: with a null %s the function %s' % (f.qual, h, use[0][1] if use else ''), fn=f)
        if t not in rt.CODES or t == 'cl_platform_id' or fails(f):
            continue
        want = rt.CODES[t]
        good, cls_, passed = True, False, False
        for p in ps:
            if p.end[0] == 'unreachable':
                continue
            if p.end[0] != 'ret':
                good = good and not rt.enqueues(p)
                continue
            c = code(f, p)
            if isinstance(c, tuple):
                d = delegated(P, c)
                if d:
                    todo += d
                    passed = True
                else:
                    good = False
            elif c is None:
                # no error channel
                if f.d['sig'][0] not in ('void', 'void*') or rt.errarg(f):
                    good = False
                else:
                    cls_ = True
            elif c == 0:
                good = False
            else:
                cls_ = cls_ or c == want
        R.check(good, 'rejected', key, floc(f), '%s can succeed with a null %s' % (f.qual, h), fn=f)
        R.check(cls_ or passed, 'class', key, floc(f), '%s never reports %s for a null %s' % (f.qual, rt.NAMES[want], h), fn=f)
    lists(P, R, N, fs)
    devices(P, R, fs, fails)


FOREIGN = ('foreign',)


def devices(P, R, fs, fails):
    R.rule('device', 'a query or creation for a device that is not the device of the platform fails', 6)

    def differs(pred, a, b):
        if FOREIGN in (a, b) and pred in ('eq', 'ne') and a != b:
            return pred == 'ne'
        return None
    for f in fs:
        hs = [p['dn'] for n, p in enumerate(f.params) if any(n == k and t == 'cl_device_id' for k, h, t in rt.handles(f))]
        name = f.qual.split('::')[-1]
        if not hs or fails(f) or name in ('clRetainDevice', 'clReleaseDevice'):
            continue
        for h in hs:
            ps = [p for p in rt.flow(f, leaf=lambda x: FOREIGN if x == ('arg', h) else None, cmp=differs) if p.end[0] == 'ret']
            cs = [code(f, p) for p in ps]
            R.check(cs and all(isinstance(c, int) and c != 0 or c is None and p.ret is not None and nz(p.ret) == C(0) and rt.errarg(f) for c, p in zip(cs, ps)), 'device', '%s:%s' % (name, h), floc(f),
                    '%s can succeed for a %s that is not the device of the platform' % (f.qual, h), fn=f)
            R.check(rt.CODES['cl_device_id'] in cs, 'device', '%s:%s:class' % (name, h), floc(f), '%s never reports an invalid device for such a %s' % (f.qual, h), fn=f)


def elem(h):
    def leaf(x):
        if x[0] == 'load':
            a = x[1]
            while a[0] in ('idx', 'ptr'):
                a = a[1]
            if a == ('arg', h):
                return NULL
        return None
    return leaf


def touches(p, h):
    """the path reads an element of the list"""
    for e in p.events:
        if e[0] == 'load':
            a = e[2]
            while a[0] in ('idx', 'ptr'):
                a = a[1]
            if a == ('arg', h):
                return True
    return False


def lists(P, R, N, fs):
    chk = P.get('checkEventWaitList')
    need(len(chk) == 1, 'checkEventWaitList')
    for f in fs + chk:
        for n, h, t in rt.handle_lists(f):
            key = '%s:%s' % (f.qual, h)
            ps = [p for p in N.paths(f, elem(h)) if touches(p, h)]
            if ps:
                use = [u for p in ps for u in N.uses(f, p)]
                ok = not use and all(p.end[0] == 'ret' and (code(f, p) or 0) != 0 for p in ps)
                want = (-57,) if f in chk else (rt.CODES[t], -30)
                codes = [code(f, p) for p in ps if p.end[0] == 'ret']
                why = use[0][1] if use else 'accepts it'
                R.check(ok, 'element', key, '%s:%s' % (f.file, use[0][0]) if use else floc(f), '%s: with a null element of %s the function %s' % (f.qual, h, why), fn=f)
                R.check(any(c in want for c in codes), 'class', key, floc(f), '%s never reports %s for a null element of %s' % (f.qual, rt.NAMES[want[0]], h), fn=f)
                if f in chk or f.qual == 'clWaitForEvents':
                    R.check(every(f, h), 'element', key + ':all', floc(f), '%s does not look at every element of %s' % (f.qual, h), fn=f)
    for f in fs:
        for n, h, t in rt.handle_lists(f):
            if t != 'cl_event' or f.qual == 'clWaitForEvents':
                continue
            ps = rt.flow(f)
            seen, bad = 0, None
            for p in ps:
                for ev in p.events:
                    if ev[0] != 'call' or ('arg', h) not in ev[3] or ev[2] == 'checkEventWaitList':
                        continue
                    m = short(ev[2])
                    if re.match(r'cl[A-Z]', m) and any(g in fs for g in P.get(ev[2])):
                        seen += 1
                        continue               # that entry point checks the list
                    seen += 1
                    i = ev[3].index(('arg', h))
                    num = ev[3][i - 1]
                    ctx = [c for c in p.calls('checkEventWaitList') if c[3][2] == ('arg', h) and c[3][1] == num]
                    done = any(a[0] == 'eq' and pol and is_call(strip(a[1]), 'checkEventWaitList') and a[2] == C(0) for c in ctx for a, pol in p.lits)
                    if not done:
                        bad = bad or ev[1].line
            if seen:
                R.check(bad is None, 'waitlist', f.qual, '%s:%s' % (f.file, bad or f.line), '%s hands %s on without it having been found valid' % (f.qual, h), fn=f)


def every(f, h):
    """some loop reads list[i] for every i from 0 up to the count"""
    for lp in f.loops:
        for me, st, fs in counted(f, lp):
            if st != C(0) or not any(a[0] == 'lt' and p and strip(nz(a[1])) == me and strip(nz(a[2]))[0] == 'arg' for a, p in fs):
                continue
            for b in lp[1]:
                for i in f.blocks[b].insts:
                    if i.op == 'load' and mentions(f.expr(i.args[0]), lambda x: x == ('arg', h)) and mentions(f.expr(i.args[0]), lambda x: x == me):
                        return True
    return False
