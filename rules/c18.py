"""C18: reference counting of every API object class.  Creation sets the count to one and retains exactly the objects the
new object refers to for its lifetime; retain adds one; release removes one and, exactly when the result is zero, runs
the remaining callbacks, releases each of those references and each owned allocation once and deletes the object, which
is not touched afterwards.  No other function of the runtime changes a count."""
from common import *
from flow import Flow
import rt
import c17

TECHNIQUE = 'path-wise typestate of every object class: counts, retained references and owned allocations from creation to destruction'
TUS = rt.TUS
NOTE = 'Counts are not atomic in this runtime; concurrent retain/release from several host threads is outside the property. References held by queued commands are C20.'

# class -> (references kept: guard on the destroying path -> fields, allocations owned by the object)
#   a reference is a chain of members; 'A|B' names alternatives decided by the object's kind (see kinds)
KEEPS = {'cl_context': [], 'cl_command_queue': ['context'], 'cl_sampler': ['context'], 'cl_program': ['context'],
         'cl_kernel': ['program'], 'cl_event': ['context']}
OWNS = {'cl_context': ['context', 'properties'], 'cl_command_queue': ['queue'], 'cl_sampler': [], 'cl_program': ['program'],
        'cl_kernel': ['kernel'], 'cl_event': ['event'], 'cl_mem': []}
CLASSES = ['cl_context', 'cl_command_queue', 'cl_mem', 'cl_sampler', 'cl_program', 'cl_kernel', 'cl_event']
IMAGE1D_BUFFER = 0x10F6
# functions that take and drop references besides creation and release (C20 decides those)
QUEUE = {'asyncEnqueue', 'asyncQueueRetain', 'asyncQueueRelease'}


def fld(o, *names):
    for n in names:
        o = ('load', ('fld', o, n))
    return o


def refs(p, kind):
    """[(class, object, inst)] of the references taken (Retain) or dropped (Release) on a path"""
    return [(e[2][len('cl' + kind):], strip(e[3][0]), e[1]) for e in p.events if e[0] == 'call' and re.match('cl%s[A-Z]' % kind, e[2] or '')]


def frees(p, e):
    n = d = 0
    for ev in p.events:
        if ev[0] == 'call' and ev[3] and strip(ev[3][0]) == e:
            c = ev[2] or ''
            n += c.startswith('operator delete') or c == 'free'
            d += bool(re.search(r'::~\w+$', c))
    return n or d


def last(p, obj, field):
    v = None
    for ev in p.stores():
        if ev[2] == ('fld', obj, field):
            v = ev[3]
    return v


def isnull(p, e):
    for a, pol in p.lits:
        if a[0] == 'eq' and strip(a[1]) == e and a[2] == C(0):
            return pol
        if a[0] == 'true' and strip(a[1]) == e:
            return not pol
    return None


def run(P, R):
    R.rule('retain', 'retaining adds exactly one to the count of the object and succeeds', 7)
    R.rule('release', 'releasing removes exactly one from the count and destroys the object exactly when nothing is left', 7)
    R.rule('drop', 'destroying an object releases every reference it holds exactly once, and none it does not hold', 7)
    R.rule('own', 'destroying an object frees every allocation it owns exactly once', 8)
    R.rule('after', 'the object and what it released are not used afterwards', 7)
    R.rule('callbacks', 'registered destructor callbacks are each called once with the object before it is deleted', 2)
    R.rule('one', 'a new object starts with one reference', 12)
    R.rule('keep', 'a new object retains exactly the objects it refers to for its lifetime; a failing call retains nothing', 12)
    R.rule('only', 'no other function changes a reference count or takes or drops references', 120)
    sizes = born(P, R)
    for t in CLASSES:
        for kind in ('Retain', 'Release'):
            name = 'cl' + kind + {'cl_mem': 'MemObject', 'cl_command_queue': 'CommandQueue'}.get(t, t[3:].capitalize())
            f = P.get(name)
            need(len(f) == 1, name)
            (retain(P, R, f[0], t) if kind == 'Retain' else release(P, R, f[0], t, sizes))
    others(P, R)


def counts(p, o):
    return [ev[3] for ev in p.stores() if ev[2] == ('fld', o, 'refCount')]


def retain(P, R, f, t):
    o = ('arg', f.params[0]['dn'])
    rc = fld(o, 'refCount')
    bad = None
    n = 0
    for p in rt.flow(f):
        c = counts(p, o)
        if p.ret == C(0):
            n += 1
            if [strip(x) for x in c] != [('add', rc, C(1))]:
                bad = 'leaves the count at %s' % (S(c[-1]) if c else 'its old value')
        elif c:
            bad = 'changes the count although it fails'
    R.check(bad is None and n, 'retain', t, floc(f), '%s %s' % (f.qual, bad or 'never succeeds'), fn=f)


def release(P, R, f, t, sizes):
    o = ('arg', f.params[0]['dn'])
    rc = fld(o, 'refCount')
    dec = ('add', rc, C(-1))
    rel = drop = own = after = cb = None
    n = 0
    owned = set()
    iters = []
    for p in rt.flow(f, loads=True):
        c = counts(p, o)
        zero = [pol for a, pol in p.lits if a[0] == 'eq' and strip(a[1]) == dec and a[2] == C(0)] + \
            [not pol for a, pol in p.lits if a[0] == 'true' and strip(a[1]) == dec] + \
            [not pol for a, pol in p.lits if a[0] == 'lt' and a[1] == C(1) and strip(a[2]) == rc] + \
            [pol for a, pol in p.lits if a[0] == 'eq' and strip(a[1]) == rc and a[2] == C(1)]
        gone = frees(p, o)
        if isnull(p, o):
            if c or gone:
                rel = rel or 'touches a null object'
            continue
        if [strip(x) for x in c] != [dec]:
            rel = rel or 'leaves the count at %s' % (S(c[-1]) if c else 'its old value')
        if not zero:
            rel = rel or 'does not test the count'
            continue
        if p.end[0] == 'iter':
            iters.append(p)
            continue
        if gone != (1 if zero[0] else 0):
            rel = rel or ('deletes the object %d times when the last reference goes' % gone if zero[0] else 'destroys an object that is still referenced')
        if p.ret != C(0):
            rel = rel or 'returns %s' % S(p.ret)
        got = [(k, x) for k, x, _ in refs(p, 'Release')]
        if not zero[0]:
            if got or any(frees(p, fld(o, w)) for w in OWNS[t]):
                drop = drop or 'releases what an object that is still referenced needs'
            continue
        n += 1
        want = [('Context' if w == 'context' else w.capitalize(), fld(o, w)) for w in KEEPS.get(t, [])]
        if t == 'cl_mem':
            want = [mem_ref(p, o)]
            if want == [None]:
                drop = drop or 'does not distinguish buffers, sub-buffers and images of buffers'
                continue
            dea = [e for e in p.calls('deallocateBuffer')]
            top = want[0][0] == 'Context'
            okd = [e for e in dea if strip(e[3][1]) == fld(o, 'address') and short(strip(e[3][0])[1]) == 'getGlobalMemory' and
                   strip(e[3][0])[2] == fld(o, 'context', 'context')]
            if len(dea) != len(okd) or len(okd) != (1 if top else 0):
                own = own or ('does not give the memory back exactly once' if top else 'gives back memory that belongs to another object')
            owned.add('address')
            size = [e[3][1] for e in p.calls('operator delete') if strip(e[3][0]) == o and len(e[3]) > 1]
            img = [pol for a, pol in p.lits if a[0] == 'true' and strip(a[1]) == fld(o, 'isImage')]
            for s in size:
                for i in img[-1:] or [False, True]:
                    if sizes.get(i) not in (None, s):
                        own = own or 'deletes %s as an object of another size' % ('an image' if i else 'a buffer')
        if sorted(map(repr, got)) != sorted(map(repr, want)):
            drop = drop or 'releases %s, but holds %s' % ([S(x) for _, x in got], [S(x) for _, x in want])
        for w in OWNS[t]:
            k = frees(p, fld(o, w))
            z = isnull(p, fld(o, w))
            if k != (0 if z else 1):
                own = own or 'frees its %s %d times' % (w, k)
            owned.add(w)
        dead = []
        for ev in p.events:
            used = [ev[2]] if ev[0] in ('load', 'store') else list(ev[3]) if ev[0] in ('call', 'copy') else []
            for d, what in dead:
                if any(strip(rt.base(u)) == d for u in used) and not re.search(r'^operator delete|^free$', ev[2] if isinstance(ev[2], str) else ''):
                    after = after or '%s is used at line %s after it has been %s' % (S(d), ev[1].line, what)
            if t == 'cl_program' and ev[0] == 'call' and re.search('::~Program$', ev[2] or '') and any(w == 'released' for _, w in dead):
                after = after or 'the program is deleted at line %s after the context its allocations live in has been released' % ev[1].line
            if ev[0] == 'call' and ev[3]:
                x = strip(ev[3][0])
                if (ev[2] or '').startswith('operator delete') or ev[2] == 'free':
                    dead.append((x, 'freed'))
                elif re.match('clRelease', ev[2] or ''):
                    dead.append((x, 'released'))
                elif re.search(r'::~\w+$', ev[2] or '') and x[0] == 'load':
                    dead.append((x, 'freed'))
        if t in ('cl_mem', 'cl_context'):
            done = [pol for a, pol in p.lits if a[0] == 'true' and strip(a[1])[0] == 'call' and strip(a[1])[1].endswith('::empty') and strip(a[1])[2] == ('fld', o, 'callbacks')]
            done += [not pol for a, pol in p.lits if a[0] == 'not']
            if not done or not done[-1]:
                cb = cb or 'deletes the object with callbacks outstanding'
    R.check(rel is None and n, 'release', t, floc(f), '%s %s' % (f.qual, rel or 'never destroys the object'), fn=f)
    R.check(drop is None, 'drop', t, floc(f), '%s %s' % (f.qual, drop), fn=f)
    for w in sorted(owned):
        R.check(own is None, 'own', '%s.%s' % (t, w), floc(f), '%s %s' % (f.qual, own), fn=f)
    R.check(after is None, 'after', t, floc(f), '%s: %s' % (f.qual, after), fn=f)
    if t in ('cl_mem', 'cl_context'):
        ok = False
        for p in iters:
            call = [e for e in p.events if e[0] == 'call' and e[2] is None]
            if call:
                pops = [e for e in p.events if e[0] == 'call' and (e[2] or '').endswith('::pop')]
                if len(call) != 1 or len(pops) != 1 or strip(pops[0][3][0]) != ('fld', o, 'callbacks'):
                    cb = cb or 'calls %d callbacks for %d taken off the list' % (len(call), len(pops))
                elif strip(call[0][3][0]) != o:
                    cb = cb or 'passes %s to the callback' % S(call[0][3][0])
                elif frees(p, o):
                    cb = cb or 'calls a callback after deleting the object'
                else:
                    ok = True
        R.check(cb is None and ok, 'callbacks', t, floc(f), '%s %s' % (f.qual, cb or 'calls no callbacks'), fn=f)
    if t == 'cl_kernel':
        heads = {lp[0] for lp in loops_walking(f, lambda x: x == ('fld', o, 'imageArgs'))}
        bad = None
        k = 0
        for p in iters:
            if p.end[1] not in heads:
                continue
            x = [strip(e[3][0]) for e in p.calls('operator delete')]
            z = [pol for a, pol in p.lits if a[0] == 'eq' and a[2] == C(0) and mentions(a[1], lambda y: y[0] == 'phi')]
            if z and z[-1] and not x:
                continue                          # no structure in that slot
            k += 1
            if len(x) != 1 or not mentions(x[0], lambda y: y[0] == 'phi'):
                bad = 'deletes %d structures per image argument' % len(x)
        R.check(k and bad is None, 'own', 'cl_kernel.imageArgs', floc(f), '%s %s' % (f.qual, bad or 'keeps the structures made for image arguments'), fn=f)


def mem_ref(p, o):
    """the reference held by a memory object of the kind this destroying path handles"""
    img = typ = par = None
    for a, pol in p.lits:
        x = strip(a[1])
        if a[0] == 'true' and x == fld(o, 'isImage'):
            img = pol
        if a[0] == 'eq' and x == fld(o, 'desc') and a[2] == C(IMAGE1D_BUFFER):
            typ = pol
        if a[0] == 'eq' and x == fld(o, 'parent') and a[2] == C(0):
            par = not pol
        if a[0] == 'true' and x == fld(o, 'parent'):
            par = pol
    if img is None or img and typ is None:
        return None
    if img and typ:
        return ('MemObject', ('load', ('fld', ('fld', o, 'desc'), '<anon>')))
    if par is None:
        return None
    return ('MemObject', fld(o, 'parent')) if par else ('Context', fld(o, 'context'))


def born(P, R):
    fs = [f for f in c17.creators(P)] + P.get('asyncEnqueue') + P.get('clCreateKernelsInProgram') + \
        [f for f in rt.functions(P) if f.d['sig'][0] == 'cl_mem' and f not in c17.creators(P)]
    seen = set()
    sizes = {}
    for f in fs:
        t = f.d['sig'][0] if f.d['sig'][0] in CLASSES else 'cl_event' if f.qual == 'asyncEnqueue' else 'cl_kernel' if 'Kernels' in f.qual else None
        if t is None or f.qual in seen:
            continue
        seen.add(f.qual)
        one = keep = None
        n = 0
        e = rt.errarg(f)
        for p in rt.flow(f, decide=rt.nonnull(e) if e else None):
            new = [strip(('call', ev[2]) + tuple(ev[3])) for ev in p.calls('operator new')]
            took = [(k, x) for k, x, _ in refs(p, 'Retain')]
            gave = [(k, x) for k, x, _ in refs(p, 'Release')]
            outs = [strip(p.ret)] if p.end[0] == 'ret' and p.ret is not None and t == f.d['sig'][0] else []
            outs += [strip(ev[3]) for ev in p.stores() if t != f.d['sig'][0] and strip(ev[3]) in new and
                     mentions(ev[2], lambda x: x in (('arg', 'kernels'), ('g', '_ZL8eventMap')))]
            objs = [x for x in outs if x in new]
            if f.qual == 'clCreateKernelsInProgram' and not objs:
                continue
            if f.qual == 'asyncEnqueue' and p.end[0] == 'iter':
                continue
            if not objs:
                if p.end[0] == 'ret' and (took or gave):
                    keep = keep or 'takes or drops references although it makes no object (line %s)' % refs(p, 'Retain' if took else 'Release')[0][2].line
                continue
            n += 1
            o = objs[0]
            c = counts(p, o)
            img = last(p, o, 'isImage')
            if img is not None and strip(img)[0] == 'c':
                sizes[bool(strip(img)[1])] = o[2]
            x = [n for n, ev in enumerate(p.events) if ev[0] == 'store' and ev[2] == ('fld', o, 'refCount')]
            y = [n for n, ev in enumerate(p.events) if ev[0] in ('call', 'copy') and ev[3] and strip(ev[3][0]) == o and re.search('operator=|memcpy', ev[2] or '')]
            if x and y and y[-1] > x[-1]:
                one = one or 'overwrites the count of the new object'
            if not c or c[-1] != C(1):
                one = one or 'hands out an object with %s references' % (S(c[-1]) if c else 'an unknown number of')
            want = wanted(f, p, o, t)
            if want is None:
                keep = keep or 'makes an object of unknown kind'
                continue
            if f.qual == 'asyncEnqueue' and p.calls('clRetainEvent'):
                want.append(('Event', o))          # the caller's reference
            if sorted(map(repr, took)) != sorted(map(repr, want)) or gave:
                keep = keep or 'retains %s for an object that refers to %s' % ([S(x) for _, x in took], [S(x) for _, x in want])
        if n:
            R.check(one is None, 'one', f.qual, floc(f), '%s %s' % (f.qual, one), fn=f)
        R.check(keep is None, 'keep', f.qual, floc(f), '%s %s' % (f.qual, keep), fn=f)
    return sizes


def wanted(f, p, o, t):
    if t != 'cl_mem':
        r = []
        for w in KEEPS[t]:
            v = last(p, o, w)
            if v is None:
                return None
            r.append((w.capitalize(), strip(v)))
        return r
    par = last(p, o, 'parent')
    if par is not None:
        par = strip(par)
        return [('Context', strip(last(p, o, 'context')))] if par == C(0) else [('MemObject', par)]
    # an image: either made from a buffer it refers to, or taking over a buffer object just made
    made = [strip(('call', e[2]) + tuple(e[3])) for e in p.events if e[0] == 'call' and short(e[2] or '') in ('createBuffer', 'clCreateBuffer')]
    took = [x for k, x, _ in refs(p, 'Retain') if k == 'MemObject']
    b1d = [pol for a, pol in p.lits if a[0] == 'eq' and a[2] == C(IMAGE1D_BUFFER)] or \
        [False for a, pol in p.lits if a[0] == 'eq' and pol and a[2][0] == 'c' and 0x10F0 <= a[2][1] <= 0x10F8]
    if not b1d:
        return None
    if b1d[0]:
        return [('MemObject', x) for x in took[:1]] if took and not made and mentions(took[0], lambda x: x[0] == 'fld' and x[2] in ('<anon>', 'buffer', 'mem_object')) else None
    if len(made) != 1 or frees(p, made[0]) != 1:
        return None
    return []


def others(P, R):
    allowed = {'cl' + k + n for k in ('Retain', 'Release') for n in
               ('Context', 'CommandQueue', 'MemObject', 'Sampler', 'Program', 'Kernel', 'Event')}
    made = {f.qual for f in c17.creators(P)}
    for f in rt.functions(P):
        w = [i for i in f.all() if i.op == 'store' and (a := f.expr(i.args[1]))[0] == 'fld' and a[2] == 'refCount']
        refs_ = [i for i in f.calls if re.match(r'cl(Retain|Release)(Context|CommandQueue|MemObject|Sampler|Program|Kernel|Event)$', i.callee or '')]
        q = f.qual
        if q in allowed:
            continue                              # decided above
        bad = None
        if w and q not in made and q not in ('asyncEnqueue', 'clCreateKernelsInProgram') and not f.d['sig'][0] == 'cl_mem':
            bad = 'changes a reference count (line %s)' % w[0].line
        if refs_ and q not in QUEUE and q not in made and f.d['sig'][0] != 'cl_mem':
            if q == 'clCreateKernelsInProgram':
                x = [i for i in refs_ if 'Release' in i.callee and not mentions(f.expr(i.args[0]), lambda e: e == ('arg', 'kernels'))]
                if x:
                    bad = 'releases an object it did not make (line %s)' % x[0].line
            else:
                bad = 'calls %s (line %s)' % (refs_[0].callee, refs_[0].line)
        R.check(bad is None, 'only', short(q), floc(f), '%s %s' % (q, bad), fn=f)
