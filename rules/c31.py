"""C31: an ownership analysis - every heap allocation and every simulated allocation is traced to the owner that keeps it, and
the owner's end (destructor, release function, function return, last use) is shown to give it back on every path; each
deallocation is of the form that matches every allocation that can reach it."""
import re
from common import *
from flow import Flow
import c14
import build
import c18
from c36 import Only

TECHNIQUE = 'allocation-origin analysis for the form of each deallocation; path analysis of every owner\'s end; loop obligations over owning containers'
TUS = 'all'
NOTE = ('Reference counts of API objects are C18 and C20; the slots of simulated memory and their reuse are C01. An owner that lives as long as the '
        'process (platform and device tables, the counters of a worker thread) is outside the property.')
ASSUMPTIONS = ['an exception ends the kernel it is raised in (C32), so paths through a throw are judged only where C++ unwinding runs a destructor']

NEW = re.compile(r'^(operator new\(|operator new\[\]|operator new$|malloc$|calloc$|realloc$|strdup$|strndup$|operator new)')
DEL = re.compile(r'^(operator delete|free$)')
KINDS = {'new': 'delete', 'new[]': 'delete[]', 'malloc': 'free'}


def kind_of(c):
    return ('new[]' if c.startswith('operator new[]') else 'new') if c.startswith('operator new') else 'malloc'


def frees_kind(c):
    return ('new[]' if c.startswith('operator delete[]') else 'new') if c.startswith('operator delete') else 'malloc'


def isnew(e):
    return e[0] == 'call' and bool(NEW.match(e[1]))


def own(f):
    return f.relfile().startswith('src/')


def slot(a, f=None):
    """name of the storage an address stands for: the last named field on the way (with the class when it is a member of the
    object whose method this is), a global, or None"""
    while True:
        if a[0] == 'fld':
            if not a[2].startswith('#'):
                return '%s.%s' % (c14.cls(f), a[2]) if f is not None and a[1] == THIS else a[2]
            a = a[1]
        elif a[0] == 'load' or a[0] in ('ptr', 'cgep', 'idx', 'ptrto'):
            a = a[1]
        elif a[0] == 'xv':
            a = a[2]
        elif a[0] == 'g':
            return a[1]
        elif a[0] == 'phi' and f is not None:
            # an iterator: the container it starts from
            i = f.insts.get(a[1])
            got = {slot(strip(f.expr(v)), f) for v, _ in i.args if v[0] == 'v' and f.insts[v[1]].op != 'phi' and not mentions(f.expr(v), lambda y: y == a)} if i else set()
            return got.pop() if len(got) == 1 else None
        elif a[0] == 'call' and len(a) > 2 and re.search(r'operator\[\]|::at\b|threadlocal|::(front|back|top|begin|c?begin)\b|operator->|operator\*', a[1]):
            a = a[2]
        else:
            return None


class Origins:
    """the kinds of allocation that can reach a value, through phis, local variables, fields (by name) and calls"""

    def __init__(self, P):
        self.P, self.slots, self.rets = P, {}, {}
        self.sites = {}
        for f in P.fns.values():
            if not own(f):
                continue
            for i in f.all():
                if i.op == 'store':
                    s = slot(f.expr(i.args[1]), f)
                    if s:
                        self.sites.setdefault(s, []).append((f, i.args[0]))
                elif i.op in ('call', 'invoke') and len(i.args) > 1 and re.search(r'::(push_back|push_front|push|emplace_back|emplace_front)$', (i.callee or '').split('(')[0]):
                    s = slot(f.expr(i.args[0]), f)
                    a = strip(f.expr(i.args[1]))
                    if s and a[0] == 'alloca':
                        for st in stores(f):
                            if strip(f.expr(st.args[1])) == a:
                                self.sites.setdefault(s, []).append((f, st.args[0]))
        self.busy = set()

    def of(self, f, e, seen=()):
        e = strip(e)
        if (f.name, e) in seen or len(seen) > 40:
            return set()
        seen = seen + ((f.name, e),)
        if isnew(e):
            return {kind_of(e[1])}
        if e[0] == 'phi':
            i = f.insts.get(e[1])
            out = set()
            for v, _ in (i.args if i else ()):
                out |= self.of(f, f.expr(v), seen)
            return out
        if e[0] in ('sel', 'select') and len(e) == 4:
            return self.of(f, e[2], seen) | self.of(f, e[3], seen)
        if e[0] == 'load':
            a = e[1]
            if base(a)[0] == 'alloca':
                out = set()
                for i in stores(f):
                    if maybe(strip(f.expr(i.args[1])), a):
                        out |= self.of(f, f.expr(i.args[0]), seen)
                return out
            s = slot(a, f)
            if s:
                return self.slot(s)
        if e[0] == 'call' and len(e) >= 2:
            out = set()
            for g in self.P.get(e[1]) if own(f) else ():
                if own(g):
                    for v, _, _ in ret_values(g):
                        out |= self.of(g, v, seen)
            return out
        return set()

    def slot(self, s):
        if s in self.busy:
            return set()
        if s not in self.slots:
            self.busy.add(s)
            out = set()
            for f, o in self.sites.get(s, ()):
                out |= self.of(f, f.expr(o))
            self.busy.discard(s)
            self.slots[s] = out
        return self.slots[s]


def deletions(f):
    return [i for i in f.all() if i.op in ('call', 'invoke') and i.args and DEL.match(i.callee or '')]


def freed(p, e):
    """how often the path gives the object e back"""
    n = d = 0
    for ev in p.events:
        if ev[0] != 'call' or not ev[3] or strip(ev[3][0]) != strip(e):
            continue
        c = ev[2] or ev[1].d.get('vc') or ''
        n += bool(DEL.match(c))
        d += bool(re.search(r'::~\w+$', c))
    return n or d


def isnull(p, e):
    e = strip(e)
    for a, pol in p.lits:
        if a[0] == 'eq' and C(0) in (strip(a[2]), strip(a[1])) and e in (strip(a[1]), strip(a[2])):
            return pol
        if a[0] == 'true' and strip(a[1]) == e:
            return not pol
    return False


def sources(f, o, seen=None):
    """the instructions whose value the operand may be"""
    seen = set() if seen is None else seen
    if not isinstance(o, (list, tuple)) or o[0] != 'v' or o[1] in seen:
        return seen
    seen.add(o[1])
    i = f.insts[o[1]]
    if i.op == 'phi':
        for v, _ in i.args:
            sources(f, v, seen)
    elif i.op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'freeze'):
        sources(f, i.args[0], seen)
    elif i.op == 'select':
        for v in i.args[1:]:
            sources(f, v, seen)
    elif i.op == 'load':
        a = strip(f.expr(i.args[0]))
        if base(a)[0] == 'alloca':
            for s in stores(f):
                if maybe(strip(f.expr(s.args[1])), a):
                    sources(f, s.args[0], seen)
    return seen


def base(a):
    while a[0] in ('fld', 'ptr', 'cgep', 'idx', 'ptrto'):
        a = a[1]
    return a


def maybe(a, b):
    """two addresses may be the same part of a local object (one named by member, the other by offset)"""
    return a == b or base(a) == base(b) and ('ptr' in (a[0], b[0]) or 'cgep' in (a[0], b[0])) and a[0] != b[0] and 'alloca' not in (a[0], b[0])


def kept(f, i):
    """the allocation is stored in an object or returned"""
    for s in stores(f):
        if i.id in sources(f, s.args[0]) and base(strip(f.expr(s.args[1])))[0] != 'alloca':
            return True
    return any(r.args and i.id in sources(f, r.args[0]) for r in f.ret_insts())


def leaving(f, i, hit):
    """a way from the allocation to a return that passes none of hit, unless the pointer is known to be null on it"""
    me = strip(f.expr(['v', i.id]))
    mine = {strip(f.expr(d.args[0])) for d in hit} | {me}
    direct = {d.id for d in hit if strip(f.expr(d.args[0]))[0] != 'load'}
    spots = {d.id: strip(f.expr(d.args[0]))[1] for d in hit if d.id not in direct}      # deletions through a local variable
    into = {}
    for s in stores(f):
        a = strip(f.expr(s.args[1]))
        if any(maybe(a, x) for x in spots.values()):
            into[s.id] = (a, i.id in sources(f, s.args[0]))

    def after(insts, held):
        """locals that hold the pointer after the instructions, or None once it has been given back"""
        for x in insts:
            if x.id in direct or x.id in spots and any(maybe(h, spots[x.id]) for h in held):
                return None
            if x.id in into:
                a, is_it = into[x.id]
                held = held | {a} if is_it else held - {a}
        return held
    work, seen = [(i.blk.id, i.blk.insts.index(i) + 1, frozenset())], set()
    while work:
        b, k, held = work.pop()
        blk = f.blocks[b]
        held = after(blk.insts[k:], held)
        if held is None:
            continue
        if any(x.op == 'ret' for x in blk.insts[k:]):
            return b
        for s in blk.succs:
            lits = edge_literals(f, b, s)
            if any((a[0] == 'eq' and pol and strip(a[2]) == C(0) or a[0] == 'true' and not pol) and
                   (strip(a[1]) in mine and (strip(a[1])[0] != 'load' or any(maybe(h, strip(a[1])[1]) for h in held))) for a, pol in lits):
                continue
            if any(x.op == 'landingpad' for x in f.blocks[s].insts) or (s, held) in seen:
                continue
            seen.add((s, held))
            work.append((s, 0, held))
    return None


def form(P, R):
    R.rule('form', 'whatever is given back was obtained from the matching form of allocation', 45)
    O = Origins(P)
    for f in sorted(P.fns.values(), key=lambda f: f.name):
        if not own(f):
            continue
        for k, d in enumerate(sorted(deletions(f), key=lambda d: d.pos if hasattr(d, 'pos') else d.id)):
            e = strip(f.expr(d.args[0]))
            ks, want = O.of(f, e), frees_kind(d.callee)
            if ks:
                R.check(ks == {want}, 'form', '%s#%d' % (short(f.qual), k), '%s:%s' % (f.relfile(), d.line), '%s gives back %s with %s, although it may come from %s'
                        % (short(f.qual), show(e, f)[:60], KINDS[want], ' or '.join(sorted(ks - {want}))), fn=f)


def temporaries(P, R):
    R.rule('temporary', 'an allocation that a function gives back itself is given back on each of its normal ways out', 8)
    for f in sorted(P.fns.values(), key=lambda f: f.name):
        if not own(f):
            continue
        ds = deletions(f)
        if not ds:
            continue
        for i in f.all():
            if i.op not in ('call', 'invoke') or not NEW.match(i.callee or ''):
                continue
            hit = [d for d in ds if i.id in sources(f, d.args[0])]
            if not hit or kept(f, i):
                continue
            bad = leaving(f, i, hit)
            R.check(bad is None, 'temporary', '%s:%s' % (short(f.qual), i.callee), '%s:%s' % (f.relfile(), i.line),
                    '%s can return without giving back what it allocates' % short(f.qual), fn=f)
# (owner's end, members it gives back once) - what is null is not given back
ONE = [('Context::~Context', ['m_llvmContext', 'm_globalMemory']), ('WorkItem::~WorkItem', ['m_privateMemory', 'm_position']),
       ('WorkGroup::~WorkGroup', ['m_localMemory', 'm_barrier']), ('WorkGroup::clearBarrier', ['m_barrier']),
       ('FillBufferCommand::~FillBufferCommand', ['pattern']), ('FillImageCommand::~FillImageCommand', ['color']),
       ('NativeKernelCommand::~NativeKernelCommand', ['args']),
       ('Simulation::~Simulation', ['m_kernel', 'm_program', 'm_context']),
       ('ShadowFrame::~ShadowFrame', ['m_values']), ('ShadowValues::~ShadowValues', ['m_stack']),
       ('ShadowWorkItem::~ShadowWorkItem', ['m_memory', 'm_values']), ('ShadowWorkGroup::~ShadowWorkGroup', ['m_memory']),
       ('ShadowContext::~ShadowContext', ['m_globalMemory'])]
# (owner's end, container, what of each element is given back)
EACH = [('WorkGroup::~WorkGroup', 'm_workItems', ''), ('Kernel::~Kernel', 'm_values', 'data'), ('MemoryPool::~MemoryPool', 'm_blocks', ''),
        ('Program::clearInterpreterCache', 'm_interpreterCache', ''), ('InterpreterCache::~InterpreterCache', 'm_constants', 'data'),
        ('InterpreterCache::~InterpreterCache', 'm_constExpressions', ''),
        ('Program::deallocateProgramScopeVars', 'm_programScopeVars', 'data'),
        ('ShadowMemory::clear', 'm_map', ''), ('ShadowMemory::clear', 'm_map', 'data'),
        ('Context::unloadPlugins', 'm_plugins', ''), ('Memory::clear', 'm_memory', ''), ('Memory::clear', 'm_memory', 'data')]
# (owner's end, what it passes on to on every path)
CALLS = [('Memory::~Memory', 'Memory::clear'), ('Program::~Program', 'Program::clearInterpreterCache'),
         ('Program::~Program', 'Program::deallocateProgramScopeVars'), ('Program::allocateProgramScopeVars', 'Program::deallocateProgramScopeVars'),
         ('ShadowMemory::~ShadowMemory', 'ShadowMemory::clear'), ('Context::~Context', 'Context::unloadPlugins'),
         ('Uninitialized::~Uninitialized', 'ShadowContext::destroyMemoryPool')]


def destroyed(i):
    """the object a call gives back"""
    if i.op not in ('call', 'invoke') or not i.args:
        return False
    c = i.callee or i.d.get('vc') or ''
    return bool(DEL.match(c) or re.search(r'::~\w+$|::deleteValue$', c))


def end(P, name):
    fs = [f for q in (name, 'oclgrind::' + name) for f in P.get(q) if 'D0Ev' not in f.name]
    fs = [f for f in fs if 'D2Ev' in f.name] or fs
    return fs[0] if fs else P.one('oclgrind::' + name)


def owners(P, R):
    R.rule('end', 'the end of an owner gives back each object it owns exactly once, on every path', 18)
    for name, members in ONE:
        f = end(P, name)
        paths = [p for p in Flow(f).paths() if p.end[0] == 'ret']
        for m in members:
            e = ('load', ('fld', THIS, m))
            bad = None if paths else 'never returns'
            for p in paths:
                n = sum(1 for ev in p.events if ev[0] == 'call' and ev[3] and released(p, ev, m))
                if not n and not gone(p, m):
                    bad = bad or 'can end without giving back %s' % m
                if n > 1:
                    bad = bad or 'gives back %s %d times' % (m, n)
            R.check(bad is None, 'end', '%s.%s' % (name, m), floc(f), '%s %s' % (name, bad), fn=f)
    R.rule('elements', 'the end of an owner gives back each element of the containers it owns', 12)
    for name, cont, what in EACH:
        f = end(P, name)
        bad = each(f, cont, what)
        R.check(bad is None, 'elements', '%s.%s%s' % (name, cont, '.' + what if what else ''), floc(f), '%s %s' % (name, bad), fn=f)
    R.rule('chain', 'the end of an owner reaches the function that gives its memory back, on every path', 7)
    for name, callee in CALLS:
        f = end(P, name)
        hits = [i for i in f.all() if i.op in ('call', 'invoke') and (i.callee or '').endswith(callee)]
        bad = avoid(f, hits)
        R.check(not bad, 'chain', '%s>%s' % (name, callee), floc(f), '%s can end without %s' % (name, callee), fn=f)


def avoid(f, hits):
    """a return is reached from the entry without passing one of hits"""
    ids = {h.id for h in hits}
    work, seen = [0], {0}
    while work:
        b = work.pop()
        if any(i.id in ids for i in f.blocks[b].insts):
            continue
        if f.blocks[b].term.op == 'ret':
            return True
        for s in f.blocks[b].succs:
            if s not in seen:
                seen.add(s)
                work.append(s)
    return False


def member(e, m):
    e = strip(e)
    return e[0] == 'load' and e[1] == ('fld', THIS, m)


def released(p, ev, m):
    """the event is the deallocation of the object held by member m (its destructor alone does not count, unless virtual)"""
    c = ev[2] or ''
    if not member(ev[3][0], m):
        return False
    if DEL.match(c):
        return True
    return bool(re.search(r'::~\w+$', ev[1].d.get('vc') or ''))


def gone(p, m):
    for a, pol in p.lits:
        if a[0] == 'eq' and (member(a[1], m) and strip(a[2]) == C(0)) and pol or a[0] == 'true' and member(a[1], m) and not pol:
            return True
    return False


def each(f, cont, what):
    """None when every element of the container is given back by a walk that every path makes"""
    sites = []
    for i in f.all():
        if destroyed(i) and i.args:
            sites.append(i)
    lps = [lp for lp in f.loops if walks(f, lp, lambda x: x == ('fld', THIS, cont))]
    if not lps:
        return 'does not walk %s' % cont
    for lp in lps:
        here = [i for i in sites if i.blk.id in lp[1] and (('data' in show(strip(f.expr(i.args[0])), f)) == (what == 'data'))]
        if not here:
            continue
        w = every_iteration(f, lp, here, lambda lits: any(excused(f, a, pol, what) for a, pol in lits))
        if w is None:
            return None if not avoid(f, list(f.blocks[lp[0]].insts)) else 'does not always walk %s' % cont
        return 'can leave an element of %s' % cont
    return 'gives back no %s of %s' % (what or 'element', cont)


def excused(f, a, pol, what):
    """the element is null, is not owned (second member of a plugin entry), or its storage belongs to the host"""
    if a[0] == 'eq' and pol and strip(a[2]) == C(0):
        x = strip(a[1])
        return x[0] in ('load', 'phi')
    if a[0] == 'eq' and not pol and what == 'data' and strip(a[2]) == C(0):
        x = strip(a[1])
        return x[0] == 'and' and x[2] == C(8) and x[1][0] == 'load' and x[1][1][0] == 'fld' and x[1][1][2] == 'flags'
    return a[0] == 'true' and (not pol and strip(a[1])[0] == 'load')


# (function that ends a life, what it gives back: members the freed expression goes through / does not, condition under which it may keep it)
GIVES = [('Memory::deallocateBuffer', ('m_memory', 'data'), (), 'host'), ('Memory::deallocateBuffer', ('m_memory',), ('data',), ''),
         ('ShadowMemory::deallocate', ('m_map', 'data'), (), ''), ('ShadowMemory::deallocate', ('m_map',), ('data',), ''),
         ('ShadowContext::destroyShadowWorkItem', ('m_workSpace',), (), ''), ('ShadowContext::destroyShadowWorkGroup', ('m_workSpace',), (), ''),
         ('ShadowContext::destroyMemoryPool', ('memoryPool',), (), 'used'),
         ('RaceDetector::memoryDeallocated', ('m_globalMutexes',), (), 'global'),
         ('RaceDetector::workGroupComplete', ('m_state',), (), 'groups'), ('Kernel::setArgument', ('m_values',), (), 'new')]


def through(e):
    out = set()
    for x in subexprs(e):
        if x[0] == 'fld' and not x[2].startswith('#'):
            out.add(x[2])
        if x[0] == 'g':     # the first member of a thread-local record has the address of the record
            out |= {w for w in ('m_state', 'm_workSpace') if w in x[1]}
    return out


def may_keep(why, a, pol, seen):
    """the edge literal is a reason for which the object stays"""
    x = nz(a[1])
    if a[0] in ('eq', 'true'):
        zero = a[0] == 'eq' and strip(a[2]) == C(0)
        null = pol if a[0] == 'eq' else not pol
        if (zero or a[0] == 'true') and null and x[0] in ('load', 'phi') and x in seen:
            return True
        if why == 'host' and zero and not pol and x[0] == 'and' and x[2] == C(8) and 'flags' in through(x):
            return True
        if why == 'used' and zero and not pol and 'poolUsers' in through(x):
            return True
        if why == 'global' and a[0] == 'eq' and not pol and strip(a[2]) == C(1) and 'getAddressSpace' in show(x):
            return True
        if why == 'groups' and a[0] in ('true', 'eq') and x[0] == 'call' and re.search('::empty$', x[1]) and 'm_state' in through(x):
            return null
        if why == 'groups' and x[0] == 'call' and re.search('::size$', x[1]) and 'm_state' in through(x):
            return not null
        if why == 'new' and x[0] == 'call' and x[1].endswith('::count'):
            return null
        if why == 'new' and a[0] == 'eq' and any(y[0] == 'call' and y[1].endswith('::find') for y in (x, strip(a[2]))):
            return pol
    return False


def given(P, R):
    R.rule('given', 'the function that ends the life of a simulated or shadow object gives back its storage and its record on every path', 10)
    for name, yes, no, why in GIVES:
        f = end(P, name)
        hits = [i for i in f.all() if i.op in ('call', 'invoke') and i.args and (DEL.match(i.callee or '') or re.search(r'::~\w+$', i.d.get('vc') or ''))]
        hits = [i for i in hits if set(yes) <= through(f.expr(i.args[0])) and not set(no) & through(f.expr(i.args[0]))]
        seen = {nz(f.expr(i.args[0])) for i in hits}
        ids, bad = {h.id for h in hits}, not hits
        work, done = [0], {0}
        while work and not bad:
            b = work.pop()
            if any(i.id in ids for i in f.blocks[b].insts):
                continue
            bad = f.blocks[b].term.op == 'ret'
            for s in f.blocks[b].succs:
                if s in done or any(may_keep(why, a, pol, seen) for a, pol in edge_literals(f, b, s)):
                    continue
                done.add(s)
                work.append(s)
        R.check(not bad, 'given', '%s.%s' % (name, '.'.join(yes)), floc(f), '%s can end without giving back %s' % (name, '.'.join(yes)), fn=f)


ALLOCS = ('fld', ('load', ('fld', THIS, 'm_position')), 'allocations')
STACK = ('fld', ('load', ('fld', THIS, 'm_position')), 'callStack')
PRIV = ('load', ('fld', THIS, 'm_privateMemory'))


def name_of(ev):
    return short((ev[2] or ev[1].d.get('vc') or '').split('(')[0]).split('<')[0]


def top_of(e):
    e = strip(e)
    return e[0] == 'call' and e[1].endswith('::top') and strip(e[2]) == ALLOCS


def frames(P, R):
    R.rule('recorded', 'each private allocation made while a function runs is recorded in the innermost frame', 2)
    R.rule('frame', 'calling a function opens one frame, returning from it gives back every allocation of that frame and closes it', 4)
    W = 'oclgrind::WorkItem'
    for f in sorted(methods(P, W), key=lambda f: f.name):
        sites = [i for i in f.all() if i.op in ('call', 'invoke') and (i.callee or '').endswith('Memory::allocateBuffer')]
        if not sites or re.search(r'::(WorkItem|~WorkItem)$', f.qual):
            continue
        bad, n = None, 0
        for p in Flow(f, limit=6000).paths():
            if p.end[0] == 'unreachable':
                continue
            for ev in p.calls('allocateBuffer'):
                if strip(ev[3][0]) != PRIV:
                    continue
                n += 1
                v = ('call', ev[2]) + tuple(ev[3])
                if any(a[0] in ('true', 'eq') and pol == (a[0] == 'true') and strip(a[1])[0] == 'call' and strip(a[1])[1].endswith('::empty') and
                       strip(a[1])[2] == ALLOCS for a, pol in p.lits):
                    continue    # the frame of the kernel: given back with the memory of the work-item
                puts = [e for e in p.events if e[0] == 'call' and name_of(e) in ('push_back', 'push_front', 'emplace_back') and top_of(e[3][0])]
                puts = [e for e in puts if value(p, e) == strip(v)]
                if len(puts) != 1:
                    bad = bad or ('is not recorded in the frame' if not puts else 'is recorded %d times' % len(puts))
        if n or bad:
            R.check(bad is None, 'recorded', short(f.qual), floc(f), 'an allocation made by %s %s' % (short(f.qual), bad), fn=f)
    for f in sorted(methods(P, W), key=lambda f: f.name):
        if not any((i.callee or '').endswith(('::push', '::pop', '::emplace')) and strip(f.expr(i.args[0])) in (ALLOCS, STACK)
                   for i in f.all() if i.op in ('call', 'invoke') and i.args):
            continue
        bad = order = None
        for p in Flow(f, limit=6000).paths():
            n = [[name_of(e) for e in p.events if e[0] == 'call' and e[3] and strip(e[3][0]) == q and name_of(e) in ('push', 'pop', 'emplace')] for q in (STACK, ALLOCS)]
            if p.end[0] == 'ret':
                if n[0] != n[1] or len(n[0]) > 1:
                    bad = bad or 'changes the call stack by %s and the frames by %s' % (n[0], n[1])
            if p.end[0] != 'unreachable':
                popped = False
                for e in p.events:
                    if e[0] == 'call' and name_of(e) == 'pop' and strip(e[3][0]) == ALLOCS:
                        popped = True
                    if popped and e[0] == 'call' and name_of(e) in ('deallocateBuffer', 'top') and any(top_of(x) or strip(x) == ALLOCS for x in e[3]):
                        order = 'closes the frame before its allocations are given back'
                    if popped and e[0] == 'call' and name_of(e) == 'deallocateBuffer':
                        order = 'closes the frame before its allocations are given back'
        R.check(bad is None, 'frame', short(f.qual), floc(f), '%s %s' % (short(f.qual), bad), fn=f)
        pops = [i for i in f.all() if i.op in ('call', 'invoke') and (i.callee or '').endswith('::pop') and strip(f.expr(i.args[0])) in (ALLOCS, STACK)]
        if not pops:
            continue
        R.check(order is None, 'frame', short(f.qual) + ':order', floc(f), '%s %s' % (short(f.qual), order), fn=f)
        bad = 'gives back no allocation of the frame'
        for lp in f.loops:
            de = [i for i in f.all() if i.blk.id in lp[1] and (i.callee or '').endswith('Memory::deallocateBuffer') and strip(f.expr(i.args[0])) == PRIV]
            if not de:
                continue
            if walks(f, lp, lambda x: top_of(x)):
                bad = None if every_iteration(f, lp, de) is None else 'can leave an allocation of the frame'
                el = [strip(f.expr(i.args[1])) for i in de]
                if any(not mentions(e, lambda x: x[0] == 'phi') or mentions(e, lambda x: x[0] in ('add', 'sub')) for e in el):
                    bad = 'gives back something else than the recorded addresses'
                hd = f.blocks[lp[0]].insts
                if bad is None and any(reach_without(f, 0, [q], list(hd)) is not None for q in pops if strip(f.expr(q.args[0])) == ALLOCS):
                    bad = 'can close a frame without giving back its allocations'
            else:   # drained from one end
                bad = drained(f, lp, de) if bad else bad
        R.check(bad is None, 'frame', short(f.qual) + ':all', floc(f), '%s %s' % (short(f.qual), bad), fn=f)


def drained(f, lp, de):
    """the loop runs until the frame is empty, giving back the element it removes"""
    lits = [x for b in lp[1] for s in f.blocks[b].succs if s not in lp[1] for x in edge_literals(f, b, s)]
    if not any(a[0] in ('true', 'eq') and strip(a[1])[0] == 'call' and re.search('::(empty|size)$', strip(a[1])[1]) or
               a[0] == 'eq' and any(top_of(y) for x in a[1:3] for y in subexprs(strip(x))) for a, _ in lits):
        return 'may stop before the frame is empty'
    take = [i for i in f.all() if i.blk.id in lp[1] and (i.callee or '').endswith(('::pop_front', '::pop_back', '::erase'))]
    return None if take and every_iteration(f, lp, de) is None and every_iteration(f, lp, take) is None else 'can leave an allocation of the frame'


def value(p, e):
    """value handed to push_back by reference (or by value)"""
    x = e[3][1]
    r = p.at(e, x, 8)
    return strip(r) if r is not None else strip(x)


def variables(P, R):
    R.rule('variables', 'each program-scope variable allocated for a program is recorded with it, and the end of the program (or a rebuild) gives each back and forgets it', 4)
    V = ('fld', THIS, 'm_programScopeVars')
    f = end(P, 'Program::allocateProgramScopeVars')
    bad, n = None, 0
    for p in Flow(f, limit=6000).paths():
        if p.end[0] not in ('iter', 'ret'):
            continue
        al = p.calls('allocateBuffer')
        for ev in al:
            n += 1
            v = strip(('call', ev[2]) + tuple(ev[3]))
            k = p.events.index(ev)
            later = p.events[k:]
            setp = [e for e in later if e[0] == 'call' and name_of(e) == 'setPointer' and strip(e[3][1]) == v]
            puts = [e for e in later if e[0] == 'call' and e[3] and strip(e[3][0]) == V and re.search('operator|insert|emplace', name_of(e))]
            if not puts:
                bad = bad or 'allocates a variable that it does not record'
            elif not setp:
                bad = bad or 'records a variable without its address'
            if not any(e[0] == 'call' and name_of(e) == 'deallocateProgramScopeVars' for e in p.events[:k]):
                bad = bad or 'allocates variables while the previous ones are still recorded'
    R.check(bad is None and n, 'variables', 'allocate', floc(f), '%s %s' % (f.qual, bad or 'allocates nothing'), fn=f)
    f = end(P, 'Program::deallocateProgramScopeVars')
    de = [i for i in f.all() if (i.callee or '').endswith('Memory::deallocateBuffer')]
    lps = [lp for lp in f.loops if walks(f, lp, lambda x: x == V)]
    bad = 'does not walk the variables' if not lps else None
    for lp in lps:
        here = [i for i in de if i.blk.id in lp[1]]
        if not here or every_iteration(f, lp, here):
            bad = 'can leave a variable allocated'
        for i in here:
            a = strip(f.expr(i.args[1]))
            if not (a[0] == 'call' and a[1].endswith('TypedValue::getPointer') and strip(a[3]) == C(0) and mentions(a[2], lambda x: x[0] == 'phi')):
                bad = bad or 'gives back something else than the recorded address'
        if avoid(f, list(f.blocks[lp[0]].insts)):
            bad = bad or 'does not always walk the variables'
    R.check(bad is None, 'variables', 'give back', floc(f), '%s %s' % (f.qual, bad), fn=f)
    clr = [i for i in f.all() if i.op in ('call', 'invoke') and i.args and (i.callee or '').endswith(('::clear', '::swap', '::operator=')) and strip(f.expr(i.args[0])) == V]
    R.check(not avoid(f, clr), 'variables', 'forget', floc(f), '%s keeps variables it has given back' % f.qual, fn=f)
    f = end(P, 'Program::clearInterpreterCache')
    clr = [i for i in f.all() if i.op in ('call', 'invoke') and i.args and (i.callee or '').endswith(('::clear', '::swap', '::operator=')) and
           strip(f.expr(i.args[0])) == ('fld', THIS, 'm_interpreterCache')]
    R.check(not avoid(f, clr), 'variables', 'cache', floc(f), '%s keeps caches it has deleted' % f.qual, fn=f)
    R.rule('drained', 'a container that owns what it holds is emptied at the end of its owner, giving back each element it removes', 2)
    for name, cont, rel in (('KernelInvocation::~KernelInvocation', 'm_runningGroups', r'::~WorkGroup$'), ('ShadowValues::~ShadowValues', 'm_stack', r'::popFrame$|::~ShadowFrame$|operator delete')):
        f = end(P, name)
        Q = ('fld', THIS, cont)
        bad = 'leaves elements of %s' % cont
        for lp in f.loops:
            de = [i for i in f.all() if i.blk.id in lp[1] and re.search(rel, i.d.get('vc') or i.callee or '')]
            if de and (walks(f, lp, lambda x: x == Q) or any(mentions(nz(x), lambda y: y == Q) for b in lp[1] for s in f.blocks[b].succs if s not in lp[1]
                                                             for a, _ in edge_literals(f, b, s) for x in a[1:])) and \
                    every_iteration(f, lp, de, lambda lits: any(excused(f, a, pol, '') for a, pol in lits)) is None and not avoid(f, list(f.blocks[lp[0]].insts)):
                bad = None
        R.check(bad is None, 'drained', name, floc(f), '%s %s' % (f.qual, bad), fn=f)


CUR = 'workerState'      # the state of a worker thread


def groups(R):
    """the group a worker runs, through exceptions as well"""
    P = build.program(['KernelInvocation'], ('--keep-eh',))
    R.rule('group', 'a work-group a worker creates is destroyed before the worker ends, whatever its kernel does, and a group another one is preferred to is '
           'kept for later', 3)

    f = P.one('oclgrind::KernelInvocation::runWorker')
    where = {strip(f.expr(s.args[1])) for s in stores(f) if isnew(strip(f.expr(s.args[0]))) and CUR in repr(f.expr(s.args[1]))}

    def cur(e):
        return strip(e) in where
    news = [s for s in stores(f) if cur(f.expr(s.args[1])) and (isnew(strip(f.expr(s.args[0]))) or strip(f.expr(s.args[0]))[0] == 'call')]
    dels = {i.id for i in f.all() if i.op in ('call', 'invoke') and re.search(r'::~WorkGroup$', i.d.get('vc') or i.callee or '') and
            strip(f.expr(i.args[0]))[0] == 'load' and cur(strip(f.expr(i.args[0]))[1])}
    bad = None if news and dels else 'creates or destroys no group'
    for s in news:
        work, seen = [(s.blk.id, s.blk.insts.index(s) + 1)], set()
        while work and not bad:
            b, k = work.pop()
            blk = f.blocks[b]
            if any(x.id in dels or x in news for x in blk.insts[k:]):
                if any(x in news for x in blk.insts[k:] if x.id not in dels) and not any(x.id in dels for x in blk.insts[k:]):
                    bad = 'replaces the group it runs without destroying it'
                continue
            if blk.term.op == 'ret':
                bad = 'can end without destroying the group it runs'
            for t in blk.succs:
                lits = edge_literals(f, b, t)
                if t in seen or any((a[0] == 'eq' and pol and strip(a[2]) == C(0) or a[0] == 'true' and not pol) and strip(a[1])[0] == 'load' and
                                    cur(strip(a[1])[1]) for a, pol in lits):
                    continue
                seen.add(t)
                work.append((t, 0))
    R.check(bad is None, 'group', 'runWorker', floc(f), '%s %s' % (f.qual, bad), fn=f)
    # a group that is deleted is not the current one any more
    bad = None
    for d in [i for i in f.all() if i.id in dels]:
        clr = [s for s in stores(f) if cur(f.expr(s.args[1]))]
        use = [i for i in f.all() if i.op in ('call', 'invoke') and i.args and not i.id == d.id and
               any(o[0] == 'v' and strip(f.expr(o))[0] == 'load' and cur(strip(f.expr(o))[1]) for o in i.args)] + f.ret_insts()
        if reach_without(f, d, use, clr) is not None:
            bad = 'leaves a destroyed group as the current one'
    R.check(bad is None, 'group', 'runWorker:current', floc(f), '%s %s' % (f.qual, bad), fn=f)
    f = P.one('oclgrind::KernelInvocation::switchWorkItem')
    bad, n = None, 0
    Q = ('fld', THIS, 'm_runningGroups')
    for p in Flow(f, limit=6000).paths():
        if p.end[0] != 'ret':
            continue
        st = [ev for ev in p.stores() if cur(ev[2])]
        if not st:
            continue
        n += 1
        v = strip(st[-1][3])
        if any(a[0] == 'eq' and pol and v in (strip(a[1]), strip(a[2])) and any(x[0] == 'load' and cur(x[1]) for x in (strip(a[1]), strip(a[2]))) for a, pol in p.lits):
            continue    # the same group
        old = [e for e in p.events if e[0] == 'call' and name_of(e) in ('push_back', 'push_front') and strip(e[3][0]) == Q]
        if len(old) != 1 or not (value(p, old[0])[0] == 'load' and cur(value(p, old[0])[1]) or value(p, old[0]) not in [strip(ev[3]) for ev in st]):
            bad = bad or 'drops the group that was running'
        if not isnew(v) and not any(e[0] == 'call' and name_of(e) in ('erase', 'remove') and strip(e[3][0]) == Q for e in p.events):
            bad = bad or 'runs a group that stays in the list of suspended ones'
    R.check(bad is None and n, 'group', 'switchWorkItem', floc(f), '%s %s' % (f.qual, bad or 'never switches'), fn=f)


def objects(P, R):
    only = Only(R, 'release', 'own')
    R.rule('release', 'releasing the last reference destroys the object, and only then', 7)
    R.rule('own', 'destroying an API object frees every allocation it owns exactly once, simulated memory included', 8)
    for t in c18.CLASSES:
        name = 'clRelease' + {'cl_mem': 'MemObject', 'cl_command_queue': 'CommandQueue'}.get(t, t[3:].capitalize())
        f = P.get(name)
        need(len(f) == 1, name)
        c18.release(P, only, f[0], t, {})


def run(P, R):
    form(P, R)
    temporaries(P, R)
    owners(P, R)
    given(P, R)
    frames(P, R)
    variables(P, R)
    groups(R)
    objects(P, R)
