"""C14: three whole-program questions about the code a worker thread can run.  (1) Every manual mutex acquisition is followed
along every path of its function (correlated branches included) to a release of the same mutex, with no call in between
that can raise a fatal error; a mutex is never released unheld or taken twice.  (2) The graph "taken while held" between
mutexes is acyclic.  (3) The functions reachable from KernelInvocation::runWorker (direct calls, virtual calls by method,
the builtin tables; callbacks of plugins that declare themselves not thread safe excluded) are searched for writes to
objects all workers share - globals that are not thread-local or atomic, and members of plugins, contexts, kernels,
invocations and programs - and each written object must have one mutex that is held (in the function or by every
caller) at every write and read made on a worker.  The worker count is 1 whenever a plugin is not thread safe."""
import re
from common import *
from flow import Flow
import c12

TECHNIQUE = 'path-sensitive lock typestate, lock-order graph and lockset analysis of shared state over the worker call graph'
TUS = ['Context', 'Plugin', 'Logger', 'MemCheck', 'RaceDetector', 'InstructionCounter', 'Uninitialized',
       'InteractiveDebugger', 'Memory', 'WorkItem', 'WorkItemBuiltins', 'WorkGroup', 'Kernel', 'KernelInvocation',
       'Program', 'common']
OPTS = ('--extra-inline', r'ShadowMemory::(un)?lock$|RaceDetector::(insert\b|insertKernelRace)|RaceDetector::MemoryAccess::')
NOTE = ('The bytes of simulated global memory and of its shadow are shared by design (the kernel is responsible for them, and '
        'C13 covers atomics); only the simulator\'s own state is judged.  Exceptions of the C++ library (bad_alloc, at()) are not '
        'considered when looking for leaked locks.')
ASSUMPTIONS = ['the types of the operands of an executed instruction have a size, so getTypeSize does not fail on them', 'plugins outside the repository follow the same rules', 'LLVM and libstdc++ const accessors do not write shared state']
SHARED = ['Context', 'Kernel', 'KernelInvocation', 'Program', 'InterpreterCache', 'ShadowContext']
READS = set('size empty begin end at find count front back operator[] cbegin cend c_str str data length compare operator-> '
            'operator* get_allocator capacity rbegin rend key_comp lower_bound upper_bound good fail getloc'.split())
REFS = {'at', 'operator[]', 'front', 'back', 'begin', 'find', 'operator->', 'operator*', 'operator++'}
DATA = {'store', 'load', 'atomic', 'atomicCmpxchg', 'lock', 'unlock', 'getPointer', 'isAddressValid', 'extractBuffer',
        'extractOffset', 'getBuffer', 'getAddressSpace', 'mapBuffer'}
MUTATE = {'allocate', 'allocateBuffer', 'deallocate', 'deallocateBuffer', 'createHostBuffer', 'clear', 'freeUnusedBuffers'}


def plain(n):
    n = re.sub(r'\[abi:.*?\]', '', n or '')
    n = n.split('(')[0]
    d, out = 0, ''
    for ch in n:
        if ch == '<' and not out.endswith('operator') and not out.endswith('operator<'):
            d += 1
        elif ch == '>' and d:
            d -= 1
        elif not d:
            out += ch
    return out.split('::')[-1]


def cls(f):
    q = re.sub(r'<.*?>', '', f.qual).split('::')
    return '::'.join(q[1:-1]) if len(q) >= 3 and q[0] == 'oclgrind' else None


def subclasses(P):
    r = set()
    for g in P.globals:
        m = re.match(r'_ZTVN8oclgrind(\d+)(\w+)E$', g)
        if m:
            r.add(m.group(2))
    return {c for c in r if P.get('oclgrind::%s::%s' % (c, c)) and any(
        (i.callee or '') == 'oclgrind::Plugin::Plugin' for f in P.get('oclgrind::%s::%s' % (c, c)) for i in f.calls)}


def unsafe(P, c):
    fs = P.get('oclgrind::%s::isThreadSafe' % c)
    if not fs:
        return False
    return all(p.ret == C(0) for f in fs for p in Flow(f).paths())


class Graph:
    def __init__(self, P, plugins, skip):
        self.P = P
        self.byname = {}
        for f in P.fns.values():
            self.byname.setdefault(plain(f.qual), []).append(f)
        self.plugins = plugins
        self.cache = {}
        self.skip = skip

    def callees(self, f):
        """[(call, function)] - virtual calls reach every override"""
        if f not in self.cache:
            r = []
            for c in f.calls:
                if 'vc' in c.d:
                    base, m = re.sub(r'<.*?>', '', c.callee).rsplit('::', 1)
                    for g in self.byname.get(m, []):
                        k = cls(g)
                        if k and (base == 'oclgrind::' + k or base == 'oclgrind::Plugin' and k in self.plugins | {'Plugin'}):
                            r.append((c, g))
                elif c.callee_link in self.P.fns:
                    r.append((c, self.P.fns[c.callee_link]))
            self.cache[f] = r
        return self.cache[f]

    def at(self, f, i):
        if (f, 'at') not in self.cache:
            d = {}
            for c, g in self.callees(f):
                d.setdefault(c.id, []).append(g)
            self.cache[f, 'at'] = d
        return self.cache[f, 'at'].get(i.id, ())

    def reach(self, roots):
        seen, work = set(), list(roots)
        while work:
            f = work.pop()
            if f in seen or cls(f) in self.skip:
                continue
            seen.add(f)
            work += [g for _, g in self.callees(f)]
        return seen

    def closure(self, has):
        """functions from which a function satisfying `has` can be called"""
        bad = {f for f in self.P.fns.values() if has(f)}
        while True:
            new = {f for f in self.P.fns.values() if f not in bad and any(g in bad for _, g in self.callees(f))}
            if not new:
                return bad
            bad |= new


def origin(f, o, seen=None):
    """object an operand points into: ('local',) | ('g', name) | ('this',) | ('arg', n) | ('tls',) | ('call', name) | None, plus
    the first member selected in it"""
    fields = []
    seen = set() if seen is None else seen
    while True:
        if o[0] != 'v':
            e = f.expr(o)
            if e[0] == 'arg':
                return ('this',) if e == THIS else e, (fields[-1] if fields else None)
            if e[0] == 'g':
                return e, (fields[-1] if fields else None)
            while e[0] in ('cgep', 'fld', 'idx', 'ptr'):
                if e[0] == 'fld':
                    fields.append(e[2])
                e = e[1]
            return (e if e[0] == 'g' else None), (fields[-1] if fields else None)
        i = f.insts[o[1]]
        if i.id in seen:
            return None, None
        seen.add(i.id)
        if i.op == 'gep':
            e = f.expr(o)
            if e[0] == 'fld':
                fields.append(e[2])
            o = i.args[0]
        elif i.op == 'load':
            o = i.args[0]
            if o[0] == 'v' and f.insts[o[1]].op == 'alloca':
                # a spilled pointer: follow what was stored
                ss = [s for s in stores(f) if s.args[1] == o]
                if len(ss) == 1:
                    o = ss[0].args[0]
                    continue
                return ('local',), None
        elif i.op in ('zext', 'sext', 'bitcast', 'inttoptr', 'ptrtoint', 'add', 'extractvalue'):
            o = i.args[0]
        elif i.op == 'alloca':
            return ('local',), None
        elif i.op in ('phi', 'select'):
            xs = [x for x, _ in i.args] if i.op == 'phi' else list(i.args[1:])
            rs = [origin(f, x, seen) for x in xs]
            rs = [r for r in rs if r[0]]
            for r in rs:
                if r[0][0] in ('g', 'this'):
                    return r[0], (fields[-1] if fields else r[1])
            return (rs[0][0], rs[0][1]) if rs else (None, None)
        elif i.op in ('call', 'invoke'):
            n = i.callee or ''
            if n.startswith('llvm.threadlocal') or n.startswith('TLS wrapper'):
                return ('tls',), None
            if plain(n) in REFS and i.args:
                o = i.args[0]
                continue
            return ('call', n), None
        else:
            return None, None


def fieldkey(f, org, fld_, shared):
    if org is None:
        return None
    if org[0] == 'this' and cls(f) in shared:
        return '%s::%s' % (cls(f), fld_) if fld_ else None
    if org[0] == 'g':
        return org[1]
    return None


def bank(e):
    """one mutex of many, chosen by an index"""
    return mentions(e, lambda x: x[0] in ('idx', 'ptr') or x[0] == 'call' and plain(x[1]) in REFS)


def element(f, o):
    """the operand points into an element of a container"""
    return mentions(nz(f.expr(o)), lambda x: x[0] in ('idx', 'ptr') or x[0] == 'call' and plain(x[1]) in REFS)


def held(ls, f, o):
    """names of the mutexes among ls that can protect the object at operand o: a mutex of a bank protects elements only"""
    el = element(f, o)
    return frozenset(lockname(x) for x in ls if el or not bank(x))


def lockname(e):
    """identity of a mutex (bank): the global or member it lives in"""
    r = e
    while True:
        if r[0] in ('idx', 'ptr', 'cgep', 'load'):
            r = r[1]
        elif r[0] == 'call' and len(r) > 2 and plain(r[1]) in REFS:
            r = r[2]
        else:
            break
    if r[0] == 'fld':
        return r[2]
    if r[0] == 'g':
        return r[1]
    return show(r)


def order(P, G):
    """{(held, taken): call site}"""
    takes = {}
    for f in P.fns.values():
        takes[f] = {lockname(x[1]) for x in lock_events(f).values() if x[0] == '+'}
    total = {f: set(s) for f, s in takes.items()}
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            for _, g in G.callees(f):
                if not total[g] <= total[f]:
                    total[f] |= total[g]
                    ch = True
    edges = {}
    nlocks = set()
    for f in P.fns.values():
        ev = lock_events(f)
        if not ev:
            continue
        ml = may_lockset(f)
        for i in f.calls:
            held = {lockname(x) for x in ml.get(i.id, ())}
            if i.id in ev:
                nlocks.add(lockname(ev[i.id][1]))
                if ev[i.id][0] == '+':
                    for h in held:
                        edges.setdefault((h, lockname(ev[i.id][1])), (f, i))
        for i, g in G.callees(f):
            for h in {lockname(x) for x in ml.get(i.id, ())}:
                for t in total[g]:
                    edges.setdefault((h, t), (f, i))
    return nlocks, edges


def postdom(f, srcs):
    """nearest block every continuing path from srcs goes through (dead ends ignored), or None"""
    dead = {b.id for b in f.blocks if b.term.op == 'unreachable'}
    # blocks that can only end in a dead end
    live = {b.id for b in f.blocks if b.term.op in ('ret', 'resume')}
    work = list(live)
    while work:
        b = work.pop()
        for p in f.blocks[b].preds:
            if p not in live and p not in dead:
                live.add(p)
                work.append(p)

    def reachwo(b, cut):
        seen, w = set(), [b]
        while w:
            x = w.pop()
            if x in seen or x == cut or x not in live:
                continue
            seen.add(x)
            w += f.blocks[x].succs
        return seen
    cands = [b for b in live if all(not any(f.blocks[x].term.op in ('ret', 'resume') for x in reachwo(s, b)) for s in srcs)
             and b not in srcs]
    # nearest: not reachable from another candidate only ... pick the one that reaches all others
    for b in cands:
        if all(c == b or c in reachwo(b, None) for c in cands):
            if not any(c != b and b in reachwo(c, None) for c in cands):
                return b
    for b in cands:
        if all(b not in reachwo(c, None) or c == b for c in cands):
            return b
    return None


def mapped(e, m):
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == 'arg' and len(e) == 2:
        return m.get(e[1], ('opaque', e[1]))
    return tuple(mapped(x, m) if isinstance(x, tuple) else x for x in e)


def refuted(lits, known):
    for a, p in lits:
        for b, q in known:
            if a == b and p != q:
                return True
            if a[0] == b[0] == 'eq' and p and q and a[1] == b[1] and a[2][0] == b[2][0] == 'c' and a[2] != b[2]:
                return True
            if a[0] == 'in' and b[0] == 'eq' and p and q and a[1] == b[1] and b[2][0] == 'c' and b[2][1] not in a[2]:
                return True
    return False


def raises(G, f, m, known, throws, stack):
    """can f, called with parameters bound by m under the literals `known`, raise an error?"""
    if f in stack or len(stack) > 8:
        return f not in stack
    if short(f.qual) in ('getTypeSize', 'getValueSize'):
        return False                               # the operands of an executed instruction have a size
    for i in f.calls:
        direct = (i.callee or '') == '__cxa_throw'
        gs = [g for g in G.at(f, i) if g in throws]
        if not direct and not gs:
            continue
        if i.blk.id not in f.idom:
            continue
        here = [(nz_atom(mapped(a, m)), p) for a, p in facts(f, i.blk.id)]
        if refuted(here, known):
            continue
        if direct:
            return True
        for g in gs:
            mm = {k: nz(mapped(x, m)) for k, x in zip(pnames(g), (nz(f.expr(o)) for o in i.args))}
            if raises(G, g, mm, list(known) + here, throws, stack + (f,)):
                return True
    return False


def nz_atom(a):
    return (a[0],) + tuple(nz(x) if isinstance(x, tuple) and a[0] != 'in' else x for x in a[1:])


def release(P, R, G):
    R.rule('release', 'a mutex taken by hand is released exactly once on every path (correlated conditions included) before '
           'the function ends or raises an error, and is never taken while this path already holds it', 5)
    R.rule('quiet', 'nothing called while a mutex is held by hand can raise a fatal error, which would skip the release', 3)

    def direct(f):
        return any((c.callee or '') == '__cxa_throw' for c in f.calls)
    throws = G.closure(direct)
    for f in sorted(P.fns.values(), key=lambda x: x.qual):
        if f.qual.startswith('std::'):
            continue
        man = [i for i in f.calls if (i.callee or '') in ('std::mutex::lock', 'std::mutex::unlock', 'std::mutex::try_lock')]
        if not man:
            continue
        acq = [i for i in man if not i.callee.endswith('::unlock')]
        if not acq:
            R.bad('release', short(f.qual) + ':unheld', man[0].loc(), 'releases a mutex it never took', fn=f)
            continue
        for n, a in enumerate(acq):
            key = lockname(nz(args(f, a)[0]))
            rel = [i for i in man if i.callee.endswith('::unlock')]
            start = f.idom.get(a.blk.id, a.blk.id) if isinstance(f.idom, dict) else f.idom[a.blk.id]
            if start is None or start < 0:
                start = a.blk.id
            stop = postdom(f, [a.blk.id] + [r.blk.id for r in rel])
            fl = Flow(f, limit=20000)
            msg = loc = None
            try:
                ps = fl.paths(start=start, stop=(stop,) if stop is not None and stop != start else ())
            except Exception as e:
                need(False, '%s: %s' % (f.qual, e))
            seen = 0
            qmsg = qloc = None
            for p in ps:
                held = None
                for e in p.events:
                    if e[0] != 'call':
                        continue
                    c = e[2] or ''
                    if c in ('std::mutex::lock', 'std::mutex::unlock') and lockname(nz(e[3][0])) == key:
                        m = nz(e[3][0])
                        if c.endswith('::lock'):
                            if held is not None:
                                msg, loc = 'takes the mutex again while holding it', e[1].loc()
                            held = m
                            seen += e[1] is a
                        else:
                            if held is None:
                                msg, loc = 'releases a mutex this path does not hold', e[1].loc()
                            elif held != m:
                                msg, loc = 'releases another mutex of the bank than it took', e[1].loc()
                            held = None
                    elif held is not None:
                        if c == '__cxa_throw':
                            msg, loc = 'raises an error with the mutex held', e[1].loc()
                        for g in G.at(f, e[1]):
                            if g in throws and raises(G, g, dict(zip(pnames(g), (nz(x) for x in e[3]))), p.lits, throws, ()):
                                qmsg, qloc = 'calls %s, which can raise a fatal error, with the mutex held' % short(g.qual), e[1].loc()
                if held is not None and (p.end[0] in ('ret', 'stop') or p.end[0] == 'iter' and any(
                        l[0] == p.end[1] and a.blk.id in l[1] for l in f.loops)):
                    msg, loc = 'leaves the region with the mutex still held', a.loc()
            R.check(not msg, 'release', '%s:%d' % (short(f.qual), n), loc or a.loc(), msg or '', fn=f)
            R.check(not qmsg, 'quiet', '%s:%d' % (short(f.qual), n), qloc or a.loc(), qmsg or '', fn=f)
    # deferred guards must be released by their own destructor: nothing to check


def writes(f, i, G, summ):
    """[(operand written through, is read-only access)] of an instruction"""
    if i.op == 'store':
        return [(i.args[1], True)]
    if i.op == 'load':
        return [(i.args[0], False)]
    if i.op == 'atomicrmw' or i.op == 'cmpxchg':
        return []
    if i.op not in ('call', 'invoke'):
        return []
    n = i.callee or ''
    if n.startswith('llvm.mem'):
        r = [(i.args[0], True)]
        if not n.startswith('llvm.memset'):
            r.append((i.args[1], False))
        return r
    if not i.args:
        return []
    if n.startswith('std::') or n.startswith('__gnu_cxx::'):
        if n.startswith('std::mutex') or n.startswith('std::__atomic') or n.startswith('std::atomic') or re.match(
                r'std::(lock_guard|unique_lock|scoped_lock)', n):
            return []
        p = plain(n)
        head = n.split('<')[0]
        if p in READS or '::' not in n[5:] or head in ('std::find', 'std::sort') and False:
            return [(i.args[0], False)]
        if not is_member(n):
            if p.startswith('operator<<') and i.args:
                return [(i.args[0], True)]
            return [(x, False) for x in i.args if x[0] == 'v' or x[0] == 'a']
        return [(i.args[0], True)]
    r = []
    for g in G.at(f, i):
        for k in summ.get(g, ()):
            if k < len(i.args):
                r.append((i.args[k], True))
    return r


def is_member(n):
    """std::X<..>::m rather than std::f<..>"""
    d, parts = 0, ['']
    k = 0
    while k < len(n):
        ch = n[k]
        if n.startswith('operator', k):
            parts[-1] += n[k:]
            break
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0 and n.startswith('::', k):
            parts.append('')
            k += 2
            continue
        elif d == 0:
            parts[-1] += ch
        k += 1
    parts = [p for p in parts if p not in ('std', '__cxx11', '__gnu_cxx')]
    return len(parts) >= 2 and not parts[0] == 'operator'


def summaries(P, G):
    """{function: parameter positions it writes through (members of this excluded)}"""
    s = {f: set() for f in P.fns.values()}
    calls_ = {}
    for f in s:
        if f.qual.startswith('std::'):
            continue
        names = pnames(f)
        out = calls_[f] = []
        for i in f.all():
            if i.blk.id not in f.idom:
                continue
            gs = G.at(f, i) if i.op in ('call', 'invoke') and not (i.callee or '').startswith(('std::', '__gnu_cxx')) else ()
            todo = [(None, o) for o, w in writes(f, i, G, {}) if w] if not gs else [(k, o) for k, o in enumerate(i.args)]
            for k, o in todo:
                org, _ = origin(f, o)
                if org and org[0] == 'arg' and org[1] in names:
                    if k is None:
                        s[f].add(names.index(org[1]))
                    else:
                        out.append((gs, k, names.index(org[1])))
    ch = True
    while ch:
        ch = False
        for f, out in calls_.items():
            for gs, k, n in out:
                if n not in s[f] and any(k in s.get(g, ()) for g in gs):
                    s[f].add(n)
                    ch = True
    return s


def run(P, R):
    plugins = subclasses(P)
    need(len(plugins) >= 6, 'plugins not found: %s' % plugins)
    skip = {c for c in plugins if unsafe(P, c)}
    full = Graph(P, plugins, set())
    G = Graph(P, plugins, skip)
    release(P, R, full)

    # ------------------------------------------------------------- order
    R.rule('order', 'no mutex can be taken while itself, or a mutex that can be taken under it, is held', 6)
    locks, edges = order(P, full)
    succ = {}
    for (a, b), w in edges.items():
        succ.setdefault(a, set()).add(b)

    def reaches(a, b):
        seen, w = set(), [a]
        while w:
            x = w.pop()
            for y in succ.get(x, ()):
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    w.append(y)
        return False
    for l in sorted(locks):
        w = next((w for (a, b), w in sorted(edges.items(), key=repr) if a == l and (b == l or reaches(b, l))), None)
        R.check(w is None, 'order', l, w[1].loc() if w else 'src', 'can be waited for while it is held', fn=w and w[0])

    # ------------------------------------------------------------- shared state
    R.rule('shared', 'state shared between workers and written on a worker is accessed on workers only with one common mutex held', 6)
    R.rule('table', 'no allocation is added to or removed from the memory all workers share while workers run', 1)
    shared = set(SHARED) | plugins
    roots = P.get('oclgrind::KernelInvocation::runWorker') + [f for f in P.fns.values()
             if cls(f) == 'WorkItemBuiltins' and pnames(f)[:1] == ['workItem']]
    reach = G.reach(roots)
    need(len(reach) > 300, 'worker call graph is too small: %d' % len(reach))
    summ = summaries(P, G)
    # locks held on entry (by every worker-reachable caller)
    entry = {f: None for f in reach}
    for f in roots:
        entry[f] = frozenset()
    ch = True
    while ch:
        ch = False
        for f in reach:
            if entry[f] is None:
                continue
            ls = lockset(f)
            for i, g in G.callees(f):
                if g not in entry or i.blk.id not in f.idom:
                    continue
                have = frozenset(lockname(x) for x in ls.get(i.id, ()) if not bank(x)) | entry[f]
                new = have if entry[g] is None else entry[g] & have
                if new != entry[g]:
                    entry[g] = new
                    ch = True
    # containers that grow on workers
    acc = {}
    for f in sorted(reach, key=lambda x: x.qual):
        if f.qual.startswith('std::') or '::operator' in f.qual and False:
            continue
        ls = lockset(f)
        own = plain(f.qual) in shared or plain(f.qual).startswith('~')
        guards = [i for i in f.calls if (i.callee or '') == '__cxa_guard_acquire']
        for i in f.all():
            if i.blk.id not in f.idom:
                continue
            for o, w in writes(f, i, G, summ):
                org, fl = origin(f, o)
                k = fieldkey(f, org, fl, shared)
                if not k or own and org[0] == 'this':
                    continue
                if w and guards and any(f.dominates(g, i) for g in guards):
                    continue                       # one-time initialisation of a local static
                acc.setdefault(k, []).append((f, i, w, held(ls.get(i.id, ()), f, o) | (entry[f] or frozenset()), element(f, o)))
    GL = ('and it is Global',)
    written = 0
    for k in sorted(acc):
        sites = acc[k]
        live = [s for s in sites if not hostonly(s[0], s[1])]
        for part in ('', '[]'):
            ws = [s for s in live if s[2] and s[4] == bool(part) and not never(P, full, skip, s[0], s[1], k)]
            if not ws:
                continue
            written += 1
            common = frozenset.intersection(*[s[3] for s in ws])
            bad = next((s for s in ws if not s[3]), None)
            if bad is None and not common:
                bad = ws[-1]
            if not R.check(bad is None, 'shared', k + part, bad[1].loc() if bad else ws[0][1].loc(),
                           '%s is written on a worker thread %s' % (nice(k) + part, 'without a lock' if bad and not bad[3] else
                                                                     'under different locks'), fn=bad[0] if bad else ws[0][0]):
                continue
            for f, i, w, hs, el in live:
                if not w and not hs & common and (el or not part):
                    R.bad('shared', k + part + ':read', i.loc(), '%s is read on a worker thread without the lock its writers '
                          'hold' % (nice(k) + part), f)
                    break
    R.rule('print', 'LLVM is asked to print an instruction on a worker only with a mutex held (printing changes shared tables '
           'of LLVM)', 1)
    bad = None
    n = 0
    for f in sorted(reach, key=lambda x: x.qual):
        for i in f.calls:
            if re.search(r'(^|::)dumpInstruction$|llvm::(Value|Instruction|Module|Function)::(print|dump)$', i.callee or '') and \
                    i.blk.id in f.idom and short(f.qual) != 'dumpInstruction':
                n += 1
                hs = frozenset(lockname(x) for x in lockset(f).get(i.id, ()) if not bank(x)) | (entry[f] or frozenset())
                if not hs:
                    bad = bad or (f, i)
    R.check(bad is None and n > 0, 'print', 'instruction', bad[1].loc() if bad else 'src', 'prints an instruction without a lock',
            fn=bad and bad[0])
    n = 0
    for f in sorted(reach, key=lambda x: x.qual):
        for i in f.calls:
            m = re.match(r'oclgrind::(Shadow)?Memory::(\w+)', i.callee or '')
            if not m or m.group(2) not in MUTATE or i.blk.id not in f.idom:
                continue
            e = nz(args(f, i)[0])
            if mentions(e, lambda x: is_call(x, 'getGlobalMemory') or x[0] == 'fld' and x[2] == 'm_globalMemory'):
                n += 1
                if mirrors(f, i):
                    continue
                R.bad('table', short(f.qual) + ':' + m.group(2), i.loc(), 'changes the table of global memory on a worker thread', f)
    R.check(True, 'table', 'searched', 'src', '', fn=roots[0])
    threads(P, R, plugins, skip)


def nice(k):
    m = re.match(r'_Z\w*?(\d+)([A-Za-z_]\w*)$', k)
    return k if not k.startswith('_Z') else re.sub(r'^_Z\w*?\d([a-zA-Z_]\w*?)(E|B5cxx11E)?$', r'\1', k)


def hostonly(f, i):
    """inside a callback for host allocations: only when the memory is the global one, which workers do not allocate in"""
    if plain(f.qual) not in ('memoryAllocated', 'memoryDeallocated', 'memoryMap', 'memoryUnmap'):
        return False
    for a, p in facts(f, i.blk.id):
        if a[0] == 'eq' and p and any(is_call(x, 'getAddressSpace') for x in a[1:]) and C(1) in a[1:]:
            return True
    return False


def never(P, full, skip, f, i, key):
    """removal from a container under a not-empty test, when only code of plugins that force one worker adds to it"""
    if i.op not in ('call', 'invoke') or plain(i.callee) not in ('pop_front', 'pop_back', 'erase', 'clear'):
        return False
    ok = False
    for a, p in facts(f, i.blk.id):
        if any(is_call(nz(x), 'empty') or isinstance(x, tuple) and x and x[0] == 'call' and plain(x[1]) in ('empty', 'size')
               for x in a[1:] if isinstance(x, tuple)):
            ok = True
        if a[0] == 'eq' and not p and any(nz(y) == ('load', nz(x)) for x, y in ((a[1], a[2]), (a[2], a[1]))) and mentions(
                a, lambda x: x[0] == 'fld' and x[2] == key.split('::')[-1]):
            ok = True                              # list::empty
    if not ok:
        return False
    grow = set()
    name = key.split('::')[-1]
    for g in P.fns.values():
        for c in g.calls:
            if plain(c.callee) in ('push_back', 'push_front', 'insert', 'emplace_back', 'emplace_front', 'emplace', 'resize', 'splice') \
                    and c.args:
                org, fl = origin(g, c.args[0])
                if fl == name:
                    grow.add(g)
    # every caller chain of a grower must start in a plugin that is not thread safe
    callers = {}
    for g in P.fns.values():
        for _, h in full.callees(g):
            callers.setdefault(h, set()).add(g)
    seen, work = set(), list(grow)
    while work:
        g = work.pop()
        if g in seen or cls(g) in skip:
            continue
        seen.add(g)
        cs = callers.get(g, set())
        if not cs:
            return False
        work += cs
    return bool(grow)


def mirrors(f, i):
    """The change follows a change of global memory itself (a hook told of it, for a memory passed in whose space was found to
    be global): it happens on a worker only when that one does, which is reported where it is made."""
    for a, pol in facts(f, i.blk.id):
        if pol and a[0] == 'eq' and ('c', 1) in a[1:]:
            o = a[2] if a[1] == ('c', 1) else a[1]
            o = nz(o)
            if o[0] == 'call' and short(o[1]) == 'getAddressSpace' or o[0] == 'load' and mentions(o, lambda x: x[0] == 'fld' and x[2] == 'm_addressSpace'):
                return mentions(o, lambda x: x[0] == 'arg' and x[1] != 'this')
    return False


def threads(P, R, plugins, skip):
    R.rule('workers', 'one worker is used when any loaded plugin is not thread safe, and the invocation waits for all workers '
           'it started', 3)
    f = P.one('oclgrind::KernelInvocation::KernelInvocation')
    asks = [c for c in f.calls if short(c.callee) == 'isThreadSafe']
    msg = None if asks else 'never asks whether the plugins are thread safe'

    def unsafe_(e):
        return 0 if is_call(e, 'isThreadSafe') else None

    def none(e):
        return 0 if is_call(e, 'getEnvInt') else None
    for leaf, what in ((unsafe_, 'more than one worker although a plugin is not thread safe'), (none, 'no worker for a count of 0')):
        for p in Flow(f, leaf=leaf, limit=20000).paths():
            if p.end[0] == 'unreachable':
                continue
            v = [e for e in p.stores() if e[2][0] == 'fld' and e[2][2] == 'm_numWorkers']
            x = v[-1][3] if v else None
            while x and x[0] == 'select' and p.flow.truth(p.st, x[1]) is not None:
                x = x[2 if p.flow.truth(p.st, x[1]) else 3]
            if not v or nz(x) != C(1):
                msg = msg or what
    R.check(not msg, 'workers', 'count', floc(f), msg or '', fn=f)
    # the context's answer
    f = P.one('oclgrind::Context::isThreadSafe')
    msg = None
    n = 0
    for p in Flow(f).paths():
        ans = [(a, pol) for a, pol in p.lits if mentions(a, lambda x: is_call(x, 'isThreadSafe'))]
        no = any((a[0] == 'true' and not pol) or (a[0] == 'eq' and C(0) in a[1:] and pol) for a, pol in ans)
        n += len(ans)
        if p.end[0] == 'ret':
            if no and p.ret != C(0):
                msg = 'true although a plugin said it is not thread safe'
            for h, body in f.loops:
                ins_ = [b for b in p.blocks if b in body]
                if p.ret == C(1) and ins_ and ins_[-1] != h:
                    msg = 'answers before it has asked every plugin'
        if p.end[0] == 'iter':
            h = p.end[1]
            for i in f.blocks[h].insts:
                if i.op == 'phi' and i.d.get('t') not in ('ptr',):
                    me = ('phi', i.id)
                    x = [x for x, b in i.args if b == p.end[2]]
                    v = p.flow.val(p.st, x[0]) if x else me
                    n += mentions(v, lambda x: is_call(x, 'isThreadSafe'))
                    if poly(nz(v)) == padd(poly(me), {(): 1}):
                        continue
                    if not (v == C(0) or v == me and not no or v[0] in ('and', 'select') and mentions(v, lambda x: x == me)):
                        msg = 'forgets the answer of an earlier plugin'
            if no and not keeps_false(p):
                msg = 'goes on to the next plugin and forgets an unsafe one'
    if n == 0:
        msg = 'never asks the plugins'
    elif not msg and not any(walks(f, l, ('fld', THIS, 'm_plugins'), early=True) for l in f.loops):
        msg = 'does not go through all the plugins'
    R.check(not msg, 'workers', 'answer', floc(f), msg or '', fn=f)
    # run(): as many joins as threads
    f = [g for g in P.get('oclgrind::KernelInvocation::run') if len(pnames(g)) == 1][0]
    W = nz(fld(THIS, 'm_numWorkers'))
    starts = [c for c in f.calls if re.search(r'thread::thread<', c.callee or '') or re.search(r'emplace_back<', c.callee or '')]
    joins = calls(f, 'std::thread::join')
    msg = None
    if not starts or not joins:
        msg = 'no worker thread is started or awaited'
    else:
        vecs = {nz(args(f, c)[0]) for c in f.calls if re.match(r'std::vector<std::thread', c.callee or '') and c.args}
        for what, cs in (('started', starts), ('awaited', joins)):
            lp = [l for l in f.loops if all(c.blk.id in l[1] for c in cs)]
            if not lp:
                msg = 'workers are not %s in a loop' % what
                continue
            lp = min(lp, key=lambda l: len(l[1]))
            ok = any(start == C(0) and any(pol and a[0] in ('lt', 'slt') and a[1] == me and (
                nz(a[2]) == W or what == 'awaited' and mentions(nz(a[2]), lambda y: y in vecs)) for a, pol in fs)
                for me, start, fs in counted(f, lp) + spilled(f, lp)) and loop_exits(f, lp) == {lp[0]} or what == 'awaited' and walks(
                    f, lp, lambda x: x in vecs)
            if not ok:
                msg = 'workers %s: not one per worker' % what
            elif every_iteration(f, lp, cs):
                msg = 'a worker may not be ' + what
    R.check(not msg, 'workers', 'joined', floc(f), msg or '', fn=f)


def spilled(f, lp):
    """like counted() for a counter that lives in memory because its address is taken"""
    out = []
    for i in f.all():
        if i.op != 'alloca':
            continue
        me = ('load', ('alloca', i.id))
        ss = [s for s in stores(f) if s.args[1] == ['v', i.id] or s.args[1] == ('v', i.id)]
        ins_ = [s for s in ss if s.blk.id in lp[1]]
        outs = [s for s in ss if s.blk.id not in lp[1]]
        if len(ins_) == 1 and len(outs) == 1 and poly(nz(f.expr(ins_[0].args[0]))) == padd(poly(me), {(): 1}) and \
                f.dominates_block(outs[0].blk.id, lp[0]) and every_iteration(f, lp, ins_) is None:
            fs = frozenset(x for s in f.blocks[lp[0]].succs if s in lp[1] for x in edge_literals(f, lp[0], s))
            out.append((me, nz(f.expr(outs[0].args[0])), fs))
    return out


def keeps_false(p):
    f = p.flow.f
    h = p.end[1]
    for i in f.blocks[h].insts:
        if i.op != 'phi':
            break
        for x, b in i.args:
            if b == p.end[2] and p.flow.val(p.st, x) == C(0):
                return True
    return False
