"""Shared helpers of the rules."""
import re
import sys
from ir import show, Broken
from q import *     # noqa: F401,F403
import q


def arg(n):
    return ('arg', n)


THIS = ('arg', 'this')


def fld(base, *names):
    """value of base->a->b ... (each step a load)"""
    e = base
    for n in names:
        e = ('load', ('fld', e, n))
    return e


def C(n):
    return ('c', n)


def nz(e):
    """normal form for comparisons: no casts, std::vector::at as indexing"""
    e = deep(e)
    return _at(e)


def _at(e):
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == 'call' and len(e) == 4 and e[1].startswith('std::vector<') and \
            (e[1].endswith('::at') or e[1].endswith('::operator[]')):
        return ('ptr', ('load', _at(e[2])), _at(e[3]), None)
    r = tuple(_at(x) if isinstance(x, tuple) else x for x in e)
    if r[0] == 'ptr' and len(r) == 4:
        return ('ptr', r[1], r[2], None)
    return r


def same(a, b):
    return nz(a) == nz(b) or poly(nz(a)) == poly(nz(b))


def S(e, fn=None):
    return show(e, fn)


def args(fn, i):
    """argument expressions of a call instruction"""
    return [fn.expr(a) for a in i.args]


def calls(fn, *names):
    """live calls (not in unreachable blocks)"""
    return [i for i in fn.calls_to(*names) if i.blk.id in fn.idom]


def need(cond, msg):
    if not cond:
        raise Broken(msg)


def has(fs, atom, pol=True):
    """literal (atom,pol) among facts, comparing modulo casts/at"""
    t = (nz_atom(atom), pol)
    return any((nz_atom(a), p) == t for a, p in fs)


def nz_atom(a):
    k = a[0]
    if k in ('eq', 'lt', 'slt'):
        x, y = nz(a[1]), nz(a[2])
        if k == 'eq' and y[0] != 'c' and repr(y) < repr(x):
            x, y = y, x
        return (k, x, y)
    if k == 'in':
        return (k, nz(a[1]), a[2])
    return (k, nz(a[1]))


def nonzero(fs, e):
    """facts imply e != 0"""
    return has(fs, ('eq', e, C(0)), False) or has(fs, ('true', e), True)


def iszero(fs, e):
    return has(fs, ('eq', e, C(0)), True) or has(fs, ('true', e), False)


def below(fs, x, y):
    """facts imply x < y (unsigned), for polynomial-equal sides"""
    px, py = poly(nz(x)), poly(nz(y))
    for a, p in fs:
        if a[0] == 'lt':
            l, r = poly(nz(a[1])), poly(nz(a[2]))
            if p and l == px and r == py:
                return True
            if not p and l == py and r == padd(px, {(): 1}):      # !(y < x+1)
                return True
    return False


def atmost(fs, x, y):
    """facts imply x <= y (unsigned)"""
    px, py = poly(nz(x)), poly(nz(y))
    for a, p in fs:
        if a[0] == 'lt':
            l, r = poly(nz(a[1])), poly(nz(a[2]))
            if not p and l == py and r == px:
                return True
            if p and l == px and (r == py or r == padd(py, {(): 1})):
                return True
        if a[0] == 'eq' and p:
            l, r = poly(nz(a[1])), poly(nz(a[2]))
            if (l, r) in ((px, py), (py, px)):
                return True
    return False


def sub(a, b):
    return ('sub', a, b)


def add(a, b):
    return ('add', a, b)


def inside(fs, off, size, lim):
    """facts imply off+size <= lim without wrap-around.
    Returns 'yes', 'wraps' (only the wrapping sum is compared) or None."""
    if atmost(fs, size, lim) and atmost(fs, off, sub(lim, size)):
        return 'yes'
    if atmost(fs, off, lim) and atmost(fs, size, sub(lim, off)):
        return 'yes'
    if below(fs, off, lim) and atmost(fs, size, sub(lim, off)):
        return 'yes'
    s = add(off, size)
    if atmost(fs, s, lim):
        for x in (off, size):
            if atmost(fs, x, s):
                return 'yes'
        return 'wraps'
    return None


def root(e):
    """base pointer of an address expression"""
    while isinstance(e, tuple) and e and e[0] in ('fld', 'idx', 'ptr', 'cgep'):
        e = e[1]
    return e


def byteoff(e):
    """(root, polynomial byte offset) of an address expression over 'ptr' steps"""
    p = {}
    while e[0] in ('ptr', 'idx'):
        step = e[3] if len(e) > 3 else 1
        p = padd(p, pmul(poly(nz(e[2])), {(): step if step else 1}))
        e = e[1]
    return e, p


def stores(fn):
    return [i for i in fn.all() if i.op == 'store' and i.blk.id in fn.idom]


def loads(fn):
    return [i for i in fn.all() if i.op == 'load' and i.blk.id in fn.idom]


MEMCPY = ('llvm.memcpy', 'llvm.memmove')
MEMSET = ('llvm.memset',)


def mem_intrinsics(fn):
    return [i for i in fn.calls if (i.callee or '').startswith(MEMCPY + MEMSET) and i.blk.id in fn.idom]


def entry(fn):
    return 0


def always(fn, insts, ends=None):
    """a path from entry to a return that passes none of insts (None if all do)"""
    return reach_without(fn, 0, ends or fn.ret_insts(), insts)


def cls(fn):
    return fn.qual.rsplit('::', 1)[0]


def methods(P, prefix):
    """functions whose qualified name is prefix::X (no deeper scope)"""
    return [f for f in P.fns.values() if f.qual.startswith(prefix + '::') and
            '::' not in f.qual[len(prefix) + 2:].split('<')[0]]


def enum_val(P, en, name):
    for k, v in P.enums.items():
        if k.split('::')[-1] == en.split('::')[-1] and (en.count('::') == 0 or k.endswith(en)):
            for n, x in (v.items() if isinstance(v, dict) else v):
                if n.split('::')[-1] == name:
                    return x
    raise Broken('enumerator %s::%s not found' % (en, name))


def floc(f):
    return '%s:%s' % (f.relfile(), f.line)


def exactly_once(R, rule, f, insts, what, key=None, cond=None, twice=True):
    """one of insts executes on every path entry->return (on which cond holds), never two"""
    key = key or '%s:%s' % (f.short, what)
    if not insts:
        R.bad(rule, key, floc(f), 'never performs: ' + what, f)
        return False
    p = path_avoiding(f, insts, cond or [])
    ok = R.check(p is None, rule, key, floc(f) if p is None else '%s:%s' % (f.relfile(), f.blocks[p[-1]].term.line),
                 'a path (lines %s) finishes without: %s' % (path_lines(f, p) if p else '', what), fn=f)
    if twice:
        for i in insts:
            q2 = reach_without(f, i, insts, [])
            ok = R.check(q2 is None, rule, key + ':twice', i.loc(), 'may happen twice: ' + what, fn=f) and ok
    return ok


def path_avoiding(f, stops, cond=(), ends=None):
    """path entry->return that avoids stops and refutes no literal of cond"""
    sid = {i.id for i in stops}
    eid = {i.id for i in ends} if ends is not None else None
    seen, st = set(), [(0, [0])]
    while st:
        b, path = st.pop()
        if b in seen:
            continue
        seen.add(b)
        hit = False
        for i in f.blocks[b].insts:
            if i.id in sid:
                hit = True
                break
            if (i.op == 'ret') if eid is None else (i.id in eid):
                return path
        if hit:
            continue
        for s in f.blocks[b].succs:
            if cond:
                ls = edge_literals(f, b, s)
                if any((nz_atom(a), p) == (nz_atom(c), not q_) for a, p in ls for c, q_ in cond):
                    continue
            st.append((s, path + [s]))
    return None


def must_follow(f, i, stops, ends=None):
    """after i every path to a return passes one of stops"""
    return reach_without(f, i, ends if ends is not None else f.ret_insts(), stops) is None


def must_precede(f, i, befores):
    """every path to i passes one of befores"""
    return path_avoiding(f, befores, ends=[i]) is None


def field_stores(f, ptr):
    p = nz(ptr)
    return [s for s in stores(f) if nz(f.expr(s.args[1])) == p]


def callers(P, *names):
    for f in P.fns.values():
        for c in calls(f, *names):
            yield f, c


def reach_state(f, start, targets, stops, ptr):
    """like reach_without, but prunes paths that contradict what branches on the
    path (or stored constants) say about the zero-ness of the value at ptr"""
    val = ('load', ptr)
    val = nz(val)
    tid, sid = {i.id for i in targets}, {i.id for i in stops}

    def scan(b, pos, st):
        for i in f.blocks[b].insts[pos:]:
            if i.id in tid:
                return 'hit', st
            if i.id in sid:
                return 'stop', st
            if i.op == 'store' and nz(f.expr(i.args[1])) == nz(ptr):
                v = nz(f.expr(i.args[0]))
                st = (v[1] == 0) if v[0] == 'c' else None
        return None, st
    b0, p0 = (start, 0) if isinstance(start, int) else (start.blk.id, start.pos + 1)
    r, st = scan(b0, p0, None)
    if r:
        return [b0] if r == 'hit' else None
    # when the condition tests a value the store just wrote, relate it to ptr
    def related(e):
        e = nz(e)
        if e == val:
            return True
        return any(nz(f.expr(s.args[0])) == e for s in field_stores(f, ptr))
    seen, work = set(), [(b0, st, [b0])]
    while work:
        b, st, path = work.pop()
        for s in dict.fromkeys(f.blocks[b].succs):
            n = st
            for a, p in edge_literals(f, b, s):
                z = None
                if a[0] == 'eq' and nz(a[2]) == C(0) and related(a[1]):
                    z = p
                elif a[0] == 'true' and related(a[1]):
                    z = not p
                if z is not None:
                    if n is not None and n != z:
                        n = 'no'
                        break
                    n = z
            if n == 'no' or (s, n) in seen:
                continue
            seen.add((s, n))
            r, n2 = scan(s, 0, n)
            if r == 'hit':
                return path + [s]
            if r == 'stop':
                continue
            work.append((s, n2, path + [s]))
    return None


# ------------------------------------------------------------------ locks
def lock_events(f):
    """{inst id: ('+'|'-', lock expression)} for mutex and guard operations"""
    if hasattr(f, '_lockev'):
        return f._lockev
    ev, guard = {}, {}
    for i in f.calls:
        c = i.callee or ''
        a = None
        m = re.match(r'std::(lock_guard|unique_lock|scoped_lock|shared_lock)<.*>::(~?\w+)', c)
        if m:
            a = args(f, i)
            if m.group(2) == m.group(1) and len(a) >= 2:
                guard[repr(a[0])] = nz(a[1])
                tag = i.callee_link or ''
                if 'defer_lock_t' not in tag and 'adopt_lock_t' not in tag:
                    ev[i.id] = ('+', nz(a[1]))
        elif c == 'std::mutex::lock':
            ev[i.id] = ('+', nz(args(f, i)[0]))
        elif c == 'std::mutex::unlock':
            ev[i.id] = ('-', nz(args(f, i)[0]))
    for i in f.calls:
        m = re.match(r'std::(lock_guard|unique_lock|scoped_lock|shared_lock)<.*>::(~\w+|unlock|lock)$', i.callee or '')
        if m:
            g = guard.get(repr(args(f, i)[0]))
            if g is not None:
                ev[i.id] = ('+' if m.group(2) == 'lock' else '-', g)
    f._lockev = ev
    return ev


def lockset(f):
    """must-held lock expressions before each instruction: {inst id: frozenset}"""
    if hasattr(f, '_lockset'):
        return f._lockset
    ev = lock_events(f)
    IN = {0: frozenset()}
    work = [0]

    def flow(b, rec=None):
        s = IN[b]
        for i in f.blocks[b].insts:
            if rec is not None:
                rec[i.id] = s
            e = ev.get(i.id)
            if e:
                s = s | {e[1]} if e[0] == '+' else s - {e[1]}
        return s
    while work:
        b = work.pop()
        o = flow(b)
        for s in f.blocks[b].succs:
            n = IN[s] & o if s in IN else o
            if s not in IN or n != IN[s]:
                IN[s] = n
                work.append(s)
    rec = {}
    for b in IN:
        flow(b, rec)
    f._lockset = rec
    return rec


def may_lockset(f):
    """may-held locks before each instruction"""
    ev = lock_events(f)
    IN = {0: frozenset()}
    work = [0]
    rec = {}
    while work:
        b = work.pop()
        s = IN[b]
        for i in f.blocks[b].insts:
            rec[i.id] = s
            e = ev.get(i.id)
            if e:
                s = s | {e[1]} if e[0] == '+' else s - {e[1]}
        for x in f.blocks[b].succs:
            n = IN.get(x, frozenset()) | s
            if x not in IN or n != IN[x]:
                IN[x] = n
                work.append(x)
    return rec


# ------------------------------------------------------------------ loops
def loop_exits(f, lp):
    return {b for b in lp[1] for s in f.blocks[b].succs if s not in lp[1] and not f.error_exit(s)}


def counted(f, lp):
    """[(phi expr, start, bound atom facts on the body edge)] of up-counting induction variables"""
    out = []
    h = lp[0]
    for i in f.blocks[h].insts:
        if i.op != 'phi':
            continue
        me = ('phi', i.id)
        ins_ = [(nz(f.expr(v)), p) for v, p in i.args]
        start = [v for v, p in ins_ if p not in lp[1]]
        step = [v for v, p in ins_ if p in lp[1]]
        if start and step and all(poly(v) == padd(poly(me), {(): 1}) for v in step) and len({repr(s) for s in start}) == 1:
            fs = frozenset()
            for s in f.blocks[h].succs:
                if s in lp[1]:
                    fs |= frozenset(edge_literals(f, h, s))
            out.append((me, start[0], fs))
    return out


def walks(f, lp, cont, early=False):
    """the loop visits every element of container `cont` (an address expression or predicate), leaving only at its end
    (or also elsewhere if early)"""
    if not early and loop_exits(f, lp) != {lp[0]}:
        return False
    pred = cont if callable(cont) else (lambda x: x == nz(cont))
    h = lp[0]
    for i in f.blocks[h].insts:
        if i.op != 'phi':
            continue
        me = ('phi', i.id)
        start = [nz(f.expr(v)) for v, p in i.args if p not in lp[1]]
        step = [nz(f.expr(v)) for v, p in i.args if p in lp[1]]
        if not start or not all(mentions(v, pred) for v in start) or not step:
            continue
        good = all(v == ('load', me) or v[0] == 'load' and v[1][0] == 'fld' and v[1][1] == me and v[1][2] in ('_M_next', '_M_nxt') or
                   v[0] in ('ptr', 'idx') and v[1] == me and v[2] == C(1) or
                   poly(v) == padd(poly(me), {(): 1}) or
                   is_call(v, '_Rb_tree_increment') or v[0] == 'call' and v[1].startswith('std::_Rb_tree_increment') for v in step)
        if not good:
            continue
        for a, p in [x for s in f.blocks[h].succs if s in lp[1] for x in edge_literals(f, h, s)]:
            if a[0] == 'eq' and not p and any(mentions(nz(x), lambda y: y == me) for x in a[1:3]) and \
                    any(mentions(nz(x), pred) or nz(x) == C(0) for x in a[1:3]):
                return True
    for me, st, fs in counted(f, lp):
        if st == C(0) and any(a[0] == 'lt' and p and nz(a[1]) == me and mentions(nz(a[2]), pred) for a, p in fs):
            return True
    return False


def loops_walking(f, cont):
    return [lp for lp in f.loops if walks(f, lp, cont)]


def every_iteration(f, lp, insts, skip=None):
    """None when each iteration of lp passes one of insts (except on edges where skip(literals)); else a block path"""
    sid = {i.id for i in insts}
    start = [s for s in f.blocks[lp[0]].succs if s in lp[1]]
    if any(i.id in sid for i in f.blocks[lp[0]].insts):
        return None
    st, seen = [(s, [s]) for s in start], set()
    while st:
        b, path = st.pop()
        if b == lp[0]:
            return path
        if b in seen or b not in lp[1]:
            continue
        seen.add(b)
        if any(i.id in sid for i in f.blocks[b].insts):
            continue
        for s in f.blocks[b].succs:
            if skip and skip(edge_literals(f, b, s)):
                continue
            st.append((s, path + [s]))
    return None


def pnames(f):
    """parameter names as they occur in expressions"""
    return [p.get('dn') or p['n'] or 'arg%d' % k for k, p in enumerate(f.params)]


# ------------------------------------------------------------ built-in functions
def callarg(e):
    """n when e is the n-th argument of the call being interpreted"""
    e = strip(e)
    if is_call(e, 'CallBase::getArgOperand') and strip(e[-1])[0] == 'c':
        return strip(e[-1])[1]
    if is_call(e, 'User::getOperand') and strip(e[-1])[0] == 'c':
        return strip(e[-1])[1]
    return None


def oparg(e):
    """(getter, argument number, lane expression) when e is lane `lane` of an argument of the interpreted call"""
    e = strip(e)
    if e[0] != 'call' or not re.search(r'TypedValue::get(UInt|SInt|Float|Pointer)$', e[1]):
        return None
    b = e[2]
    if b[0] == 'ptrto':
        b = b[1]
    if not is_call(b, 'WorkItem::getOperand'):
        return None
    n = callarg(b[-1])
    if n is None:
        return None
    return e[1].split('::get')[-1], n, e[3]


def builtin(P, name):
    return P.one('oclgrind::WorkItemBuiltins::' + name)


def short(c):
    """last component of a callee name, template arguments dropped"""
    c = c or ''
    while True:
        d = re.sub(r'<[^<>]*>', '', c)
        if d == c:
            break
        c = d
    return c.split('::')[-1]


def reduced(p):
    """One arbitrary iteration of a loop, with every variable that advances by the same amount in each iteration written in terms of
    the counter (an up-counting phi from 0 by 1): start + counter * step. Other paths are returned as they are."""
    if p.end[0] != 'iter':
        return p
    fl, f = p.flow, p.flow.f
    h, prev = p.end[1], p.end[2]
    body = next((b for x, b in f.loops if x == h), ())
    moving, counter = {}, None
    for i in f.blocks[h].insts:
        if i.op != 'phi':
            break
        me = ('phi', i.id)
        start = [v for v, b in i.args if b not in body]
        step = [v for v, b in i.args if b == prev]
        if len(start) != 1 or len(step) != 1:
            continue
        s, t = fl.val(p.st, start[0]), fl.val(p.st, step[0])
        if t[0] in ('ptr', 'idx', 'cgep') and nz(t[1]) == me:
            d = (t[2], t[3] if len(t) > 3 else None) if t[0] != 'cgep' else (('c', t[2]), 1)
            if d[1] and not mentions(d[0], lambda x: x[0] == 'phi'):
                moving[me] = (s, d[0], d[1])
        else:
            d = padd(poly(nz(t)), pscale(poly(me), -1))
            if d == {(): 1} and nz(s) == C(0) and counter is None:
                counter = me
            elif set(d) == {()} and d[()]:
                moving[me] = (s, C(d[()]), None)
    if counter is None:
        return p
    # a counter that has not reached the bound yet is below it
    p.lits = [(('lt', counter, next(x for x in a[1:] if x != counter)), True) if a[0] == 'eq' and not pol and len(a) == 3 and counter in a[1:] else (a, pol)
              for a, pol in p.lits]
    if not moving:
        return p

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x in moving:
            s, d, w = moving[x]
            by = counter if d == C(1) else ('mul', counter, d)
            return ('idx', s, by, w) if w else by if nz(s) == C(0) else ('add', s, by)
        return tuple(go(y) for y in x)
    p.lits = [(go(a), pol) for a, pol in p.lits]
    p.events = [tuple(go(y) if isinstance(y, tuple) and y and isinstance(y[0], (str, tuple)) else y for y in e) for e in p.events]
    return p


STARTS = re.compile(r'^std::thread::thread<|^std::vector<std::thread\b.*::emplace_back<')


def starts_thread(i):
    """the call starts a thread"""
    return i.op in ('call', 'invoke') and bool(STARTS.search(i.callee or ''))


def steady(p, a, b, x):
    """expression x with the start of the storage of a local vector written as a load, provided nothing between the events a and b of
    path p changes that vector"""
    def sub_(e):
        if not isinstance(e, tuple):
            return e
        if e[0] == 'clob' and e[1][0] == 'alloca':
            k, m = sorted((p.events.index(a), p.events.index(b)))
            if not any(ev[0] == 'call' and ev[3] and ev[3][0] == e[1] and
                       not re.search(r'::(data|_M_data_ptr(<.*>)?|begin|end|size|operator\[\]|at|front|back|empty)$', ev[2] or '') for ev in p.events[k:m]) and \
                    not any(ev[0] == 'call' and e[1] in ev[3][1:] for ev in p.events[k:m]):
                return ('load', e[1])
        return tuple(sub_(y) for y in e)
    return sub_(x)


def picked(p, x):
    """a value chosen by a condition, with the choices this path has already made"""
    def same_atom(a, b):
        a, b = nz(a), nz(b)
        return a == b or a[0] == b[0] == 'eq' and {repr(a[1]), repr(a[2])} == {repr(b[1]), repr(b[2])}
    while x[0] == 'select':
        for pol in (True, False):
            ls = literals(x[1], pol)
            if ls and all(any(same_atom(a, b) and v == w for b, w in p.lits) for a, v in ls):
                x = x[2] if pol else x[3]
                break
        else:
            return x
    return x
