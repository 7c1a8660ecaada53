"""C30: the instruction counter is followed by constant propagation from known states of its tables.  For every opcode of the compiler, every
memory space and every kind of call (new, known, indirect) the counter incremented is identified; it must lie inside the table, be different
for different kinds, and be the one the report gives that name to.  Merging is followed for tables of different sizes whose functions
overlap in every way, and the report for tables with and without zero entries."""
import itertools
from common import *
from flow import Flow
from vecmodel import Vectors

TECHNIQUE = 'constant propagation through the tables of the counter, for every kind of instruction'
TUS = ['InstructionCounter']
OPTS = ('--extra-inline', 'std::vector|__gnu_cxx|std::pair|__ops')
NOTE = 'Debug intrinsics are counted but deliberately not listed.  That the tables are updated under the lock is decided by C14.'
ASSUMPTIONS = ['std::vector, std::find and std::sort behave as documented', 'address spaces of a kernel are those of OpenCL (0 to 4)']
K = 'InstructionCounter::'
LOAD, STORE, CALL = 32, 33, 56                    # llvm::Instruction opcodes of LLVM 18, checked below
SPACES = range(0, 5)
W = 8


def tls(name):
    """vector of the worker's own state: the pointer at this member of m_state"""
    def pred(a):
        if a[0] != 'load':
            return False
        b = a[1]
        m = 'instCounts'
        if b[0] == 'fld':
            b, m = b[1], b[2]
        if b[0] == 'call' and 'threadlocal' in b[1]:
            b = b[2]
        elif b[0] == 'call' and 'TLS wrapper' in b[1] and 'm_state' in b[1]:
            return m == name
        return b[0] == 'g' and 'm_state' in b[1] and m == name
    return pred


def mine(name):
    return lambda a: a == ('fld', THIS, name)


def tables(local=(), total=(), lc=None, tc=None, nb=16):
    """contents: functions of the worker and overall, counters of the worker and overall"""
    lc = [C(100 + k) for k in range(88 + len(local))] if lc is None else lc
    tc = [C(5000 + k) for k in range(88 + len(total))] if tc is None else tc
    return {'ic': (tls('instCounts'), W, lc), 'mb': (tls('memopBytes'), W, [C(300 + k) for k in range(nb)]), 'fn': (tls('functions'), W, [C(x) for x in local]),
            'IC': (mine('m_instructionCounts'), W, tc), 'MB': (mine('m_memopBytes'), W, [C(7000 + k) for k in range(nb)]), 'FN': (mine('m_functions'), W, [C(x) for x in total])}


def follow(f, V, more=None, hook=None, **kw):
    m = Vectors(V, hook=hook, more=more)
    kw.setdefault('limit', 20000)
    kw.setdefault('maxiter', 400)
    m.fl = Flow(f, effects=m, leaf=m.leaf, **kw)
    return m, list(m.fl.paths())


def writes(m, p):
    """[(table, position, value, in range)] in order"""
    out = []
    for k, e in enumerate(p.events):
        if e[0] != 'store':
            continue
        r, v, o = p.flow.key(e[2])
        if r[0] == 'g' and r[1][:1] == '#':
            n = r[1][1:]
            out.append((n, None if v else o // W, e[3], k))
    return out


def ptype(f, n):
    return next((p.get('dt') or '' for p in f.params if p.get('dn') == n), '')

CLASSES = {'LoadInst': (LOAD,), 'StoreInst': (STORE,), 'CallInst': (CALL,), 'CallBase': (CALL,)}


def counted(P, R, f, nb):
    """{kind: slot}, reporting what is wrong with the counting itself"""
    slots, bytes_ = {}, {}
    kinds = [('op', k) for k in range(1, 68) if k not in (LOAD, STORE, CALL)]
    kinds += [(k, s) for k in ('load', 'store') for s in SPACES]
    kinds += [('call', None), ('call', 1001), ('call', 1002), ('call', 1003), ('call first', 1001)]
    inst = next(n for n in pnames(f) if n != 'this' and 'llvm::Instruction' in ptype(f, n))
    for kind in kinds:
        k, s = kind
        op = {'op': s, 'load': LOAD, 'store': STORE}.get(k, CALL)

        def more(e):
            if e[0] == 'call' and e[2:] == (('arg', inst),):
                n = short(e[1])
                if n == 'getOpcode':
                    return op
                if n in ('getPointerAddressSpace', 'getAddressSpace'):
                    return s if k in ('load', 'store') else None
                if n == 'getCalledFunction':
                    return s or 0
                c = re.match(r'llvm::(dyn_cast|cast|isa)(?:_or_null)?<llvm::(\w+)[,>]', e[1])
                if c and c[2] in CLASSES:
                    return (('arg', inst) if c[1] != 'isa' else 1) if op in CLASSES[c[2]] else 0
            return None
        local = () if k == 'call first' else (1001, 1002)
        m, ps = follow(f, tables(local), more=more,
                       cmp=lambda o, a, b: o == 'ne' if o in ('eq', 'ne') and ('arg', inst) in (a, b) and C(0) in (a, b) else None)
        msg = None
        for p in ps:
            if p.end[0] != 'ret':
                msg = 'is not followed to the end'
                continue
            w = writes(m, p)
            c = [x for x in w if x[0] == 'ic']
            b = [x for x in w if x[0] == 'mb']
            if len(c) != 1 or c[0][1] is None:
                msg = 'increments %d counters' % len(c)
                continue
            _, x, v, e = c[0]
            old = 100 + x if x < 88 + len(local) else 0
            if v != C(old + 1):
                msg = 'adds %s to its counter' % (v[1] - old if v[0] == 'c' and isinstance(v[1], int) else S(v))
            n = m.size_of(p, 'ic', e)
            if n is None or not 0 <= x < n:
                msg = msg or 'increments counter %s of %s' % (x, n)
            if slots.setdefault(kind, x) != x:
                msg = msg or 'has several counters'
            if k in ('load', 'store'):
                if len(b) != 1 or b[0][1] is None or not 0 <= b[0][1] < nb:
                    msg = msg or 'adds its bytes to %s' % (b[0][1] if b else 'nothing')
                    continue
                _, y, v, e = b[0]
                bytes_[kind] = y
                if not amount(v, k, inst, 300 + y):
                    msg = msg or 'adds %s to the bytes of its space' % S(v)
            elif b:
                msg = msg or 'counts bytes'
            if k.startswith('call'):
                fnw = m.size_of(p, 'fn')
                want = list(local) + ([s] if s and s not in local else [])
                got = [m.at(p.flow, p.st, 'fn', j) for j in range(fnw or 0)]
                if got != [C(z) for z in want]:
                    msg = msg or 'leaves the list of functions as %s' % ', '.join(S(z) for z in got)
        R.check(bool(ps) and msg is None, 'count', '%s:%s' % kind, floc(f), 'an instruction of kind %s %s %s' % (k, s, msg or 'has no path'), fn=f)
    return slots, bytes_


def amount(v, k, inst, old):
    """v is `old` plus the size of the type moved"""
    terms = []

    def flat(x):
        x = strip(x)
        if x[0] == 'add':
            flat(x[1])
            flat(x[2])
        else:
            terms.append(x)
    flat(v)
    c = [x for x in terms if x[0] == 'c']
    o = [x for x in terms if x[0] != 'c']
    if sum(x[1] for x in c) != old or len(o) != 1 or not is_call(o[0], 'getTypeSize'):
        return False
    t = strip(o[0][2])
    if not is_call(t, 'getType'):
        return is_call(t, 'getLoadStoreType') and strip(t[2]) == ('arg', inst)
    w = strip(t[2])
    if k == 'load':
        return w == ('arg', inst)
    return is_call(w, 'getValueOperand', 'getOperand') and strip(w[2]) == ('arg', inst) and (len(w) < 4 or strip(w[3]) == C(0))


def named(P, R, slots, bytes_):
    f = next((g for g in P.fns.values() if (g.qual or '').startswith('oclgrind::' + K + 'getOpcodeName')), None)
    if f is None:
        R.bad('name', 'getOpcodeName', None, 'nothing names the counters', None)
        return
    op = pnames(f)[-1]
    other = {}
    for kind, x in sorted(slots.items(), key=repr):
        k, s = kind
        if k == 'call' and s is None or k == 'call first':
            if k == 'call':
                R.check(x == CALL, 'name', 'call:indirect', floc(f), 'indirect calls use counter %d' % x, fn=f)
            continue
        m, ps = follow(f, tables(total=(1001, 1002, 1003)), more=lambda e: x if e == ('arg', op) else None)
        ps = [p for p in ps if p.end[0] == 'ret']
        msg = None
        for p in ps:
            ev = [e for e in p.events if e[0] == 'call']
            lits = [lit_(y) for e in ev if 'operator' in (e[2] or '') or short(e[2]) in ('append', 'basic_string') for y in e[3] if lit_(y) is not None]
            name = [e for e in ev if e[2].endswith('Instruction::getOpcodeName')]
            fnname = [e for e in ev if short(e[2]).startswith('getName')]
            space = [e for e in ev if short(e[2]) == 'getAddressSpaceName']
            if k == 'op':
                if len(name) != 1 or strip(name[0][3][0]) != C(s) or fnname or space:
                    msg = 'is named as something else'
            elif k == 'call':
                if len(fnname) != 1 or strip(fnname[0][3][0]) != C(s) or name or space or not any('call' in t for t in lits):
                    msg = 'is named after %s' % (S(fnname[0][3][0]) if fnname else 'no function')
            else:
                num_ = [y for e in ev if 'operator<<' in e[2] for y in e[3] if y[0] == 'c' and isinstance(y[1], int) and y[1] >= 7000]
                if len(space) != 1 or strip(space[0][3][0]) != C(s) or name or fnname:
                    msg = 'is named after another space'
                elif k not in lits or {'load': 'store', 'store': 'load'}[k] in lits:
                    msg = 'is called %s' % ' '.join(lits)
                elif num_ != [C(7000 + bytes_.get(kind, -1))]:
                    msg = 'is shown with the bytes of another kind'
                elif not any(mentions(y, lambda z: z == ('call', space[0][2]) + tuple(space[0][3])) for e in ev if 'operator<<' in e[2] for y in e[3][1:]):
                    msg = 'is shown without its space'
        R.check(bool(ps) and msg is None, 'name', '%s:%s' % kind, floc(f), 'the counter of %s %s %s' % (k, s, msg or 'has no name'), fn=f)


def lit_(e):
    e = strip(e)
    return e[1] if e[0] == 's' else None


def cnt(k):
    return 1 if k in (7, 89) else 100 + k


def merging(P, R, f):
    n = 0
    for total, local in (((), ()), ((), (1, 2)), ((1, 2), ()), ((1, 2), (1, 2)), ((1, 2), (2, 1)), ((1, 2), (3,)), ((1,), (2, 3, 1, 4)), ((1, 2, 3), (4,)), ((1, 2, 3), (3, 5, 1, 6))):
        for grown in (True, False):
            zero = {5, 40} | ({88} if len(local) == 4 else set())
            lc = [C(0) if k in zero else C(cnt(k)) for k in range(88 + len(local))]
            tc = [C(5000 + k) for k in range(88 + len(total))] if grown else []
            if not grown and total:
                continue
            m, ps = follow(f, tables(local, total, lc, tc))
            want = {k: (5000 + k if grown else 0) for k in range(88 + len(total) if grown else 0)}
            fns = list(total)
            for k in range(88 + len(local)):
                if k in zero:
                    continue
                t = k
                if k >= 88:
                    g = local[k - 88]
                    if g not in fns:
                        fns.append(g)
                    t = 88 + fns.index(g)
                want[t] = want.get(t, 0) + cnt(k)
            msg = None
            for p in ps:
                if p.end[0] == 'unreachable':
                    msg = msg or 'a position outside a table is used'
                    continue
                if p.end[0] != 'ret':
                    msg = 'is not followed to the end'
                    continue
                for t, x, v, e in writes(m, p):
                    k = m.size_of(p, t, e)
                    if x is None or k is None or not 0 <= x < k:
                        msg = 'counter %s of %s is written to' % (x, k)
                if m.size_of(p, 'FN') != len(fns) or [m.at(p.flow, p.st, 'FN', j) for j in range(len(fns))] != [C(x) for x in fns]:
                    msg = msg or 'the functions of the totals are wrong'
                for k, v in want.items():
                    if m.at(p.flow, p.st, 'IC', k) != C(v):
                        msg = msg or 'total %d is %s instead of %d' % (k, S(m.at(p.flow, p.st, 'IC', k)), v)
                for k in range(16):
                    if m.at(p.flow, p.st, 'MB', k) != C(7300 + 2 * k):
                        msg = msg or 'the bytes of kind %d are %s' % (k, S(m.at(p.flow, p.st, 'MB', k)))
            n += 1
            R.check(bool(ps) and msg is None, 'merge', '%s+%s%s' % (total, local, '' if grown else ' first'), floc(f),
                    'merging functions %s into %s: %s' % (list(local), list(total), msg or 'no path'), fn=f)


def there(c):
    if c[0] == 'icmp' and c[1] in ('eq', 'ne') and c[3] == C(0) and any(tls(x)(nz(c[2])) for x in ('instCounts', 'memopBytes', 'functions')):
        return c[1] == 'ne'
    return None


def starting(P, R, begin, launch, slots, bytes_):
    for present in (True, False):
        local = (1, 2, 3)
        V = tables(local)
        if not present:
            for n in ('ic', 'mb', 'fn'):
                V[n] = (lambda a: False,) + V[n][1:]

        def more(e):
            return 0 if not present and e[0] == 'load' and any(tls(x)(e) for x in ('instCounts', 'memopBytes', 'functions')) else None
        m, ps = follow(begin, V, more=more, decide=there) if present else fresh(begin, V, more)
        msg = None
        for p in ps:
            for n, least in (('ic', 0), ('mb', 1 + max(bytes_.values() or [0])), ('fn', 0)):
                k = m.size_of(p, n)
                if k is None:
                    msg = 'the table %s is not set up' % n
                elif n == 'fn' and k:
                    msg = 'functions of the previous group stay'
                elif n != 'fn' and (k < least or any(m.at(p.flow, p.st, n, j) != C(0) for j in range(k))):
                    msg = 'counters of the previous group stay'
        R.check(bool(ps) and msg is None, 'reset', 'group:%d' % present, floc(begin), 'when a group starts %s' % (msg or 'nothing happens'), fn=begin)
    m, ps = follow(launch, tables((), (1, 2, 3)))
    msg = None
    for p in ps:
        for n, least in (('IC', 0), ('MB', 1 + max(bytes_.values() or [0])), ('FN', 0)):
            k = m.size_of(p, n)
            if k is None or n == 'FN' and k or k < least or n != 'FN' and any(m.at(p.flow, p.st, n, j) != C(0) for j in range(k)):
                msg = 'totals of the previous launch stay in %s' % {'IC': 'the counters', 'MB': 'the bytes', 'FN': 'the functions'}[n]
    R.check(bool(ps) and msg is None, 'reset', 'launch', floc(launch), msg or 'nothing happens', fn=launch)


def fresh(f, V, more):
    """the tables do not exist yet: what is created for them"""
    m = Vectors({}, more=more)
    made = {}

    def eff(fl, st, i, c, a):
        m.fl = fl
        if c and short(c) == 'operator new':
            return ('call', 'operator new', C(len([e for e in st.events if e[0] == 'call' and short(e[2]) == 'operator new'])))
        if c and short(c) == 'vector' and a and a[0][0] == 'call' and a[0][1] == 'operator new':
            n = 'new%d' % a[0][2][1]
            m.vecs[n] = (lambda b, x=a[0]: b == x, W, [])
            m.setsize(fl, st, a[0], 0)
            return True
        return m(fl, st, i, c, a)
    ps = list(Flow(f, effects=eff, leaf=m.leaf, limit=20000, maxiter=400).paths())
    sizes = {}
    for p in ps:
        for e in p.stores():
            for n, t in (('ic', 'instCounts'), ('mb', 'memopBytes'), ('fn', 'functions')):
                if tls(t)(('load', nz(e[2]))) and e[3][0] == 'call':
                    sizes[n] = e[3]

    class View:
        def size_of(self, p, n):
            return m.size(p.flow, p.st, sizes[n]) if n in sizes and m.which(sizes[n]) else None

        def at(self, fl, st, n, k):
            return m.at(fl, st, m.which(sizes[n]), k)
    return View(), ps


def report(P, R, f):
    vals = [0, 7, 0, 9, 11, 13]
    dbg = 4
    V = tables(tc=[C(v) for v in vals])
    where = []
    V['nc'] = (lambda a: where[:1] == [a], 40, [])

    def hook(fl, st, i, c, a, m):
        s = short(c or '')
        if s == 'vector' and a and a[0][0] == 'alloca':
            where[:] = [a[0]]
            m.setsize(fl, st, a[0], 0)
            return True
        if s.startswith('getOpcodeName'):
            x = strip(a[-1])
            st.env[('str', a[0])] = 'name%s' % (x[1] if x[0] == 'c' else '?')
            return True
        if s == 'basic_string' and len(a) == 2 and ('str', a[1]) in st.env:
            st.env[('str', a[0])] = st.env[('str', a[1])]
            return True
        if s in ('compare', 'starts_with', 'find', 'rfind') and ('str', a[0]) in st.env:
            hit = st.env[('str', a[0])] == 'name%d' % dbg and any((lit_(y) or '').startswith('call llvm.dbg') for y in a)
            return C(int(hit)) if s == 'starts_with' else C(0 if hit else 1)
        if s in ('push_back', 'emplace_back') and m.which(a[0]) == 'nc':
            k = m.size(fl, st, a[0])
            if k is None:
                return None
            if len(a) == 2:
                t, v = st.env.get(('str', a[1])), fl.load(st, ('cgep', a[1], 32), 8)
            else:
                t, v = st.env.get(('str', a[1])), fl.post(st, fl.load(st, a[2], 8))
            st.env[('elem', k)] = t
            st.mem.append(('st', fl.key(('cgep', m.end('nc', k), 32)), 8, v))
            m.setsize(fl, st, a[0], k + 1)
            return True
        if s in ('sort', 'stable_sort'):
            return True
        return None
    m, ps = follow(f, V, hook=hook)
    msg = None
    for p in ps:
        if p.end[0] != 'ret':
            msg = 'is not followed to the end'
            continue
        out, kern = [], False
        for e in p.events:
            if e[0] != 'call' or 'operator<<' not in (e[2] or '') or len(e[3]) < 2:
                continue
            x = strip(e[3][1])
            kern |= x[0] == 'call' and short(x[1]).startswith('getName')
            if x[0] == 'c' and isinstance(x[1], int):
                out.append(x[1])
                continue
            r, v, o = p.flow.key(e[3][1])
            if r == ('g', '#nc') and not v and o % 40 == 0:
                out.append(p.st.env.get(('elem', o // 40)))
        got = sorted(zip(out[0::2], out[1::2]), key=repr)
        want = sorted([(v, 'name%d' % k) for k, v in enumerate(vals) if v and k != dbg], key=repr)
        if got != want:
            msg = 'lists %s for counters %s (number %d being a debug intrinsic)' % (', '.join('%s - %s' % x for x in got) or 'nothing', vals, dbg)
        if not kern:
            msg = msg or 'does not name the kernel'
    R.check(bool(ps) and msg is None, 'report', 'kernelEnd', floc(f), 'the report %s' % (msg or 'is missing'), fn=f)


def run(P, R):
    R.rule('count', 'every kind of instruction adds one to exactly one counter inside the table, and a load or store adds its size to its own byte counter', 70)
    R.rule('distinct', 'different kinds of instruction have different counters', 2)
    R.rule('name', 'the report names each counter after the instructions that increment it', 70)
    R.rule('merge', 'what a group counted is added to the totals of the same instructions and functions, inside the tables', 8)
    R.rule('reset', 'counting starts from zero with each group and each launch', 3)
    R.rule('report', 'the report lists every counter that is not zero with its value', 1)
    fs = {n: P.get(K + n)[0] for n in ('instructionExecuted', 'workGroupBegin', 'workGroupComplete', 'kernelBegin', 'kernelEnd')}
    slots, bytes_ = counted(P, R, fs['instructionExecuted'], 16)
    f = fs['instructionExecuted']
    seen = {}
    for kind, x in slots.items():
        if kind[0] != 'call first':
            seen.setdefault(x, []).append(kind)
    dup = [v for v in seen.values() if len(v) > 1]
    R.check(not dup, 'distinct', 'counters', floc(f), 'one counter is used for %s' % ' and '.join('%s %s' % k for k in (dup[0] if dup else ())), fn=f)
    seen = {}
    for kind, x in bytes_.items():
        seen.setdefault(x, []).append(kind)
    dup = [v for v in seen.values() if len(v) > 1]
    R.check(not dup, 'distinct', 'bytes', floc(f), 'one byte counter is used for %s' % ' and '.join('%s %s' % k for k in (dup[0] if dup else ())), fn=f)
    named(P, R, slots, bytes_)
    merging(P, R, fs['workGroupComplete'])
    starting(P, R, fs['workGroupBegin'], fs['kernelBegin'], slots, bytes_)
    report(P, R, fs['kernelEnd'])
