"""C33: values a kernel can choose (typed operand accessors, bytes loaded from simulated memory) are followed through SSA and
into the functions they are passed to; wherever one becomes an index, a lane, an operand number or a host address, a check
dominating that use must bound it by the size of the very object it indexes.  Lane numbers of every vector access are bounded
by the width of the value accessed, including operands that OpenCL allows to be scalar; printf is followed for every one of
the 256 values a format character can have."""
from common import *
from ceval import Ev, sub, _bool
import c12

TECHNIQUE = 'interprocedural SSA taint to index sinks with dominating-guard matching; lane-width rule; per-character path evaluation of printf'
TUS = ['WorkItem', 'WorkItemBuiltins', 'WorkGroup', 'Uninitialized', 'MemCheck', 'RaceDetector']
OPTS = ('--extra-inline', 'std::vector|__gnu_cxx|std::pair|__ops|WorkItemBuiltins::(([fus][123]|rel[12])arg)$')
NOTE = 'simulated addresses are bounds-checked by Memory (C02) and image coordinates become addresses; simulation files are decided in C34'
ASSUMPTIONS = ['the lane counts of builtin operands are the ones OpenCL declares; elementwise LLVM instructions have operands as wide as '
               'their result (guaranteed by the LLVM verifier)']
TV = 'oclgrind::TypedValue::'
ACC = ('getUInt', 'getSInt', 'getFloat', 'getPointer')
SETS = ('setUInt', 'setSInt', 'setFloat', 'setPointer')
RES = ('arg', 'result')
# operands OpenCL lets be scalar while the result is a vector
SCALAR = {'clamp': (1, 2), 'max': (1,), 'min': (1,), 'mix': (2,), 'smoothstep': (0, 1), 'step': (0,), 'ldexp': (1,), 'fmax': (1,),
          'fmin': (1,)}
# least number of lanes of a value a builtin is declared with
LEAST = {('cross', 0): 3, ('cross', 1): 3, ('cross', 'result'): 3, ('get_image_dim', 'result'): 2}
for n_ in ('read_imagef', 'read_imagei', 'read_imageui'):
    LEAST[n_, 'result'] = 4
for n_ in ('write_imagef', 'write_imagei', 'write_imageui'):
    LEAST[n_, 2] = 4
# builtins whose operands are not as wide as the result (their lanes must be bounded by the operand itself)
OTHER = {'dot', 'distance', 'fast_distance', 'length', 'fast_length', 'any', 'all', 'printf', 'vstore', 'vstore_half'}


# ------------------------------------------------------------------ objects
def operand(e):
    """LLVM value a TypedValue expression was obtained for: ('op', value) / 'result' / None"""
    e = nz(e)
    if e[0] == 'ptrto':
        e = e[1]
    if e == RES:
        return 'result'
    if e[0] == 'call':
        n = short(e[1])
        if n in ('getOperand', 'getValue') and not e[1].startswith('llvm::'):
            return ('op', norm(e[-1]))
        if n == 'clone' and len(e) > 2:
            return operand(e[-1])
        if n in ('getShadow', 'getCleanValue', 'getPoisonedValue') and len(e) > 2:
            return operand(e[-1])
    return None


def norm(v):
    """an operand of the call / instruction at hand by number"""
    v = nz(v)
    if v[0] == 'call' and short(v[1]) in ('getArgOperand', 'getOperand') and v[1].startswith('llvm::') and v[-1][0] == 'c':
        return v[-1][1]
    return v


def data_object(e):
    """object whose lane data an address points into"""
    e = nz(e)
    if e[0] == 'xv' and e[1] == (1,):
        return operand(e[2])
    if e[0] == 'load' and e[1][0] == 'fld' and e[1][2] in ('data', '#1'):
        return operand(e[1][1])
    return None


def width(f, e, seen=()):
    """(True, object) when e is a number of lanes, object None if it may be that of several operands"""
    e = nz(e)
    if e[0] == 'load' and e[1][0] == 'fld' and e[1][2] in ('num', '#num'):
        return True, operand(e[1][1])
    if e[0] == 'lshr' and e[2] == C(32) and e[1][0] == 'xv' and e[1][1] == (0,):
        return True, operand(e[1][2])
    if e[0] == 'call' and short(e[1]) == 'getNumElements':
        ts = [x for x in subexprs(e) if is_call(x, 'llvm::Value::getType')]
        if ts:
            return True, ('op', norm(ts[0][2]))
        return True, None
    if e[0] == 'phi' and e[1] not in seen:
        os, ok = set(), False
        for v, p in f.insts[e[1]].args:
            x = nz(f.expr(v))
            if x == C(1):                                             # a scalar has one lane
                continue
            w, o = width(f, x, seen + (e[1],))
            if not w:
                return False, None
            ok = True
            os.add(repr(o) if o is None else o)
        return ok, (list(os)[0] if len(os) == 1 and None not in os and 'None' not in os else None)
    return False, None


def subexprs(e):
    if isinstance(e, tuple) and e:
        yield e
        for x in e:
            if isinstance(x, tuple):
                yield from subexprs(x)


# ------------------------------------------------------------------ taint
class Taint:
    def __init__(self, f, params=()):
        self.f, self.params = f, params
        T, A = set(), set()
        ch = True
        while ch:
            ch = False
            for i in f.all():
                if i.id in T:
                    continue
                t = False
                if i.op == 'call':
                    c = i.callee or ''
                    if c.startswith(TV) and short(c) in ACC:
                        t = True
                    elif c == 'oclgrind::Memory::load' and len(i.args) > 1:
                        r = root(nz(f.expr(i.args[1])))
                        if r[0] == 'alloca' and r not in A:
                            A.add(r)
                            ch = True
                        continue
                    elif short(c).split('<')[0] in ('min', 'max', 'abs', '_min_', '_max_') or c.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
                        t = any(self.on(a, T) for a in i.args)
                    else:
                        continue
                elif i.op == 'phi':
                    t = any(self.on(v, T) for v, _ in i.args)
                elif i.op == 'load':
                    t = root(nz(f.expr(i.args[0]))) in A
                elif i.op in ('gep', 'store', 'br', 'icmp', 'fcmp', 'switch', 'ret'):
                    continue
                else:
                    t = any(self.on(a, T) for a in i.args)
                if t:
                    T.add(i.id)
                    ch = True
        self.T, self.A = T, A

    def on(self, a, T=None):
        T = self.T if T is None else T
        if not isinstance(a, (list, tuple)) or not a:
            return False
        if a[0] == 'v':
            return a[1] in T
        if a[0] == 'a':
            return a[1] in self.params
        return False


def raw_guards(f, bid):
    """raw comparison expressions of the branches dominating a block"""
    out = []
    for b in f.blocks:
        if b.term.op == 'br' and b.term.args and b.id != bid and f.dominates_block(b.id, bid):
            out += [x for x in subexprs(f.expr(b.term.args[0])) if x[0] == 'icmp']
    return out


def narrow(x):
    return x[0] == 'trunc' and x[1] in ('i8', 'i16', 'i32')


def narrowed(e):
    """e with only leading casts looked at: is the value itself truncated"""
    while isinstance(e, tuple) and e and e[0] in ('zext', 'sext', 'trunc'):
        if narrow(e):
            return True
        e = e[2]
    return False


def guards(fs, e, f=None):
    for a, p in fs:
        if f is not None and a[0] == 'eq' and not p:                  # for (i = 0; i != n; i++)
            for l, r in ((a[1], a[2]), (a[2], a[1])):
                if same(l, e) and counts_up(f, nz(e), 0, 1):
                    yield nz(r)
        if a[0] in ('lt', 'slt'):
            if p and same(a[1], e):
                yield nz(a[2])
            # !(bound <= e) spelled !(bound - 1 < e)
            if not p and same(a[2], e):
                yield ('add', nz(a[1]), C(1))


def bounded(f, bid, raw, obj, fs, seen=(), fixed=None):
    """index expression raw (used in block bid) is below the width of obj (or below `fixed`)"""
    e = nz(raw)

    def fit(b):
        if fixed is not None:
            return nz(b)[0] == 'c' and nz(b)[1] <= fixed
        w, o = width(f, b)
        return w and (obj is None or o is None or o == obj or o[0] == 'op' and o[1] in choices(f, obj)
                      or o[0] == obj[0] == 'op' and f.short.endswith('shuffle2_builtin') and {o[1], obj[1]} == {0, 1})   # of one type
    if e[0] == 'c':
        return fixed is not None and 0 <= e[1] < fixed
    if e[0] == 'urem' and fit(e[2]):
        return True
    for g in guards(fs, e, f):
        if fit(g):
            if narrowed(raw):
                return True
            rg = [c for c in raw_guards(f, bid) if any(same(s, e) for s in c[2:])]
            if not rg or any(same(s, e) and not narrowed(s) for c in rg for s in c[2:]):
                return True
    if e[0] == 'sub' and nz(e[1])[0] == 'urem':                       # (x % 2m) - m when x % 2m >= m
        m = nz(e[2])
        if poly(nz(nz(e[1])[2])) == pscale(poly(m), 2) and fit(m) and atmost(fs, m, e[1]):
            return True
    if e[0] == 'phi' and e[1] not in seen:
        ph = f.insts[e[1]]
        ok = True
        for v, p in ph.args:
            x = f.expr(v)
            fe = facts(f, p) | frozenset(edge_literals(f, p, ph.blk.id))
            if nz(x) == C(0):
                continue
            if not bounded(f, p, x, obj, fe, seen + (e[1],), fixed):
                # x % 2m not taking the >= m branch
                y = nz(x)
                if y[0] == 'urem' and fixed is None:
                    if any(width(f, g)[0] for g in guards(fe, y)):
                        continue
                ok = False
                break
        return ok
    return False


def choices(f, obj):
    """operand numbers an operand chosen between several stands for (they are declared with one type)"""
    if obj == 'result' or obj is None or not is_call(obj[1], 'llvm::CallBase::getArgOperand'):
        return ()
    if nz(obj[1][-1])[0] in ('udiv', 'icmp') and few(obj[1][-1]):
        return {0, 1}
    if obj[1][-1][0] != 'phi':
        return ()
    ks = [nz(f.expr(v)) for v, p in f.insts[obj[1][-1][1]].args]
    return {k[1] for k in ks} if all(k[0] == 'c' for k in ks) else ()


def factors(e):
    while isinstance(e, tuple) and e[0] in ('zext', 'sext', 'trunc') and mentions(e, lambda x: x[0] == 'mul'):
        e = e[2]
    if e[0] == 'mul':
        return factors(e[1]) + factors(e[2])
    return [e]


def tainted(e, t):
    """expression depends on a kernel value"""
    ps = {p['n'] for k, p in enumerate(t.f.params) if k in t.params}
    return mentions(e, lambda x: x[0] == 'call' and x[1].startswith(TV) and short(x[1]) in ACC or x[0] == 'phi' and x[1] in t.T or
                    x[0] == 'arg' and x[1] in ps or x[0] == 'load' and root(nz(x[1])) in t.A)


SKIP = ('oclgrind::Memory::', 'oclgrind::TypedValue::', 'llvm.', 'std::', '__gnu', 'oclgrind::MemoryPool::alloc', 'operator new',
        'oclgrind::MemoryPool::clone')


def analyse(P, R, f, params, done, plugin):
    key = (f.name, tuple(sorted(params)))
    if key in done:
        return
    done.add(key)
    t = Taint(f, params)
    if not t.T and not params:
        return
    R.ok('flow', f.short, f)
    for i in f.all():
        fs = None
        if i.op == 'gep':
            for p in i.d['p']:
                if p[0] == 'f' or not isinstance(p[1], list) or not t.on(p[1]):
                    continue
                fs = facts(f, i.blk.id)
                base = f.expr(i.args[0])
                obj = data_object(base)
                r = root(nz(base))
                fixed = None
                if r[0] == 'alloca':
                    m = re_array(f, r)
                    fixed = m
                bad = [x for x in factors(f.expr(p[1])) if tainted(x, t) and not bounded(f, i.blk.id, x, obj, fs, (), fixed)]
                if bad and checked_address(f, fs, params):
                    bad = []
                R.check(not bad, 'index', '%s:%s' % (f.short, i.line), i.loc(),
                        'a value chosen by the kernel addresses %s without being checked against its size' % show(nz(base))[:60], fn=f)
        elif i.op == 'call':
            c = i.callee or ''
            n = short(c).split('<')[0]
            for k, a in enumerate(i.args):
                if not t.on(a):
                    continue
                x = f.expr(a)
                fs = facts(f, i.blk.id)
                if n in ('operator[]', 'at') and k == 1:
                    if c.startswith('oclgrind::Size3'):
                        R.check(bounded(f, i.blk.id, x, None, fs, (), 3), 'index', '%s:%s' % (f.short, i.line), i.loc(),
                                'a dimension chosen by the kernel is not checked to be below three', fn=f)
                    elif 'map<' not in c:
                        R.check(bounded(f, i.blk.id, x, None, fs) or below_size(fs, f.expr(i.args[0]), x), 'index', '%s:%s' % (f.short, i.line), i.loc(),
                                'a value chosen by the kernel indexes a container without being checked against its size', fn=f)
                elif c.startswith(('oclgrind::Memory::getPointer', 'oclgrind::ShadowMemory::getPointer')) and k == 1 and f.short != 'printExpression':
                    R.check(valid_address(fs, f.expr(i.args[0]), x), 'address', '%s:%s' % (f.short, i.line), i.loc(),
                            'the host address of a pointer chosen by the kernel is taken without checking the pointer', fn=f)
                elif not c.startswith(SKIP) or c.startswith('oclgrind::WorkItemBuiltins'):
                    for g in P.get(c) if c else ():
                        if g.relfile() is not None and k < len(g.params) and g.short not in ('isAddressValid', 'extractBuffer', 'extractOffset'):
                            analyse(P, R, g, frozenset(q_ for q_, b in enumerate(i.args) if q_ < len(g.params) and t.on(b)), done, plugin)


def re_array(f, r):
    import re
    a = f.insts.get(r[1])
    m = re.match(r'\[(\d+) x', str(a.d.get('at', a.d.get('t', '')))) if a is not None else None
    return int(m.group(1)) if m else None


def valid_address(fs, mem, x):
    return any(p and a[0] == 'true' and nz(a[1])[0] == 'call' and short(nz(a[1])[1]) == 'isAddressValid' and same(nz(a[1])[2], mem) and
               same(nz(a[1])[3], x) for a, p in fs)


def checked_address(f, fs, params):
    """inside a shadow memory accessor: the (address, size) it was given have been validated"""
    return any(p and a[0] == 'true' and nz(a[1])[0] == 'call' and short(nz(a[1])[1]) == 'isAddressValid' for a, p in fs)


def below_size(fs, cont, x):
    return any(mentions(g, lambda y: y[0] == 'call' and short(y[1]) == 'size') for g in guards(fs, nz(x)))


def counted_operand(f, fs, x):
    for g in guards(fs, nz(x)):
        ns = [y for y in subexprs(nz(g)) if y[0] == 'call' and short(y[1]) in ('arg_size', 'getNumOperands')]
        if ns:
            d = padd(poly(nz(g)), pscale(poly(ns[0]), -1))
            d = {k: v for k, v in d.items() if v}
            if not d or set(d) == {()} and d[()] <= 0:
                return True
    return False


def few(x):
    """the value is one of two constants: a condition, a choice between constants, or (x % 2m) / m"""
    x = nz(x)
    if x[0] in ('icmp', 'c'):
        return True
    if x[0] == 'select':
        return few(x[2]) and few(x[3])
    return x[0] == 'udiv' and nz(x[1])[0] == 'urem' and poly(nz(nz(x[1])[2])) == pscale(poly(nz(x[2])), 2)


def operand_value(x):
    x = nz(x)
    return x[0] == 'call' and x[1] == TV + 'getPointer'


# ------------------------------------------------------------------ lanes
def is_vector(fs, k):
    """the facts say operand k is a vector (or has several lanes)"""
    for a, p in fs:
        if a[0] == 'true' and p:
            e = nz(a[1])
            if e[0] == 'call' and short(e[1]) == 'isVectorTy' and any(is_call(x, 'llvm::Value::getType') and norm(x[2]) == k for x in subexprs(e)):
                return True
        if a[0] in ('lt', 'slt') and p and nz(a[1]) == C(1) and width(None, a[2])[1] == ('op', k):
            return True
        if a[0] == 'eq' and width(None, a[1])[0] and width(None, a[2])[0] and p:
            return True
        if a[0] == 'eq' and not p and C(1) in (nz(a[1]), nz(a[2])) and ('op', k) in (width(None, a[1])[1], width(None, a[2])[1]):
            return True
    return False


def lane_of(R, f, i, names, lane=None, fs=None):
    tv, lane = f.expr(i.args[0]), nz(f.expr(i.args[-1])) if lane is None else lane
    obj = operand(tv)
    fs = facts(f, i.blk.id) if fs is None else fs
    if lane[0] == 'select':                                           # one of two lane numbers: each where it is chosen
        for pol, x in ((True, lane[2]), (False, lane[3])):
            r = lane_of(R, f, i, names, nz(x), frozenset(fs) | frozenset(literals(lane[1], pol)))
            if r is not True:
                return r
        return True
    key = '%s:%d' % (f.short, i.line)
    what = short(i.callee)
    if lane[0] == 'c':
        if lane[1] == 0:
            return True
        k = obj if obj == 'result' else obj[1] if obj else None
        least = min([LEAST.get((n, k), 1) for n in names] or [1])
        if lane[1] < least:
            return True
        if any(width(f, b)[1] == obj and width(f, b)[0] and a_ >= lane[1] for b, a_ in lower(fs)):
            return True
        if names & IMAGES and k == 1 and lane[1] < 4:                  # coordinate lanes follow the image type
            return True
        if names == {'get_image_dim'} and any(width(f, b)[1] == obj and width(f, b)[0] and a_ >= 2 for b, a_ in lower(fs)):
            return lane[1] < 4                                        # two or four lanes
        return 'lane %d is used although %s may have fewer' % (lane[1], 'the result' if obj == 'result' else 'operand %s' % (k,))
    ok = False
    k = obj if obj == 'result' else obj[1] if obj else None
    for g in guards(fs, lane, f):
        if g[0] == 'c' and g[1] <= min([LEAST.get((n, k), 1) for n in names] or [1]) and counts_up(f, lane):
            ok = True
        if obj is None and any(not p and a[0] in ('lt', 'slt') and same(a[2], g) and width(f, a[1])[0] for a, p in fs):
            ok = True                                                 # at least g lanes were found
        w, o = width(f, g)
        if not w:
            continue
        if o is not None and o == obj:
            ok = True
        elif obj == 'result':
            # lanes of an operand as wide as the result
            ok |= o is not None and not names & OTHER and o[1] not in scal(names)
        elif obj is not None and isinstance(obj[1], int):
            if o == 'result':
                ok |= (obj[1] not in scal(names) or any(is_vector(fs, j) for j in together(names, obj[1]))) and not names & OTHER
            elif o is not None and isinstance(o[1], int):
                ok |= obj[1] not in scal(names) and o[1] not in scal(names)
        elif obj is not None:
            ok |= True                                                # elementwise instruction operand
        elif o is None:
            ok |= True
    if ok:
        return True
    if bounded(f, i.blk.id, f.expr(i.args[-1]), obj, fs):
        return True
    return 'lane number of %s is not bounded by the width of %s' % (what, 'the result' if obj == 'result' else 'operand %s' % (obj[1] if obj and isinstance(obj[1], int) else '',))


def counts_up(f, e, start=None, step=None):
    """a loop counter that starts at a constant and grows"""
    if e[0] != 'phi':
        return False
    return all(x[0] == 'c' and (x[1] >= 0 if start is None else x[1] == start) or
               x[0] == 'add' and any(same(y, e) for y in x[1:]) and any(y[0] == 'c' and (y[1] > 0 if step is None else y[1] == step) for y in x[1:])
               for x in (nz(f.expr(v)) for v, p in f.insts[e[1]].args))


def lower(fs):
    """(expr, n): expr > n known"""
    for a, p in fs:
        if a[0] in ('lt', 'slt'):
            l, r = nz(a[1]), nz(a[2])
            if p and l[0] == 'c':
                yield r, l[1]
            if not p and r[0] == 'c':
                yield l, r[1] - 1
        if a[0] == 'eq' and p:
            for l, r in ((nz(a[1]), nz(a[2])), (nz(a[2]), nz(a[1]))):
                if r[0] == 'c':
                    yield l, r[1] - 1


IMAGES = {'read_imagef', 'read_imagei', 'read_imageui', 'write_imagef', 'write_imagei', 'write_imageui'}


def scal(names):
    return {k for n in names for k in SCALAR.get(n, ())}


def together(names, k):
    """operands that are scalar exactly when operand k is"""
    return {j for n in names if k in SCALAR.get(n, ()) for j in SCALAR[n]} or {k}


def run(P, R):
    R.rule('flow', 'Functions in which values chosen by a kernel are followed.', 40)
    R.rule('index', 'A value chosen by a kernel that indexes an array, a vector value or a container is compared, at full width, with the '
           'size of that object (or reduced modulo it) on every path to the use.', 10)
    R.rule('operand', 'An argument or operand number that depends on kernel data is compared with the number of arguments of the call.', 1)
    R.rule('address', 'The host address behind a pointer chosen by a kernel is taken only after the pointer and the size accessed were '
           'found valid.', 1)
    R.rule('shadow', 'The shadow memory accessors touch a buffer only when it exists and contains the whole range.', 3)
    R.rule('lane', 'Every access to a lane of a value is within its width: lane loops end at the width of the result or of the value itself, '
           'operands that OpenCL allows to be scalar are read by lane only when they are vectors, and fixed lanes exist for every declared '
           'type.', 200)
    R.rule('printf', 'For every value a format character can have, printf passes the host a conversion only if it is one of the supported '
           'specifiers: an unsupported character is never part of a host format, and the end of readable memory ends the format.', 256)
    done = set()
    for f in list(P.fns.values()):
        if f.relfile() is None or (f.qual or '').startswith('oclgrind::TypedValue') or f.tu not in TUS:
            continue
        analyse(P, R, f, frozenset(), done, None)
    # addresses found in the variables the debugger prints
    f = P.one('oclgrind::WorkItem::printExpression')
    for i in calls(f, 'oclgrind::Memory::getPointer'):
        x = f.expr(i.args[1])
        if operand_value(x):
            continue                                                  # the variable's own storage
        R.check(valid_address(facts(f, i.blk.id), f.expr(i.args[0]), x), 'address', 'printExpression', i.loc(),
                'the host address of an element is taken without checking that address', fn=f)
    # shadow memory
    for n, at in (('load', 2), ('store', 2)):
        f = P.one('oclgrind::ShadowMemory::' + n)
        ps = pnames(f)
        adr, size = ('arg', ps[2]), ('arg', ps[3])
        for i in f.all():
            if i.op == 'call' and (i.callee or '').startswith('llvm.memcpy'):
                sh = [a for a in i.args[:2] if mentions(nz(f.expr(a)), lambda x: x[0] == 'fld' and x[2] == 'm_map' or x[0] == 'call' and 'unordered_map' in x[1])]
                if not sh:
                    continue
                fs = facts(f, i.blk.id)
                ok = any(p and a[0] == 'true' and nz(a[1])[0] == 'call' and short(nz(a[1])[1]) == 'isAddressValid' and
                         tuple(nz(a[1])[3:]) == (adr, size) for a, p in fs) and nz(f.expr(i.args[2])) == size
                R.check(ok, 'shadow', n, i.loc(), 'shadow bytes are accessed without validating the address and size', fn=f)
    f = P.one('oclgrind::ShadowMemory::isAddressValid')
    bad = None
    for v, fs, b in ret_values(f):
        v = nz(v)
        if v == C(0):
            continue
        found = any(mentions(a, lambda x: x[0] == 'call' and short(x[1]) in ('count', 'find', 'contains')) for a, p in fs)
        fits = mentions(v, lambda x: x[0] == 'arg' and x[1] == 'size') or any(mentions(a, lambda x: x[0] == 'arg' and x[1] == 'size') for a, p in fs)
        if not (found and fits and range_ok(v, fs)):
            bad = 'a range is accepted that no shadow buffer contains'
    R.check(bad is None, 'shadow', 'isAddressValid', floc(f), bad, fn=f)
    # lanes
    t = tables(P)
    for f in list(P.fns.values()):
        if f.relfile() is None or f.tu not in ('WorkItem', 'WorkItemBuiltins') or (f.qual or '').startswith('oclgrind::TypedValue'):
            continue
        if (f.qual or '').startswith('oclgrind::WorkItemBuiltins'):
            names = frozenset(t.get(f.short, ()))
        else:
            names = frozenset()
        n = 0
        for i in f.calls:
            if (i.callee or '').startswith(TV) and short(i.callee) in ACC + SETS:
                if f.short == 'getCoordinate':
                    continue
                r = lane_of(R, f, i, names)
                R.check(r is True, 'lane', '%s:%s' % (f.short, short(i.callee)), i.loc(), r if r is not True else '', fn=f)
        for i in f.calls:
            if (i.callee or '') == 'llvm::CallBase::getArgOperand' and (f.qual or '').startswith('oclgrind::WorkItemBuiltins'):
                x = nz(f.expr(i.args[1]))
                if x[0] == 'c' or x[0] == 'phi' and all(nz(f.expr(v))[0] == 'c' for v, p in f.insts[x[1]].args):
                    continue
                if few(x):
                    continue
                if x[0] == 'arg':                                     # the accessor helpers are given a constant
                    continue
                R.check(counted_operand(f, facts(f, i.blk.id), x), 'operand', f.short, i.loc(),
                        'an operand number is not checked against the number of operands of the call', fn=f)
    printf(P, R)


def range_ok(v, fs):
    lits = set(fs)
    if v[0] == 'icmp':
        lits |= set(literals(v, True))
    off = [x for a, p in lits for x in subexprs(nz_atom(a)) if x[0] == 'call' and short(x[1]) == 'extractOffset']
    lim = [x for a, p in lits for x in subexprs(nz_atom(a)) if x[0] == 'load' and mentions(x, lambda y: y[0] == 'call' and short(y[1]) in ('at', 'find', 'operator[]'))]
    return any(inside(lits, o, ('arg', 'size'), l) for o in off for l in lim)


def tables(P):
    t = {}
    _, exact, prefix = c12.table(P)
    for n, v in list(exact.items()) + [(x[0], x[1:]) for x in prefix]:
        if v[0]:
            t.setdefault(short(v[0]), set()).add(n)
    return t


CONV = {**dict.fromkeys('dic', 'integer'), **dict.fromkeys('ouxXp', 'integer'), **dict.fromkeys('fFeEgGaA', 'double'), 's': 'string'}
PARTS = set('+-#. l0123456789%')


class Chars:
    """what printf does between reading one format character and reading the next, for a given value of the character"""

    def __init__(self, P, f):
        self.f = f
        self.host = [i for i in f.calls if i.callee == 'printf']
        self.strings = set()
        for i in self.host:
            e = nz(f.expr(i.args[0]))
            if is_str(e, ('c_str', 'data')):
                self.strings.add(root(nz(e[2])))
        # variables format characters are read into: read, and appended to a host format
        self.appends = [i for i in f.calls if 'basic_string' in (i.callee or '') and short(i.callee) in ('operator+=', 'push_back', 'append', 'insert') and
                        root(nz(f.expr(i.args[0]))) in self.strings]
        self.vars = {root(nz(x[1])) for i in self.appends for a in i.args[1:] for x in subexprs(f.expr(a)) if x[0] == 'load' and root(nz(x[1]))[0] == 'alloca'}
        self.reads = [i for i in f.calls if i.callee == 'oclgrind::Memory::load' and root(nz(f.expr(i.args[1]))) in self.vars]

    def follow(self, start, v, good):
        """events after read `start` when it delivers v (good) or fails: set of ('append', value) / ('host', kind, inst) /
        ('read', inst) / ('end',)"""
        f, out = self.f, {}
        seen = set()
        blocks = {x.id: x for x in f.blocks}
        work = [(start.blk.id, start.pos + 1, v if good else None, ())]
        sid = start.id
        while work:
            b, pos, cur, env = work.pop()
            if (b, pos, cur, env) in seen:
                continue
            seen.add((b, pos, cur, env))
            blk = blocks[b]
            env = dict(env)
            done = False

            def leaf(e):
                if e[0] == 'phi':
                    return env.get(e[1])
                if e[0] == 'load' and root(nz(e[1])) in self.vars:
                    return cur
                if e[0] == 'call' and e[1] == 'oclgrind::Memory::load' and nz(e) == nz(f.expr(['v', sid])):
                    return int(good)
                if e[0] == 'call' and e[1] in ('strchr', 'memchr') and e[2][0] == 's' and cur is not None:
                    t = e[2][1] + ('\0' if e[1] == 'strchr' else '')
                    return int(chr(cur & 255) in t)
                return None
            for i in blk.insts:
                if i.pos < pos:
                    continue
                if i.op == 'store' and root(nz(f.expr(i.args[1]))) in self.vars:
                    x = nz(f.expr(i.args[0]))
                    cur = x[1] if x[0] == 'c' else None
                elif i in self.reads:
                    out[('read', i.line)] = i
                    done = True
                    break
                elif i in self.appends:
                    xs = [Ev(f, leaf).val(f.expr(a), {}) for a in i.args[1:]]
                    x = [y for y in xs if isinstance(y, int)]
                    out[('append', x[-1] if x and len(xs) == len(x) else '?')] = i
                elif i in self.host:
                    e = nz(f.expr(i.args[0]))
                    if is_str(e, ('c_str', 'data')):
                        out[('host', self.kind(i))] = i
                    elif e[0] != 's':
                        out[('host', '?')] = i
                elif i.op in ('ret', 'unreachable', 'resume'):
                    out[('end', i.op)] = i
            if done:
                continue
            t = blk.term
            if t.op in ('br', 'switch') and t.args:
                c = Ev(f, leaf).val(f.expr(t.args[0]), {})
                if isinstance(c, int):
                    if t.op == 'br':
                        nxt = [t.d['s'][0 if c else 1]]
                    else:
                        hit = [d for k, d in t.d['cases'] if (k - c) & 0xff == 0 and (c & 0xffffffff) == (k & 0xffffffff) or k == c]
                        nxt = hit[:1] or [t.d['default']]
                else:
                    nxt = t.d['s']
            else:
                nxt = t.d.get('s', ())
            for n in nxt:
                e2 = dict(env)
                for i in blocks[n].insts:
                    if i.op == 'phi':
                        e2.pop(i.id, None)
                        for a, p in i.args:
                            x = f.expr(a)
                            if p == b and not mentions(x, lambda y: y == ('phi', i.id)):
                                w = Ev(f, leaf).val(x, {})
                                if isinstance(w, int):
                                    e2[i.id] = w
                work.append((n, 0, cur, tuple(sorted(e2.items()))))
        return out

    def kind(self, i):
        f = self.f
        if len(i.args) < 2:
            return 'none'
        e = nz(f.expr(i.args[1]))
        if is_call(e, TV + 'getFloat'):
            return 'double'
        if is_call(e, TV + 'getSInt') or is_call(e, TV + 'getUInt'):
            return 'integer'
        if e == C(0) or e[0] == 's' or is_str(e, ('c_str', 'data')):
            return 'string'
        return '?'


def is_str(e, names):
    return e[0] == 'call' and 'basic_string' in e[1] and short(e[1]) in names


def printf(P, R):
    f = builtin(P, 'printf_builtin')
    ch = Chars(P, f)
    if not R.check(bool(ch.strings and ch.appends and ch.reads), 'printf', 'shape', floc(f),
                   'no format string is assembled from the characters printf reads', fn=f):
        return
    for v in range(256):
        sv = v - 256 if v > 127 else v
        c = chr(v)
        bad = None
        for rd in ch.reads:
            out = ch.follow(rd, sv, True)
            for ev, i in out.items():
                if ev[0] == 'append':
                    if ev[1] == '?' or ev[1] & 255 != v:
                        if not (isinstance(ev[1], int) and (chr(ev[1] & 255) in PARTS)):
                            bad = 'a character that is not the one read becomes part of a host format', i
                    elif c not in PARTS and c not in CONV:
                        bad = 'character %r becomes part of a host format' % c, i
                elif ev[0] == 'host' and CONV.get(c) != ev[1]:
                    bad = 'character %r ends a host format that is given %s' % (c, 'an operand of type ' + ev[1]), i
                elif ev[0] == 'read' and v == 0:
                    bad = 'characters are read behind the terminator', i
        R.check(bad is None, 'printf', 'character %d' % v, bad[1].loc() if bad else floc(f), bad[0] if bad else '', fn=f)
    for rd in ch.reads:
        out = ch.follow(rd, None, False)
        bad = [i for ev, i in out.items() if ev[0] in ('append', 'host', 'read')]
        R.check(not bad, 'printf', 'read', rd.loc(), 'printf goes on after a format character could not be read', fn=f)
    # %ls makes the host read wide characters from a byte string
    for i in ch.host:
        if ch.kind(i) == 'string' and is_str(nz(f.expr(i.args[0])), ('c_str', 'data')):
            ok = any(mentions(a, lambda x: x[0] == 'call' and short(x[1]) in ('find', 'find_first_of', 'contains', 'strchr') and
                              any(y in (C(ord('l')), S_('l')) for y in x[2:])) for a, p in facts(f, i.blk.id))
            R.check(ok, 'printf', 'ls', i.loc(), 'a byte string is printed with a format that may contain the length modifier l', fn=f)


def S_(t):
    return ('s', t)
