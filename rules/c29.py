"""C29: Uninitialized's transfer functions are evaluated path-wise per instruction kind, per intrinsic and per builtin name
of the interpreter's own tables.  Every case must give the result a shadow that depends on the shadow of every operand (the
operand's shadow reaches it, was tested clean on the path, or the result is poisoned), move shadow state between exactly
the addresses, address spaces and byte counts of the simulated access, and report undefined addresses, indices and
branch conditions on exactly the paths where they are undefined.  The shadow memory primitives, the frames of values and
the plugin hooks that mark host-written and fresh memory are decided the same way."""
from common import *
from flow import Flow
import c08
import c12
import os
import re

TECHNIQUE = 'taint-transfer completeness: path-wise evaluation of the shadow rule of every opcode, intrinsic and builtin name against the interpreter\'s own tables and address formulas'
TUS = ['Uninitialized', 'WorkItem', 'WorkItemBuiltins', 'Memory', 'WorkGroup', 'common']
OPTS = ('--split-selects', '--extra-inline', 'ShadowContext::(getGlobalMemory|getMemoryPool)$')
NOTE = ('The checker itself documents approximations that are kept out of the rules: constant memory is always defined, the content of '
        'images is not tracked, an undefined element of a constant aggregate other than a vector is defined, and bit-precise shadows '
        'exist for integer casts and shifts only.')
ASSUMPTIONS = ['sizes of single accesses are below 4 GiB (TypedValue::size is 32 bits wide)',
               'the simulator notifies instructionExecuted once per executed instruction (C04) and forwards the hooks (C03)']
U = 'oclgrind::Uninitialized::'
SC = 'oclgrind::ShadowContext::'
TV = 'oclgrind::TypedValue::'
PRIV, GLOB, CONST, LOC = 0, 1, 2, 3
ARGACC = {'getDest': 'dst', 'getSource': 'src', 'getLength': 'len', 'getValue': 'val', 'getReturnValue': 'ret', 'getRawDest': 'dst',
          'getRawSource': 'src'}


def key(v):
    """which operand an llvm::Value expression denotes"""
    v = nz(v)
    k = c08.opk(v)
    if k is not None:
        return k
    if v[0] == 'call' and len(v) == 4 and v[1].endswith('::getArgOperand'):
        if v[3][0] == 'c':
            return v[3][1]
        if v[3] in (('sub', ('call', 'llvm::CallBase::arg_size', v[2]), ('c', 1)), ('add', ('call', 'llvm::CallBase::arg_size', v[2]), ('c', -1))):
            return 'last'
    if v[0] == 'call' and len(v) == 3:
        s = v[1].rsplit('::', 1)[-1]
        if s in ARGACC:
            return ARGACC[s]
    return v


def packed(e):
    """the first half of a TypedValue taken apart and put together again"""
    if e[0] == 'or' and len(e) == 3:
        for a, b in ((e[1], e[2]), (e[2], e[1])):
            if a == ('shl', ('lshr', b, ('c', 32)), ('c', 32)):
                return b
    return e


def tv(e):
    """('sh'|'op', operand, value expression) of a TypedValue expression"""
    e = packed(nz(e))
    while e[0] in ('ptrto', 'xv') or (e[0] == 'load' and e[1][0] == 'ptrto'):
        e = e[2] if e[0] == 'xv' else e[1]
    if e[0] == 'call' and len(e) == 5 and e[1] == SC + 'getValue':
        return 'sh', key(e[4]), nz(e[4])
    if e[0] == 'call' and len(e) == 4 and e[1].endswith('WorkItem::getOperand'):
        return 'op', key(e[3]), nz(e[3])
    return None


def shadows(e):
    """operands whose shadow an expression mentions"""
    r = set()

    def see(x):
        t = tv(x)
        if t and t[0] == 'sh':
            r.add(t[1])
        return False
    mentions(e, see)
    return r


def clean(a):
    """(operand, lane|None) an isCleanValue literal tests"""
    if a[0] == 'true' and a[1][0] == 'call' and short(a[1][1]) == 'isCleanValue':
        x = a[1][2:]
        t = tv(x[0])
        if t and t[0] == 'sh':
            lane = None
            if len(x) > 1 and not (len(x) == 2 and tv(x[1]) == t) and tv(x[-1]) != t:
                lane = nz(x[-1])
            return t[1], lane
    return None


def cleans(p):
    r = {}
    for a, pol in p.lits:
        k = clean(a)
        if k:
            r.setdefault(k, pol)
    return r


def setvalues(p):
    """[(event, llvm value, shadow expression)] of the values given a shadow on the path"""
    return [(e, nz(e[3][1]), e[3][2]) for e in p.events if e[0] == 'call' and short(e[2]) == 'setValue' and len(e[3]) >= 3]


def made(e, *names):
    """a TypedValue built by ShadowContext::<name>"""
    e = packed(nz(e))
    while e[0] in ('ptrto', 'xv'):
        e = e[2] if e[0] == 'xv' else e[1]
    return e[0] == 'call' and e[1].startswith(SC) and short(e[1]) in names


def num(e, env):
    """value of an expression; env(e) gives leaves"""
    v = env(e)
    if v is not None:
        return v
    t = e[0]
    if t == 'c':
        return e[1]
    if t in ('zext', 'sext', 'trunc', 'bitcast'):
        v = num(e[2], env)
        if v is None:
            return None
        if t == 'trunc':
            return v & ((1 << int(e[1][1:])) - 1)
        return v
    if t == 'ptrto':
        return num(e[1], env)
    if t in ('add', 'sub', 'mul', 'or', 'and', 'shl', 'lshr', 'udiv', 'urem') and len(e) == 3:
        a, b = num(e[1], env), num(e[2], env)
        if a is None or b is None:
            return None
        if t in ('udiv', 'urem') and not b:
            return None
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'or': lambda: a | b, 'and': lambda: a & b,
                'shl': lambda: a << b, 'lshr': lambda: a >> b, 'udiv': lambda: a // b, 'urem': lambda: a % b}[t]()
    return None


def environment(f, shapes):
    """leaf values when operand k (or 'result') has (size, lanes) = shapes[k]"""
    res = [x for x in (('arg', 'result'),)]
    for i in f.insts.values():
        if i.op == 'alloca' and i.d.get('dn') == 'result':
            res.append(('alloca', i.id))

    def ent(k):
        s = shapes.get(k)
        return None if s is None else s[0] | s[1] << 32

    def env(e):
        if e[0] == 'xv' and e[1] == (0,):
            x = e[2]
            t = tv(x)
            if t and t[0] == 'sh':
                return ent(t[1])
            if x[0] == 'call' and x[1].endswith('MemoryPool::clone'):
                y = nz(x[-1])
                t = tv(x[-1])
                return ent(t[1]) if t else ent('result') if (root(y) in [root(z) for z in res] or y in res or x[-1] in res or
                                                             (x[-1][0] in ('clob', 'load') and x[-1][1] in res)) else None
            if made(x, 'getCleanValue', 'getPoisonedValue'):
                if key(x[-1]) in shapes:
                    return ent(key(x[-1]))
                if len(x) == 4 and x[2][0] in ('load', 'clob') and x[2][1] in res:
                    return ent('result')
                n = num(x[-1], env)
                return None if n is None else n | 1 << 32
            return None
        if e[0] in ('clob', 'load'):
            a = e[1]
            if a in res:
                return shapes['result'][0]
            if a[0] == 'fld' and a[1] in res and a[2] == 'num':
                return shapes['result'][1]
            if a[0] == 'fld' and a[1] in res and a[2] == 'size':
                return shapes['result'][0]
            t = tv(a[1]) if a[0] == 'fld' else tv(a)
            if t and t[0] == 'sh' and t[1] in shapes:
                return shapes[t[1]][1 if a[0] == 'fld' and a[2] in ('num', '#1') else 0]
        if e[0] == 'call':
            s = short(e[1])
            if s == 'getTypeSize' and e[-1][0] == 'call' and e[-1][1].endswith('Value::getType'):
                k = key(e[-1][2])
                if k in shapes:
                    return shapes[k][0] * (4 if shapes[k][1] == 3 else shapes[k][1])
            if s == 'isVector3' and key(e[-1]) in shapes:
                return int(shapes[key(e[-1])][1] == 3)
            if e[1] == TV + 'getPointer' and tv(e[2]):
                return 0x1000000
            if e[1] == TV + 'getUInt' and tv(e[2]):
                return 7
        if e[0] == 'and' and e[2] == ('c', 1) and e[1][0] == 'call' and short(e[1][1]) == 'isVector3':
            return env(e[1])
        return None
    return env


def feasible(p, env):
    for a, pol in p.lits:
        if a[0] == 'true':
            v = num(a[1], env)
            if v is not None and bool(v) != pol:
                return False
        elif a[0] in ('eq', 'lt', 'slt') and len(a) == 3:
            x, y = num(a[1], env), num(a[2], env)
            if x is not None and y is not None and ((x == y) if a[0] == 'eq' else (x < y)) != pol:
                return False
    return True


def content(p, e, a):
    """(size expression, lanes expression) of the TypedValue passed by reference"""
    lo = p.at(e, a, 4)
    hi = p.at(e, ('fld', a, 'num'), 4)
    for x in (('fld', a, 'num'), ('cgep', a, 4), ('fld', a, '#1')):
        hi = p.at(e, x, 4)
        if hi[0] not in ('clob', 'load'):
            break
        if hi[0] == 'clob' and hi[1] != x:
            break
    return lo, hi


def accesses(p):
    """(event, 'load'|'store', space, address, (size, lanes) expressions, work-item)"""
    r = []
    for e in p.events:
        if e[0] != 'call':
            continue
        s = short(e[2])
        if s == 'loadShadowMemory':
            lo, hi = content(p, e, e[3][3])
            r.append((e, 'load', e[3][1], e[3][2], (lo, hi), e[3][4]))
        elif s == 'storeShadowMemory':
            x = e[3][3]
            r.append((e, 'store', e[3][1], e[3][2], (('trunc', 'i32', x), ('lshr', x, ('c', 32))), e[3][5]))
    return r


def ptrs(a, acc=('getPointer', 'getUInt')):
    """{(accessor, operand)} an address is computed from"""
    r = set()

    def see(x):
        if x[0] == 'call' and x[1] in (TV + 'getPointer', TV + 'getUInt') and tv(x[2]) and tv(x[2])[0] == 'op':
            r.add((short(x[1]), tv(x[2])[1], tv(x[2])[2]))
        return False
    mentions(a, see)
    return r


def space_of(s, want, val):
    """the address space expression is that of the pointer operand `want`"""
    s = nz(s)
    if s[0] != 'call':
        return False
    n = short(s[1])
    if n == 'getPointerAddressSpace' and len(s) == 3:
        x = s[2]
        if x[0] == 'call' and x[1].endswith('Value::getType'):
            return nz(x[2]) == val
        return x == ('arg', 'instruction') and want in (0, 1)
    if n == 'getAddressSpace':
        return x == val if (x := s[2]) else False
    return {'getDestAddressSpace': 'dst', 'getSourceAddressSpace': 'src'}.get(n) == want


# ---------------------------------------------------------------------------------------------------------------- tables
def switch(f, what):
    sw = [b.term for b in f.blocks if b.term.op == 'switch' and mentions(f.expr(b.term.args[0]), lambda x: x[0] == 'call' and short(x[1]) == what)]
    return sw[0] if sw else None


def intrinsic_ids():
    for v in range(30, 10, -1):
        n = '/usr/lib/llvm-%d/include/llvm/IR/IntrinsicEnums.inc' % v
        if os.path.exists(n):
            names, on = {}, False
            k = 0
            for l in open(n):
                m = re.match(r'\s+(\w+)( = (\d+))?,?\s*// (llvm\.[\w.]+)', l)
                if m:
                    k = int(m.group(3)) if m.group(3) else k + 1
                    names[m.group(4)] = k
            return names
    return None


def returns(f):
    return any(b.term.op == 'ret' and b.id in f.idom for b in f.blocks)


def closure(P, f, hit, seen=None):
    seen = set() if seen is None else seen
    if f is None or f.name in seen:
        return False
    seen.add(f.name)
    for i in f.all():
        if i.op not in ('call', 'invoke') or i.blk.id not in f.idom:
            continue
        if i.callee and short(i.callee) != i.callee and hit(i.callee):
            return True
        g = P.fns.get(i.callee_link)
        if g is not None and g.relfile() == f.relfile() and closure(P, g, hit, seen):
            return True
    return False


def by_symbol(P, s):
    return P.fns.get(s) or next((f for f in P.fns.values() if f.name == s or f.qual == s), None)


def name_leaf(name):
    """string comparisons of the called name fold for this name"""
    def leaf(e):
        if e[0] == 'call':
            if 'operator==' in e[1] and e[-1][0] == 's':
                return int(e[-1][1] == name)
            if 'operator!=' in e[1] and e[-1][0] == 's':
                return int(e[-1][1] != name)
            if e[1].endswith('::compare') and e[-1][0] == 's':
                if len(e) == 4:
                    return 0 if name == e[-1][1] else 1
                if len(e) == 6 and e[3][0] == 'c' and e[4][0] == 'c':
                    return 0 if name[e[3][1]:e[3][1] + e[4][1]] == e[-1][1] else 1
            if short(e[1]) in ('starts_with', 'startswith') and e[-1][0] == 's':
                return int(name.startswith(e[-1][1]))
        return None
    return leaf


def exists(pred, a, b):
    """the shadow of global memory always exists"""
    for x, y in ((a, b), (b, a)):
        if nz(y) == ('c', 0) and nz(x)[0] == 'load' and nz(x)[1][0] == 'fld' and nz(x)[1][2] == 'm_globalMemory' or \
                nz(y) == ('c', 0) and nz(x)[0] == 'call' and short(nz(x)[1]) == 'getGlobalMemory':
            return {'eq': False, 'ne': True}.get(pred)
    return None


class Ctx:
    def __init__(self, P):
        self.P = P
        self.ie = P.one(U + 'instructionExecuted')
        self.hb = P.one(U + 'handleBuiltinFunction')
        self.hi = P.one(U + 'handleIntrinsicInstruction')
        self.cache = {}

    def builtin(self, name):
        k = ('b', name)
        if k not in self.cache:
            self.cache[k] = [reduced(p) for p in Flow(self.hb, limit=20000, leaf=name_leaf(name), cmp=exists).paths()]
        return self.cache[k]

    def at(self, f, block):
        k = (f.name, block)
        if k not in self.cache:
            self.cache[k] = [reduced(p) for p in Flow(f, limit=20000, cmp=exists).paths(start=block)]
        return self.cache[k]

    def whole(self, f):
        k = (f.name, None)
        if k not in self.cache:
            self.cache[k] = [reduced(p) for p in Flow(f, limit=20000, cmp=exists).paths()]
        return self.cache[k]


# ---------------------------------------------------------------------------------------------------------- access checks
def check_access(R, f, ps, what, spaces=None):
    """addresses, address spaces and reports of every shadow access on the paths"""
    for p in ps:
        cl = cleans(p)
        for e, kind, space, addr, _, wi in accesses(p):
            ps_ = ptrs(addr)
            base = [x for x in ps_ if x[0] == 'getPointer']
            if not R.check(len(base) == 1, 'address', '%s/%s base' % (what, kind), e[1].loc(),
                           '%s: the shadow of a %s is not addressed by the pointer operand of the access' % (what, kind), fn=f):
                continue
            okay = space_of(space, base[0][1], base[0][2]) or (spaces is not None and nz(space) == ('c', spaces))
            R.check(okay, 'space', '%s/%s' % (what, kind), e[1].loc(),
                    '%s: the %s uses another address space than the one its pointer operand points to' % (what, kind), fn=f)
            R.check(nz(wi) == ('arg', 'workItem'), 'space', '%s/%s item' % (what, kind), e[1].loc(),
                    '%s: the %s is not made for the executing work-item' % (what, kind), fn=f)


def check_reports(R, f, ps, what, keys, kind, write=None):
    """the path logs if and only if one of the operands `keys` is undefined"""
    for p in ps:
        if p.end[0] != 'ret':
            continue
        cl = cleans(p)
        logs = [e for e in p.events if e[0] == 'call' and short(e[2]) == kind]
        unknown = [k for k in keys if (k, None) not in cl]
        undef = [k for k in keys if cl.get((k, None)) is False]
        R.check(bool(logs) or (not unknown and not undef), 'report', '%s/%s' % (what, kind), floc(f),
                '%s: an undefined operand %s is not reported' % (what, ', '.join(str(x) for x in (undef or unknown))), fn=f)
        R.check(not logs or bool(undef), 'report', '%s/%s false' % (what, kind), logs[0][1].loc() if logs else floc(f),
                '%s: reports an undefined operand although all were found defined' % what, fn=f)
        if kind == 'logUninitializedAddress' and logs and write is not None:
            w = [nz(l[3][3]) for l in logs]
            okw = all((x in (('c', 1), ('c', -1))) == write for x in w)
            R.check(okw, 'report', '%s/direction' % what, logs[0][1].loc(), '%s: the report names the wrong direction of the access' % what, fn=f)


def check_result(R, f, ps, what, target):
    for p in ps:
        if p.end[0] != 'ret':
            continue
        n = [s for s in setvalues(p) if s[1] == target]
        R.check(len(n) == 1, 'result', what, floc(f), '%s: a path leaves the result without (or with several) shadow values' % what, fn=f)


def dep(ps, p, target):
    """operands accounted for by the result's shadow on a returning path: (data, tested)"""
    data, tested = set(), {}
    for e, v, s in setvalues(p):
        data |= shadows(s)
        if len(e[3]) > 3:
            data |= shadows(e[3][3])
    for q in [p] + [q for q in ps if q.end[0] == 'iter']:
        for e in q.events:
            if e[0] == 'copy':
                data |= shadows(e[3][1])
            elif e[0] == 'call' and e[2] and e[2].startswith(TV + 'set'):
                data |= shadows(e[3][1])
            elif e[0] == 'store':
                data |= shadows(e[3])
    for (k, lane), pol in cleans(p).items():
        tested[k] = pol
    for q in ps:
        if q.end[0] == 'iter':
            for (k, lane), pol in cleans(q).items():
                if lane is not None:
                    tested.setdefault(k, 'lane')
    return data, tested


# ------------------------------------------------------------------------------------------------------------------- run
ALL = ('Add Sub Mul FAdd FSub FMul FDiv FRem UDiv SDiv URem SRem And Or Xor FNeg ICmp FCmp FPToUI FPToSI UIToFP SIToFP FPTrunc FPExt '
       'GetElementPtr AddrSpaceCast').split()
EXACT = {'Shl': (0, 1), 'LShr': (0, 1), 'AShr': (0, 1), 'Trunc': (0,), 'ZExt': (0,), 'SExt': (0,), 'PtrToInt': (0,), 'IntToPtr': (0,),
         'BitCast': (0,), 'Select': (0, 1, 2), 'ExtractElement': (0, 1), 'InsertElement': (0, 1, 2), 'ShuffleVector': (0, 1),
         'ExtractValue': (0,), 'InsertValue': (0, 1)}
NOVALUE = ('Br', 'Switch', 'Store', 'Unreachable', 'Ret', 'Call', 'PHI')


def run(P, R):
    R.rule('cases', 'every instruction kind the interpreter dispatches, every intrinsic it executes and every builtin it executes that accesses simulated memory has a shadow rule of its own', 60)
    R.rule('operands', 'the shadow of the result depends on the shadow of every operand', 40)
    R.rule('result', 'every path of a rule gives the result exactly one shadow', 40)
    R.rule('lanes', 'the shadow of a lane is taken from and written to the same lane', 10)
    R.rule('address', 'shadow accesses use the pointer operand and the offset of the simulated access', 12)
    R.rule('space', 'shadow accesses use the address space of the pointer operand and the executing work-item', 20)
    R.rule('bytes', 'shadow accesses cover exactly the bytes of the simulated access', 12)
    R.rule('report', 'an undefined address, index or condition is reported exactly when it is undefined', 40)
    R.rule('atomic', 'atomics read the shadow, combine it with the operand and store it under the lock of the address', 5)
    R.rule('control', 'branches check all their operands; calls carry the shadow of every argument and of the returned value', 6)
    R.rule('memory', 'shadow memory moves whole values for valid addresses and treats everything else as undefined', 12)
    R.rule('values', 'clean and poisoned values cover all bytes, and a value is defined only if all its bytes are', 10)
    R.rule('hooks', 'host writes, mappings, allocations and launches mark the bytes they define, and only those', 12)
    X = Ctx(P)
    tables(P, R, X)
    instructions(P, R, X)
    builtins(P, R, X)
    intrinsics(P, R, X)
    control(P, R, X)
    primitives(P, R, X)
    hooks(P, R, X)


def tables(P, R, X):
    sw = switch(X.ie, 'getOpcode')
    need(sw is not None, 'opcode switch of instructionExecuted not found')
    X.cases = {c: b for c, b in sw.d['cases'] if b != sw.d.get('default')}
    d = P.one('oclgrind::WorkItem::dispatch')
    dsw = switch(d, 'getOpcode')
    need(dsw is not None, 'opcode switch of dispatch not found')
    names = {v: k for k, v in c08.OPC.items()}
    for c, b in dsw.d['cases']:
        if b == dsw.d.get('default'):
            continue
        R.check(c in X.cases, 'cases', names.get(c, str(c)), sw.loc(),
                'the interpreter executes %s but the checker has no shadow rule for it' % names.get(c, c), fn=X.ie)
    X.tab, X.exact, X.prefix = c12.table(P)
    ids = intrinsic_ids()
    isw = switch(X.hi, 'getIntrinsicID')
    need(ids and isw is not None, 'intrinsic switch not found')
    X.intr = {}
    for n, impl in [(n, v[0]) for n, v in X.exact.items()] + [(v[0], v[1]) for v in X.prefix]:
        if not n.startswith('llvm.'):
            continue
        g = by_symbol(P, impl)
        if g is not None and not returns(g):
            continue
        base = n.rstrip('.')
        if base not in ids and base.rsplit('.', 1)[0] in ids:
            base = base.rsplit('.', 1)[0]
        have = {c: b for c, b in isw.d['cases'] if b != isw.d.get('default')}
        if R.check(ids.get(base) in have, 'cases', base, isw.loc(), 'the interpreter executes %s but the checker rejects it' % base, fn=X.hi):
            X.intr[base] = have[ids[base]]

    # builtins that access memory
    def touches(n):
        return n.startswith('oclgrind::Memory::') and short(n) in ('store', 'atomic', 'atomicCmpxchg', 'atomicInc', 'atomicDec') or n.endswith('WorkGroup::async_copy')

    def reads(n):
        return n.startswith('oclgrind::Memory::') and short(n) in ('load', 'getPointer')
    X.mem = []
    cand = [(n, v[0]) for n, v in X.exact.items()]
    for v in X.prefix:
        for suf in (('', '2', '3', '16') if v[0].startswith('v') else ('',)):
            cand.append((v[0] + suf, v[1]))
    for n, impl in cand:
        if n.startswith('llvm.') or n in ('printf',):
            continue
        g = by_symbol(P, impl)
        if g is None:
            R.bad('cases', n, floc(X.tab), 'implementation of %s not found' % n, X.tab)
            continue
        w = closure(P, g, touches)
        if w or closure(P, g, reads):
            X.mem.append((n, w))
            ps = X.builtin(n)
            good = ps and all(p.ret is not None and nz(p.ret) in (('c', 1), ('c', -1)) for p in ps if p.end[0] == 'ret')
            R.check(good, 'cases', n, floc(X.hb), '%s accesses simulated memory but is treated as a plain function of its operands' % n, fn=X.hb)


def instructions(P, R, X):
    f = X.ie
    names = {v: k for k, v in c08.OPC.items()}
    ins = ('arg', 'instruction')
    for c, b in sorted(X.cases.items()):
        n = names.get(c, str(c))
        ps = X.at(f, b)
        if n in ALL or n not in NOVALUE and n not in EXACT and n not in ('Alloca', 'Load', 'Freeze'):
            for p in ps:
                r = [e for e in p.events if e[0] == 'call' and short(e[2]) in ('VectorOr', 'SimpleOr')]
                R.check(len(r) == 1 and nz(r[0][3][1]) == ('arg', 'workItem') and nz(r[0][3][2]) == ins and p.end[0] == 'ret', 'operands', n,
                        floc(f), '%s does not combine the shadows of all operands' % n, fn=f)
            R.ok('result', n, f)
        if n in EXACT:
            check_result(R, f, ps, n, ins)
            for p in ps:
                if p.end[0] != 'ret':
                    continue
                poison = any(made(s, 'getPoisonedValue') for _, v, s in setvalues(p))
                data, tested = dep(ps, p, ins)
                miss = [k for k in EXACT[n] if k not in data and tested.get(k) not in (True, 'lane')]
                log = any(e[0] == 'call' and short(e[2]) == 'logUninitializedIndex' for e in p.events)
                if n in ('ExtractElement', 'InsertElement'):
                    k = EXACT[n][-1]
                    inr = [pol for a, pol in p.lits if a[0] == 'lt' and {x[:2] for x in ptrs(a[1])} == {('getUInt', k)}]
                    outside = inr == [False] and (any(e[0] == 'set' and fills(e, -1) for e in p.events) or n == 'InsertElement' and 0 in data)
                    R.check(inr == [True] or outside, 'operands', n + ' range', floc(f), '%s: an index outside the vector does not make the result undefined' % n, fn=f)
                    if outside:
                        continue
                if log:
                    miss = [k for k in miss if tested.get(k) is not False]
                R.check(poison and False in tested.values() or not miss, 'operands', n, floc(f),
                        '%s: the result is defined although operand %s may not be' % (n, ', '.join(map(str, miss))), fn=f)
                # never poisoned without reason
                R.check(not poison or False in tested.values(), 'operands', n + ' reason', floc(f),
                        '%s: the result is poisoned although no operand was found undefined' % n, fn=f)
        if n in ('Br', 'Switch'):
            for p in ps:
                r = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'checkAllOperandsDefined']
                R.check(len(r) >= 1 and nz(r[0][3][2]) == ins and nz(r[0][3][1]) == ('arg', 'workItem'), 'control', n, floc(f),
                        '%s does not check that its condition is defined' % n, fn=f)
        if n in ('ExtractElement', 'InsertElement'):
            check_reports(R, f, ps, n, (1 if n == 'ExtractElement' else 2,), 'logUninitializedIndex')
    lanes(P, R, X, names)
    access(P, R, X)


def lane_events(p):
    """(event, written lane|offset, value) per lane written on a path"""
    r = []
    for e in p.events:
        if e[0] == 'call' and e[2] and re.match(re.escape(TV) + 'set(UInt|SInt|Pointer|Float)$', e[2]):
            r.append((e, nz(e[3][2]), e[3][1]))
    return r


def is_lane_read(x):
    return nz(x)[0] == 'call' and nz(x)[1] in (TV + 'getUInt', TV + 'getSInt')


def lanes(P, R, X, names):
    f = X.ie
    inv = {k: v for v, k in names.items()}
    for n in ('Shl', 'LShr', 'AShr', 'Trunc', 'ZExt', 'SExt', 'PtrToInt', 'IntToPtr'):
        if inv[n] not in X.cases:
            continue
        its = [p for p in X.at(f, X.cases[inv[n]]) if p.end[0] == 'iter']
        w = [(p, x) for p in its for x in lane_events(p)]
        moved = [(p, e) for p in its for e in p.events if e[0] == 'copy'] if n in ('Trunc', 'PtrToInt', 'IntToPtr') else []
        for p, e in moved:
            lane = [a[1] for a, pol in p.lits if a[0] == 'lt' and pol and a[1][0] == 'phi']
            got = None
            if len(lane) == 1 and not w:
                leaf = environment(f, {0: (8, 3), 'result': (4, 3)})

                def at(x):
                    return 2 if nz(x) == nz(lane[0]) else leaf(x)
                off = [displacement(x, at) for x in e[3][:2]]
                got = off[0], off[1], num(length(e), at), shadows(e[3][1])
            R.check(got == (8, 16, 4, {0}), 'lanes', n + ' index', e[1].loc(), '%s writes the shadow of a lane from another lane' % n, fn=f)
        R.check(w != [] or moved != [], 'lanes', n, floc(f), '%s does not compute the shadow lane by lane' % n, fn=f)
        for p, (e, lane, v) in w:
            idx = []
            if n == 'SExt' and nz(v)[0] == 'c':
                # all bits of the lane chosen by its single bit
                bit = [(a, pol) for a, pol in p.lits if a[0] == 'eq' and ('c', 0) in a[1:] and any(is_lane_read(x) for x in a[1:])]
                one = any(pol and (a[0] == 'eq' and ('c', 1) in a[1:] and not any(is_lane_read(x) for x in a[1:]) or a[0] == 'true' and short_of(a[1]) == 'isIntegerTy')
                          for a, pol in p.lits)
                R.check(one and len(bit) == 1 and nz(v)[1] == (0 if bit[0][1] else -1), 'lanes', 'SExt bit', e[1].loc(), 'SExt: a lane of one bit gives a constant shadow', fn=f)
                v = ('t',) + tuple(a for a, pol in bit)

            def see(x):
                if x[0] == 'call' and x[1] in (TV + 'getUInt', TV + 'getSInt', TV + 'getPointer'):
                    idx.append((tv(x[2]), nz(x[3])))
                return False
            mentions(v, see)
            R.check(idx != [] and all(i == lane for t, i in idx) and any(t and t[:2] == ('sh', 0) for t, i in idx), 'lanes', n + ' index', e[1].loc(),
                    '%s writes the shadow of a lane from another lane' % n, fn=f)
            if n in ('Shl', 'LShr', 'AShr'):
                want = {'Shl': 'shl', 'LShr': 'lshr', 'AShr': 'ashr'}[n]
                v_ = nz(v)
                okv = v_[0] == want and len(v_) == 3 and mentions(v_[2], lambda x: tv(x) is not None and tv(x)[:2] == ('op', 1))
                sgn = mentions(v_[1], lambda x: x[0] == 'call' and x[1] == TV + ('getSInt' if n == 'AShr' else 'getUInt')) if okv else False
                R.check(okv and sgn, 'lanes', n + ' shift', e[1].loc(), '%s: the shadow bits are not shifted like the value' % n, fn=f)
            if n == 'SExt':
                sg = mentions(v, lambda x: x[0] == 'call' and x[1] == TV + 'getSInt') and e[2].endswith('setSInt')
                R.check(sg, 'lanes', n + ' sign', e[1].loc(), 'SExt: an undefined sign bit does not make the extended bits undefined', fn=f)
    amounts(R, f, X, inv)
    # copies of whole elements
    for n in ('Select', 'ShuffleVector'):
        if inv[n] not in X.cases:
            continue
        for p in X.at(f, X.cases[inv[n]]):
            if p.end[0] != 'iter':
                continue
            for e in p.events:
                if e[0] != 'copy':
                    continue
                d, s = nz(e[3][0]), nz(e[3][1])
                lane = [a[1] for a, pol in p.lits if a[0] == 'lt' and pol and a[1][0] == 'phi']
                R.check(lane != [] and mentions(d, lambda x: x == nz(lane[0])), 'lanes', n + ' target', e[1].loc(),
                        '%s does not write the lane it computes' % n, fn=f)
                if n == 'Select':
                    k = shadows(e[3][1])
                    off = [x[2] if x[0] in ('cgep', 'idx', 'ptr') else None for x in (d, s)]
                    R.check(len(k) == 1 and d[0] == s[0] and d[2:] == s[2:], 'lanes', 'Select lane', e[1].loc(),
                            'Select copies the shadow of another lane', fn=f)
                    cond = [(a, pol) for a, pol in p.lits if mentions(a, lambda x: x[0] == 'call' and x[1] == TV + 'getUInt' and tv(x[2]) and tv(x[2])[:2] == ('op', 0))]
                    sel = None
                    for a, pol in cond:
                        if a[0] == 'eq' and ('c', 0) in a[1:]:
                            sel = 2 if pol else 1
                        elif a[0] == 'true':
                            sel = 1 if pol else 2
                    R.check(sel is not None and k == {sel}, 'operands', 'Select side', e[1].loc(),
                            'Select takes the shadow of the value that was not selected', fn=f)


def displacement(a, env):
    """bytes from the start of the object"""
    if a[0] == 'ptr' and len(a) == 4 and a[2][0] == 'c':
        b = displacement(a[1], env)
        return None if b is None or a[3] is None else b + a[2][1] * a[3]
    if a[0] == 'cgep':
        b = displacement(a[1], env)
        return None if b is None else b + a[2]
    if a[0] in ('ptr', 'idx') and len(a) == 4:
        b, i = displacement(a[1], env), num(a[2], env)
        return None if b is None or i is None or a[3] is None else b + i * a[3]
    return 0


def moves(f, p, shapes, more):
    """[(copy event, bytes from the start of the target, of the source, number of bytes)] for operands of these shapes; None if the path is not taken"""
    lane = [nz(a[1]) for a, pol in p.lits if a[0] == 'lt' and pol and a[1][0] == 'phi']
    leaf = environment(f, shapes)

    def at(x):
        v = more(x)
        if v is not None:
            return v
        return 1 if nz(x) in lane else leaf(x)
    if not feasible(p, at):
        return None
    return [(e, displacement(e[3][0], at), displacement(e[3][1], at), num(e[3][2], at)) for e in p.events if e[0] == 'copy']


def one_operand(x, k, names=('getUInt', 'getSInt')):
    return x[0] == 'call' and x[1].startswith(TV) and short(x[1]) in names and tv(x[2]) is not None and tv(x[2])[:2] == ('op', k)


def amounts(R, f, X, inv):
    """bytes moved by the rules that copy shadows"""
    idx = lambda k: lambda x: 2 if one_operand(x, k) else None
    def msk(v, n):
        def f(x):
            if x[0] == 'call':
                return v if short(x[1]) == 'getMaskValue' else n if short(x[1]) == 'getNumElements' else None
            return -1 if x in (('c', 0xffffffff), ('c', 0xffffffffffffffff)) else None
        return f

    def cond(v):
        return lambda x: v if one_operand(x, 0) else None
    none = lambda x: None
    for n, shapes, more, want in (
            ('InsertElement', {0: (4, 4), 1: (4, 1), 'result': (4, 4)}, idx(2), {0: (0, 0, 16), 1: (8, 0, 4)}),
            ('ExtractElement', {0: (4, 4), 'result': (4, 1)}, idx(1), {0: (0, 8, 4)}),
            ('InsertValue', {0: (24, 1), 1: (8, 1), 'result': (24, 1)}, none, {0: (0, 0, 24), 1: (None, 0, 8)}),
            ('BitCast', {0: (4, 4), 'result': (8, 2)}, none, {0: (0, 0, 16)}),
            ('ShuffleVector', {0: (4, 4), 1: (4, 4), 'result': (4, 3)}, msk(2, 4), {0: (4, 8, 4)}),
            ('ShuffleVector', {0: (4, 4), 1: (4, 4), 'result': (4, 3)}, msk(5, 4), {1: (4, 4, 4)}),
            ('ShuffleVector', {0: (4, 4), 1: (4, 4), 'result': (4, 3)}, msk(0, 4), {0: (4, 0, 4)}),
            ('ShuffleVector', {0: (2, 16), 1: (2, 16), 'result': (2, 3)}, msk(12, 16), {0: (2, 24, 2)}),
            ('ShuffleVector', {0: (4, 4), 1: (4, 4), 'result': (4, 3)}, msk(-1, 4), {}),
            ('Select', {1: (4, 4), 2: (4, 4), 'result': (4, 4)}, cond(1), {1: (4, 4, 4)}),
            ('Select', {1: (4, 4), 2: (4, 4), 'result': (4, 4)}, cond(0), {2: (4, 4, 4)})):
        if inv[n] not in X.cases:
            continue
        seen = set()
        for p in X.at(f, X.cases[inv[n]]):
            for e, d, s, ln in moves(f, p, shapes, more) or ():
                if made(e[3][1], 'getPoisonedValue'):
                    R.check(n != 'ShuffleVector' or not want, 'operands', '%s poison' % n, e[1].loc(), '%s: a chosen element is taken as undefined' % n, fn=f)
                    continue
                for k in shadows(e[3][1]):
                    w = want.get(k)
                    seen.add(k)
                    got = tuple(None if w and w[j] is None else v for j, v in enumerate((d, s, ln)))
                    R.check(got == w, 'bytes', '%s copy' % n, e[1].loc(), '%s copies %s bytes of the shadow of operand %s from byte %s to byte %s' % (n, ln, k, s, d), fn=f)
        R.check(seen == set(want), 'bytes', '%s copies' % n, floc(f), '%s does not copy the shadow of operand %s' % (n, sorted(set(want) - seen) or seen), fn=f)
    # the lane of the condition
    for p in X.at(f, X.cases[inv['Select']]) if inv['Select'] in X.cases else ():
        if p.end[0] != 'iter':
            continue
        lane = lane_of(p)
        vec = [pol for a, pol in p.lits if a[0] == 'true' and mentions(a, lambda x: x[0] == 'call' and short(x[1]) == 'getCondition')
               and a[1][0] == 'call' and short(a[1][1]) == 'isVectorTy']
        got = {nz(x[3]) for a, pol in p.lits for x in _walk(a) if one_operand(x, 0)}
        if got:
            R.check(got == {lane} and vec != [False] or got == {('c', 0)} and vec == [False] or got == {lane} and vec == [], 'lanes', 'Select condition', floc(f),
                    'Select chooses a lane by the condition of another lane', fn=f)


def total(env, sz):
    a, b = num(sz[0], env), num(sz[1], env)
    return None if a is None or b is None else (a & 0xffffffff) * b


SHAPES = [(4, 1), (4, 3), (8, 2), (2, 16), (1, 3)]


def access(P, R, X):
    f = X.ie
    ins = ('arg', 'instruction')
    for n, k, w in (('Load', 0, False), ('Store', 1, True)):
        c = c08.OPC[n]
        if c not in X.cases:
            continue
        ps = X.at(f, X.cases[c])
        check_access(R, f, ps, n)
        check_reports(R, f, ps, n, (k,), 'logUninitializedAddress', w)
        if not w:
            check_result(R, f, ps, n, ins)
        for p in ps:
            ac = accesses(p)
            R.check(len(ac) == 1 and ac[0][1] == n.lower(), 'address', n + ' once', floc(f), '%s does not %s the shadow exactly once' % (n, n.lower()), fn=f)
            for e, kind, space, addr, sz, wi in ac:
                R.check(nz(addr) == ('call', TV + 'getPointer', nz(addr)[2], ('c', 0)) if nz(addr)[0] == 'call' else False, 'address', n, e[1].loc(),
                        '%s uses another shadow address than the access' % n, fn=f)
                R.check({x[1] for x in ptrs(addr)} == {k}, 'address', n + ' operand', e[1].loc(), '%s uses the wrong operand as the address' % n, fn=f)
                for s in SHAPES:
                    t = total(environment(f, {'result': s, 0: s} if w else {'result': s}), sz)
                    R.check(t == s[0] * s[1], 'bytes', n, e[1].loc(), '%s moves %s bytes of shadow for a value of %d' % (n, t, s[0] * s[1]), fn=f)
                if not w:
                    st = setvalues(p)
                    R.check(bool(st) and nz(st[0][2])[0] == 'clob' and nz(st[0][2])[1] == nz(e[3][3]), 'operands', 'Load', e[1].loc(),
                            'Load does not use the shadow it read', fn=f)
                else:
                    # an atomic store counts as defined
                    atom = [pol for a, pol in p.lits if a[0] == 'true' and a[1][0] == 'call' and short(a[1][1]) == 'isAtomic']
                    okv = atom == [True] and made(e[3][3], 'getCleanValue') and made(e[3][4], 'getCleanValue') and \
                        mentions(e[3][3], lambda x: x[0] == 'call' and short(x[1]) == 'getCleanValue' and key(x[-1]) == 0)
                    R.check(okv or shadows(e[3][3]) == {0} and shadows(e[3][4]) == {0}, 'operands', 'Store', e[1].loc(),
                            'Store does not write the shadow of the stored value', fn=f)
                    R.check(nz(e[3][-1]) == ('c', 0), 'report', 'Store checked', e[1].loc(), 'Store does not check the stored value', fn=f)
    c = c08.OPC['Alloca']
    for p in X.at(f, X.cases[c]) if c in X.cases else []:
        a = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'allocAndStoreShadowMemory']
        okay = len(a) == 1 and nz(a[0][3][1]) == ('c', PRIV) and nz(a[0][3][2])[:2] == ('call', TV + 'getPointer') and mentions(a[0][3][2], lambda x: x == ('arg', 'result')) \
            and made(a[0][3][3], 'getPoisonedValue') and mentions(a[0][3][3], lambda x: x[0] == 'call' and short(x[1]) == 'getAllocatedType') and nz(a[0][3][5]) == ('arg', 'workItem')
        R.check(okay, 'bytes', 'Alloca', floc(f), 'a private variable does not start undefined in all its bytes', fn=f)
    check_result(R, f, X.at(f, X.cases[c]), 'Alloca', ins)
    c = c08.OPC['Freeze']
    if c in X.cases:
        check_result(R, f, X.at(f, X.cases[c]), 'Freeze', ins)


# builtin -> (pointer operand, offset operand or None, elements fixed bytes or None, write)
def builtins(P, R, X):
    f = X.hb
    ci = ('arg', 'CI')
    for n, w in X.mem:
        ps = X.builtin(n)
        if not ps:
            continue
        half, a4 = '_half' in n, n.startswith(('vloada', 'vstorea'))
        if n.startswith('vload'):
            check_access(R, f, ps, n)
            check_reports(R, f, ps, n, (1, 0), 'logUninitializedAddress', False)
            check_result(R, f, ps, n, ci)
            vector(R, f, ps, n, 'result', 1, 0, half, a4, 'load')
        elif n.startswith('vstore'):
            check_access(R, f, ps, n)
            check_reports(R, f, ps, n, (2, 1), 'logUninitializedAddress', True)
            vector(R, f, ps, n, 0, 2, 1, half, a4, 'store')
        elif n in ('fract', 'modf', 'sincos', 'frexp', 'lgamma_r', 'remquo'):
            k = 2 if n == 'remquo' else 1
            check_access(R, f, ps, n)
            check_reports(R, f, ps, n, (k,), 'logUninitializedAddress', True)
            check_result(R, f, ps, n, ci)
            pointer(R, f, ps, n, k)
        elif n.startswith(('atomic_', 'atom_')):
            atomics(P, R, X, n, ps)
        elif n.startswith(('read_image', 'write_image')):
            images(R, f, ps, n)
        elif n.startswith('async_work_group'):
            asynccopy(R, f, ps, n)
        elif n == 'wait_group_events':
            events(R, f, ps, n)
    for n in ('shuffle', 'shuffle2', 'select', 'any'):
        if n in X.exact or c12.resolve(n, X.exact, X.prefix):
            ps = X.builtin(n)
            handled = ps and nz(ps[-1].ret or ('c', 0)) != ('c', 0)
            if handled:
                check_result(R, f, ps, n, ci)
                elements(R, f, ps, n)
    simple_atomic(P, R, X)
    # what is not handled
    ps = X.builtin('oclgrind_no_such_builtin')
    R.check(bool(ps) and all(nz(p.ret) == ('c', 0) for p in ps if p.end[0] == 'ret'), 'control', 'unknown builtin', floc(f),
            'a builtin without a rule is reported as handled', fn=f)


def vector(R, f, ps, n, val, ptr, off, half, a4, kind):
    rel = [(p, a) for p in ps for a in accesses(p)]
    R.check(rel != [] and all(len([a for a in accesses(p)]) == 1 for p in ps if p.end[0] == 'ret'), 'bytes', n + ' once', floc(f),
            '%s does not %s the shadow exactly once' % (n, kind), fn=f)
    for size, ln in SHAPES:
        if half and size not in (4, 8):
            continue
        env = environment(f, {val: (size, ln)})
        es = 2 if half else size
        for p, (e, k, space, addr, sz, wi) in rel:
            if not feasible(p, env):
                continue
            R.check(k == kind, 'bytes', n + ' kind', e[1].loc(), '%s makes the wrong kind of shadow access' % n, fn=f)
            t = total(env, sz)
            R.check(t == es * ln, 'bytes', n, e[1].loc(), '%s moves the shadow of %s bytes, the access of %d lanes covers %d' % (n, t, ln, es * ln), fn=f)
            a = num(addr, env)
            step = es * (4 if a4 and ln == 3 else ln)
            R.check(a == 0x1000000 + 7 * step, 'address', n, e[1].loc(),
                    '%s: an offset of one moves the shadow address by %s bytes instead of %d' % (n, None if a is None else (a - 0x1000000) / 7, step), fn=f)
            R.check({(x[0], x[1]) for x in ptrs(addr)} == {('getPointer', ptr), ('getUInt', off)}, 'address', n + ' operands', e[1].loc(),
                    '%s computes the shadow address from the wrong operands' % n, fn=f)
            if kind == 'store' and not half:
                R.check(shadows(e[3][3]) == {val} and shadows(e[3][4]) == {val}, 'operands', n, e[1].loc(), '%s does not store the shadow of its value' % n, fn=f)
            if kind == 'store':
                R.check(nz(e[3][-1]) == ('c', 0), 'report', n + ' checked', e[1].loc(), '%s does not check the stored value' % n, fn=f)
    if half:
        if kind == 'store':
            elements(R, f, ps, n)
        else:
            its = [p for p in ps if p.end[0] == 'iter']
            lane_copies(R, f, its, n)
    elif kind == 'load':
        for p in ps:
            st = setvalues(p)
            ld = accesses(p)
            if p.end[0] == 'ret':
                R.check(bool(st) and bool(ld) and nz(st[0][2])[0] == 'clob' and nz(st[0][2])[1] == nz(ld[0][0][3][3]), 'operands', n, floc(f),
                        '%s does not use the shadow it read' % n, fn=f)


def lane_of(p):
    l = [nz(a[1]) for a, pol in p.lits if a[0] == 'lt' and pol and a[1][0] == 'phi']
    return l[0] if l else None


def lane_copies(R, f, its, n, skip=()):
    """every element written in an iteration is the one of the tested lane; poisoned iff the tested lane is not clean"""
    seen = set()
    for p in its:
        lane = lane_of(p)
        tests = [(a, pol) for a, pol in p.lits if a[0] == 'true' and a[1][0] == 'call' and short(a[1][1]) == 'isCleanValue'
                 and not (clean(a) and clean(a)[0] in skip)]
        R.check(lane is not None and tests != [] and all(nz(a[1][-1]) == lane for a, pol in tests), 'lanes', n + ' test', floc(f),
                '%s does not test the shadow of the lane it computes' % n, fn=f)
        undef = any(not pol for a, pol in tests)
        cp = [e for e in p.events if e[0] in ('copy', 'set')]
        for e in cp:
            src = e[3][1]
            if e[0] == 'set':
                src = ('call', SC + ('getPoisonedValue' if nz(src)[1] in (255, -1) else 'getCleanValue' if nz(src)[1] == 0 else '?'))
            R.check(lane is not None and mentions(nz(e[3][0]), lambda x: x == lane), 'lanes', n + ' target', e[1].loc(),
                    '%s writes the shadow to another element than the tested one' % n, fn=f)
            if undef:
                R.check(made(src, 'getPoisonedValue'), 'operands', n + ' poison', e[1].loc(), '%s: an undefined element gives a defined result' % n, fn=f)
            else:
                R.check(not made(src, 'getPoisonedValue'), 'operands', n + ' clean', e[1].loc(), '%s: a defined element gives an undefined result' % n, fn=f)
        for e, kind, space, addr, sz, wi in accesses(p):
            if kind == 'store':
                src = e[3][3]
                R.check(made(src, 'getPoisonedValue' if undef else 'getCleanValue'), 'operands', n + ' stored', e[1].loc(),
                        '%s: stores the wrong shadow for an element' % n, fn=f)
        R.check(cp != [], 'lanes', n + ' written', floc(f), '%s leaves the shadow of an element unset' % n, fn=f)


def elements(R, f, ps, n):
    its = [p for p in ps if p.end[0] == 'iter']
    if n == 'any':
        for p in ps:
            if p.end[0] != 'ret':
                continue
            st = setvalues(p)
            R.check(bool(st) and (made(st[0][2], 'getCleanValue') or made(st[0][2], 'getPoisonedValue')), 'operands', n, floc(f), 'any has no shadow', fn=f)
            cl = cleans(p)
            if cl.get((0, None)) is False and not any(k[0] == 0 and k[1] is not None and v for k, v in cl.items()):
                R.check(made(st[0][2], 'getPoisonedValue'), 'operands', n + ' undefined', floc(f), 'any is defined for an undefined operand', fn=f)
            if cl.get((0, None)) is True:
                R.check(made(st[0][2], 'getCleanValue'), 'operands', n + ' defined', floc(f), 'any is undefined for a defined operand', fn=f)
        return
    lane_copies(R, f, its, n)
    if n in ('shuffle', 'shuffle2'):
        k = 1 if n == 'shuffle' else 2
        for v, want in ((6, 8), (1, 4)):
            def more(x):
                if x[0] == 'call' and x[1] in (TV + 'getUInt', TV + 'getSInt'):
                    return v if nz(x[3]) == lane else None
                if x[0] == 'call' and short(x[1]) == 'getNumElements':
                    return 4
                if x[0] == 'call' and short(x[1]) == 'isVectorTy':
                    return 1
                if x[0] in ('clob', 'load') and x[1][0] in ('ptr', 'alloca', 'idx') or x[0] in ('clob', 'load') and x[1][0] == 'fld' and x[1][2] in ('size', 'num'):
                    return 4
                return None
            for p in its:
                lane = lane_of(p)
                for e, d, s_, ln in moves(f, p, {0: (4, 4), 1: (4, 4), 'result': (4, 2)}, more) or ():
                    if made(e[3][1], 'getPoisonedValue'):
                        continue
                    second = n == 'shuffle2' and v >= 4
                    which = _second(e[3][1])
                    R.check((d, s_, ln) == (4, want, 4) and which == second, 'lanes', n + ' element', e[1].loc(), '%s takes the shadow of another element than the value' % n, fn=f)
    if n == 'select':
        for p in its:
            lane = lane_of(p)
            got = {nz(x[3]) for a, pol in p.lits for x in _walk(a) if one_operand(x, 2)} | \
                {nz(x[3]) for e in p.events if e[0] == 'copy' for x in _walk(e[3][1]) if one_operand(x, 2)}
            R.check(got <= {lane}, 'lanes', 'select condition', floc(f), 'select chooses a lane by the condition of another lane', fn=f)
    if n == 'select':
        for p in its:
            for e in p.events:
                if e[0] == 'copy' and not made(e[3][1], 'getPoisonedValue'):
                    R.check(mentions(nz(e[3][1]), lambda x: x == lane_of(p)), 'lanes', 'select source', e[1].loc(), 'select copies the shadow of another lane', fn=f)


def _second(a):
    """the address lies in the second element of an array of shadows, or in the shadow of the second operand"""
    return mentions(a, lambda x: x[0] in ('ptr', 'idx') and x[2] == ('c', 1) and x[1][0] == 'alloca' or x[0] == 'cgep' and x[1][0] == 'alloca' and x[2] >= 16) or \
        1 in shadows(a)


def pointer(R, f, ps, n, k):
    """builtins with a second result behind a pointer"""
    ints = n in ('frexp', 'lgamma_r', 'remquo')
    ops = {0, 1} if n == 'remquo' else {0}
    lane_copies(R, f, [p for p in ps if p.end[0] == 'iter'], n, (k,))
    tested = {c[0] for p in ps if p.end[0] == 'iter' for c in cleans(p)}
    R.check(tested >= ops, 'operands', n, floc(f), '%s ignores the shadow of an operand' % n, fn=f)
    for p in ps:
        ac = [a for a in accesses(p) if a[1] == 'store']
        per = any(mentions(a[3], lambda x: x[0] == 'phi') for a in ac)
        if p.end[0] == 'ret' and not per and not any(mentions(a[3], lambda x: x[0] == 'phi') for q in ps for a in accesses(q)):
            R.check(len(ac) == 1, 'bytes', n + ' once', floc(f), '%s does not store the shadow of its second result' % n, fn=f)
        for e, kind, space, addr, sz, wi in ac:
            for size, ln in ((4, 1), (4, 3), (8, 2)):
                env0 = environment(f, {'result': (size, ln)})
                es = 4 if ints else size
                lane = lane_of(p)
                env = lambda x: 1 if lane is not None and x[0] == 'phi' and nz(x) == lane else env0(x)
                t, a = total(env, sz), num(addr, env)
                want = (es, 0x1000000 + es) if per else (es * ln, 0x1000000)
                R.check((t, a) == want, 'bytes', n, e[1].loc(), '%s stores %s bytes of shadow where the access of %d lanes covers %d' % (n, t, ln, es * ln), fn=f)
            R.check({(x[0], x[1]) for x in ptrs(addr)} == {('getPointer', k)}, 'address', n, e[1].loc(), '%s computes the shadow address from the wrong operand' % n, fn=f)


def atomics(P, R, X, n, ps):
    f = X.hb
    if not n.endswith('cmpxchg'):
        for p in ps:
            r = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'SimpleOrAtomic']
            R.check(len(r) == 1 and nz(r[0][3][1]) == ('arg', 'workItem') and nz(r[0][3][2]) == ('arg', 'CI'), 'atomic', n, floc(f),
                    '%s is not handled as an atomic' % n, fn=f)
        return
    check_access(R, f, ps, n)
    check_reports(R, f, ps, n, (0,), 'logUninitializedAddress', True)
    check_reports(R, f, ps, n, (1,), 'logUninitializedCF')
    check_result(R, f, ps, n, ('arg', 'CI'))
    for p in ps:
        eq = [pol for a, pol in p.lits if a[0] == 'eq' and any(x[0] == 'call' and x[1] == TV + 'getUInt' and tv(x[2]) and tv(x[2])[:2] == ('op', 1) for x in a[1:])
              and any(x[0] == 'call' and x[1] == TV + 'getUInt' and not tv(x[2]) for x in a[1:])]
        ac = accesses(p)
        kinds = [a[1] for a in ac]
        R.check(len(eq) == 1 and kinds == (['load', 'store'] if eq[0] else ['load']), 'atomic', n, floc(f),
                '%s does not read the shadow, or stores it although the comparison failed' % n, fn=f)
        for a in ac:
            if a[1] == 'store':
                R.check(shadows(a[0][3][3]) == {2}, 'operands', n, a[0][1].loc(), '%s stores the shadow of the wrong operand' % n, fn=f)
        sv = setvalues(p)
        R.check(bool(sv) and bool(ac) and nz(sv[0][2])[0] == 'clob' and nz(sv[0][2])[1] == nz(ac[0][0][3][3]), 'operands', n + ' old', floc(f),
                '%s does not return the shadow of the old value' % n, fn=f)
        locked(R, f, p, n, ac)


def locked(R, f, p, n, ac):
    idx = {e[1].id: k for k, e in enumerate(p.events) if e[0] == 'call'}
    glob = [pol for a, pol in p.lits if a[0] == 'eq' and ('c', GLOB) in a[1:] and mentions(a, lambda x: x[0] == 'call' and short(x[1]) == 'getPointerAddressSpace')]
    lk = [e for e in p.events if e[0] == 'call' and e[2] == 'oclgrind::ShadowMemory::lock']
    un = [e for e in p.events if e[0] == 'call' and e[2] == 'oclgrind::ShadowMemory::unlock']
    if glob and not glob[0]:
        R.check(not lk and not un, 'atomic', n + ' unlocked', floc(f), '%s locks memory that is not shared' % n, fn=f)
        return
    good = len(lk) == 1 and len(un) == 1 and nz(lk[0][3][1]) == nz(un[0][3][1]) and \
        all(idx[lk[0][1].id] < idx[a[0][1].id] < idx[un[0][1].id] and nz(a[3]) == nz(lk[0][3][1]) for a in ac)
    R.check(good, 'atomic', n + ' lock', floc(f), '%s: the shadow of global memory is updated outside the lock of its address' % n, fn=f)


def simple_atomic(P, R, X):
    f = P.one(U + 'SimpleOrAtomic')
    ps = X.whole(f)
    check_access(R, f, ps, 'atomic')
    check_reports(R, f, ps, 'atomic', (0,), 'logUninitializedAddress', True)
    check_result(R, f, ps, 'atomic', ('arg', 'CI'))
    for p in ps:
        if p.end[0] != 'ret':
            continue
        ac = accesses(p)
        R.check([a[1] for a in ac] == ['load', 'store'], 'atomic', 'read-modify-write', floc(f), 'an atomic does not read and write the shadow', fn=f)
        if len(ac) != 2:
            continue
        old = [pol for a, pol in p.lits if a[0] == 'true' and a[1][0] == 'call' and short(a[1][1]) == 'isCleanValue' and clean(a) is None]
        arg = cleans(p).get((1, None))
        one = not feasible(p, lambda x: 2 if x[0] == 'call' and short(x[1]) == 'arg_size' else None)
        undef = False in old or arg is False
        R.check(undef or old != [] and (arg is not None or one), 'operands', 'atomic', floc(f),
                'an atomic ignores the shadow of the memory or of its operand', fn=f)
        R.check(made(ac[1][0][3][3], 'getPoisonedValue' if undef else 'getCleanValue'), 'operands', 'atomic stored', ac[1][0][1].loc(),
                'an atomic stores %s although its inputs are %s' % (('a defined value', 'undefined') if undef else ('an undefined value', 'defined')), fn=f)
        for s in SHAPES[:1] + [(8, 1)]:
            env = environment(f, {'result': s})
            R.check(total(env, ac[0][4]) == s[0], 'bytes', 'atomic', ac[0][0][1].loc(), 'an atomic reads the shadow of the wrong number of bytes', fn=f)
        sv = setvalues(p)
        R.check(bool(sv) and nz(sv[0][2])[0] == 'clob' and nz(sv[0][2])[1] == nz(ac[0][0][3][3]), 'operands', 'atomic old', floc(f),
                'an atomic does not return the shadow of the old value', fn=f)
        locked(R, f, p, 'atomic', ac)


def images(R, f, ps, n):
    rd = n.startswith('read')
    check_reports(R, f, ps, n, (0, 'last') if rd else (0, 1), 'logUninitializedAddress', not rd)
    if rd:
        check_result(R, f, ps, n, ('arg', 'CI'))
        for p in ps:
            sv = setvalues(p)
            if sv and p.end[0] == 'ret':
                u = False in cleans(p).values()
                R.check(made(sv[0][2], 'getPoisonedValue' if u else 'getCleanValue'), 'operands', n, floc(f),
                        '%s: the result does not follow the shadow of image and coordinates' % n, fn=f)
    else:
        check_reports(R, f, ps, n, (2,), 'logUninitializedWrite')


def stride(f, a):
    """(first value, change per iteration) of an induction variable"""
    a = nz(a)
    if a[0] == 'add':
        # start + counter * step
        ph = [m for m in poly(a) if any(x[0] == 'phi' for x in m)]
        if len(ph) != 1 or len(ph[0]) != 1:
            return None
        k, c = ph[0][0], poly(a)[ph[0]]
        s = stride(f, k)
        if s is None or nz(s[0])[0] != 'c':
            return None
        rest = [x for x in a[1:] if not mentions(x, lambda y: y == k)]
        return (rest[0], pscale(s[1], c)) if len(rest) == 1 and nz(s[0]) == C(0) else None
    if a[0] != 'phi':
        return None
    ex = [nz(f.expr(x[0])) for x in f.insts[a[1]].args]
    start = [x for x in ex if not mentions(x, lambda y: y == a)]
    step = [x for x in ex if mentions(x, lambda y: y == a)]
    if len(start) != 1 or len(step) != 1:
        return None
    return start[0], padd(poly(step[0]), pscale(poly(a), -1))


def events(R, f, ps, n):
    check_reports(R, f, ps, n, (1,), 'logUninitializedAddress', False)
    seen = False
    for p in ps:
        cl = cleans(p)
        logs = len(evs(p, 'logUninitializedCF'))
        if p.end[0] == 'ret':
            R.check((0, None) in cl, 'report', n + ' number', floc(f), '%s does not check the number of events' % n, fn=f)
        ac = accesses(p)
        for e, kind, space, addr, sz, wi in ac:
            seen = True
            st = stride(f, addr)
            start = st[0] if st else nz(addr)
            R.check(kind == 'load' and {x[:2] for x in ptrs(start)} == {('getPointer', 1)} and st is not None and st[1] == poly(C(8)), 'address', n, e[1].loc(),
                    '%s does not read the shadow of its events one after the other' % n, fn=f)
            R.check(nz(space) == ('c', PRIV) and nz(wi) == ('arg', 'workItem'), 'space', n, e[1].loc(), '%s reads the shadow of another space' % n, fn=f)
            bound = [a for a, pol in p.lits if a[0] == 'lt' and pol and {x[:2] for x in ptrs(a[2])} == {('getUInt', 0)}]
            R.check(bound != [], 'bytes', n, e[1].loc(), '%s does not look at as many events as it waits for' % n, fn=f)
            tested = [pol for a, pol in p.lits if a[0] == 'true' and a[1][0] == 'call' and short(a[1][1]) == 'isCleanValue' and not clean(a)
                      and mentions(a[1], lambda x: x[0] == 'clob' and mentions(x[1], lambda y: y == nz(e[3][3])))]
            want = (0 if cl.get((0, None)) in (True, None) else 1) + (1 if tested == [False] else 0)
            R.check(len(tested) == 1 and logs == want, 'report', n + ' event', e[1].loc(), '%s does not report an undefined event' % n, fn=f)
    R.check(seen, 'cases', n + ' events', floc(f), '%s does not look at its events' % n, fn=f)


def asynccopy(R, f, ps, n):
    strided = 'strided' in n
    ev = 4 if strided else 3
    check_result(R, f, ps, n, ('arg', 'CI'))
    check_reports(R, f, ps, n, (0, 1), 'logUninitializedAddress')
    check_reports(R, f, ps, n, (2, 3) if strided else (2,), 'logUninitializedIndex')
    for p in ps:
        if p.end[0] != 'ret':
            continue
        c = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'copyShadowMemoryStrided']
        if not R.check(len(c) == 1, 'bytes', n + ' once', floc(f), '%s does not copy the shadow exactly once' % n, fn=f):
            continue
        a = [nz(x) for x in c[0][3]]
        loc = [pol for l, pol in p.lits if l[0] == 'eq' and ('c', LOC) in l[1:] and mentions(l, lambda x: x[0] == 'call' and short(x[1]) == 'getPointerAddressSpace')]
        tolocal = loc[0] if loc else None
        R.check(tolocal is not None and (a[1], a[3]) == ((('c', LOC), ('c', GLOB)) if tolocal else (('c', GLOB), ('c', LOC))), 'space', n, c[0][1].loc(),
                '%s copies the shadow between the wrong address spaces' % n, fn=f)
        R.check({x[:2] for x in ptrs(a[2])} == {('getPointer', 0)} and {x[:2] for x in ptrs(a[4])} == {('getPointer', 1)}, 'address', n, c[0][1].loc(),
                '%s exchanges source and destination' % n, fn=f)
        R.check({x[:2] for x in ptrs(a[5])} == {('getUInt', 2)}, 'bytes', n + ' number', c[0][1].loc(), '%s copies another number of elements' % n, fn=f)
        if strided:
            g, l = (a[7], a[6]) if tolocal else (a[6], a[7])
            R.check({x[:2] for x in ptrs(g)} == {('getUInt', 3)} and l == ('c', 1), 'address', n + ' stride', c[0][1].loc(),
                    '%s does not apply the stride to the elements in global memory' % n, fn=f)
        else:
            R.check((a[6], a[7]) == (('c', 1), ('c', 1)), 'address', n + ' stride', c[0][1].loc(), '%s does not copy contiguous elements' % n, fn=f)
        R.check(nz(a[9]) == ('arg', 'workItem'), 'space', n + ' item', c[0][1].loc(), '%s does not copy for the executing work-item' % n, fn=f)
        sv = setvalues(p)
        R.check(bool(sv) and shadows(sv[0][2]) == {ev}, 'operands', n, floc(f), '%s: the event does not have the shadow of the event operand' % n, fn=f)
    for code, w in (('c', 1), ('t', 2), ('f', 4), ('i', 4), ('m', 8), ('d', 8)):
        for v in (None, 2, 3, 4, 8, 16):
            if v and code not in 'tf':
                continue

            def leaf(e, names=name_leaf(n)):
                if e[0] == 'load' and e[1][0] == 'call' and 'operator[]' in e[1][1] and e[1][-1] == ('c', 6):
                    return ord('D') if v else ord(code)
                if e[0] == 'call' and 'strtol' in e[1] and v:
                    return v
                if e[0] == 'load' and e[1][0] in ('ptr', 'cgep', 'idx') and e[1][1][0] == 'clob' and v:
                    return ord(code)
                return names(e)
            for p in Flow(f, limit=20000, leaf=leaf).paths():
                for c in evs(p, 'copyShadowMemoryStrided') if p.end[0] == 'ret' else ():
                    z = nz(c[3][8])
                    if z[0] == 'c':
                        R.check(z[1] == w * (4 if v == 3 else v or 1), 'bytes', n + ' element', c[1].loc(),
                                '%s copies %d bytes for an element of type %s%s' % (n, z[1], code, v or ''), fn=f)


def A(f, k):
    return ('arg', f.params[k].get('dn') or f.params[k].get('n'))


def args(f):
    """the arguments by position as they appear in expressions"""
    return [nz(f.expr(['a', k])) for k in range(len(f.params))]


def evs(p, *names):
    return [e for e in p.events if e[0] == 'call' and short(e[2]) in names]


def sets(p, kind='set'):
    return [e for e in p.events if e[0] == kind]


# -------------------------------------------------------------------------------------------------------------- intrinsics
def intrinsics(P, R, X):
    f = X.hi
    for n, b in sorted(X.intr.items()):
        ps = X.at(f, b)
        s = n.split('.', 1)[1]
        if s in ('memcpy', 'memmove'):
            check_reports(R, f, ps, n, ('src', 'dst'), 'logUninitializedAddress')
            for p in ps:
                c = evs(p, 'copyShadowMemory')
                if not R.check(len(c) == 1, 'bytes', n + ' once', floc(f), '%s does not copy the shadow exactly once' % n, fn=f):
                    continue
                a = [nz(x) for x in c[0][3]]
                pt = [{x[:2] for x in ptrs(y)} for y in (a[2], a[4], a[5])]
                R.check(pt[0] == {('getPointer', 'dst')} and pt[1] == {('getPointer', 'src')} and a[2][0] == a[4][0] == 'call', 'address', n, c[0][1].loc(),
                        '%s copies the shadow between other addresses' % n, fn=f)
                R.check(pt[2] == {('getUInt', 'len')} and a[5][0] == 'call', 'bytes', n, c[0][1].loc(), '%s copies the shadow of another number of bytes' % n, fn=f)
                R.check(space_of(a[1], 'dst', None) and space_of(a[3], 'src', None) and a[6] == ('arg', 'workItem'), 'space', n, c[0][1].loc(),
                        '%s copies the shadow between other address spaces' % n, fn=f)
        elif s == 'memset':
            check_access(R, f, ps, n)
            check_reports(R, f, ps, n, ('dst',), 'logUninitializedAddress', True)
            for p in ps:
                ac = accesses(p)
                if not R.check(len(ac) == 1 and ac[0][1] == 'store', 'bytes', n + ' once', floc(f), '%s does not store the shadow exactly once' % n, fn=f):
                    continue
                e = ac[0][0]
                fill = sets(p)
                okv = len(fill) == 1 and mentions(fill[0][3][1], lambda x: bool(tv(x)) and tv(x)[0] == 'sh' and tv(x)[1] in (1, 'val'))
                R.check(okv, 'operands', n, e[1].loc(), '%s does not spread the shadow of the fill value' % n, fn=f)
                lo = [{x[:2] for x in ptrs(y)} for y in (ac[0][4][0],)]
                R.check(lo[0] == {('getUInt', 'len')}, 'bytes', n, e[1].loc(), '%s covers another number of bytes' % n, fn=f)
                R.check({x[:2] for x in ptrs(ac[0][3])} == {('getPointer', 'dst')}, 'address', n, e[1].loc(), '%s uses another address' % n, fn=f)
        elif s in ('assume',) or s.startswith(('dbg', 'lifetime', 'experimental.noalias')):
            for p in ps:
                R.check(p.end[0] == 'ret' and not evs(p, 'setValue', 'logUninitializedCF', 'logUninitializedAddress'), 'control', n, floc(f),
                        '%s has an effect on shadows' % n, fn=f)
        else:
            for p in ps:
                r = evs(p, 'SimpleOr', 'VectorOr')
                R.check(len(r) == 1 and nz(r[0][3][1]) == ('arg', 'workItem') and nz(r[0][3][2])[0] == 'arg', 'operands', n, floc(f),
                        '%s does not combine the shadows of all operands' % n, fn=f)


def with_operands(f, ins, K):
    """paths of f for an instruction of K operands, whose loops over the operands are followed; operands as getOperand(ins, k)"""
    def op(k):
        return ('call', 'llvm::User::getOperand', ins, ('c', k))

    def at(x):
        r, v, off = fl.key(x)
        return op(off // 32) if r == ('g', '#ops') and not v and off % 32 == 0 and 0 <= off < 32 * K else None

    def leaf(x):
        if x[0] == 'call' and len(x) >= 3 and nz(x[2]) == ins:
            n = short(x[1])
            if n in ('op_begin', 'getOperandList', 'value_op_begin'):
                return ('g', '#ops')
            if n in ('op_end', 'value_op_end'):
                return ('cgep', ('g', '#ops'), 32 * K)
            if n == 'getNumOperands':
                return K
            if n == 'getOperandUse' and nz(x[3])[0] == 'c':
                return ('cgep', ('g', '#ops'), 32 * nz(x[3])[1])
        if x[0] == 'xv' and x[2][0] == 'call' and short(x[2][1]) in ('operands', 'operand_values') and nz(x[2][2]) == ins:
            return ('g', '#ops') if x[1] == (0,) else ('cgep', ('g', '#ops'), 32 * K)
        if x[0] == 'call' and len(x) == 3 and x[1].startswith('llvm::Use::'):
            return at(x[2])
        if x[0] == 'load':
            return at(x[1])
        return None
    fl = Flow(f, limit=20000, leaf=leaf)
    return list(fl.paths())


def control(P, R, X):
    ctx = ('fld', THIS, 'shadowContext')
    # checkAllOperandsDefined / SimpleOr / VectorOr: decided for instructions of one, two and three operands
    for n in ('checkAllOperandsDefined', 'SimpleOr', 'VectorOr'):
        f = P.one(U + n)
        wi, ins = args(f)[1:3]
        for K in (1, 2, 3):
            for p in with_operands(f, ins, K):
                sv, tests, opaque = setvalues(p), {}, False

                def operand(x):
                    t = tv(x)
                    if t and t[0] == 'sh' and t[2][0] == 'call' and t[2][1] == 'llvm::User::getOperand' and nz(t[2][2]) == ins and nz(t[2][3])[0] == 'c':
                        return nz(t[2][3])[1]
                    return None
                for a, pol in p.lits:
                    if a[0] == 'true' and a[1][0] == 'call' and short(a[1][1]) == 'isCleanValue':
                        k = operand(a[1][2])
                        tests[k] = pol
                        opaque = opaque or k is None
                undef = False in tests.values()
                R.check(p.end[0] == 'ret' and not opaque, 'operands', n + ' tested', floc(f), '%s tests something else than the shadow of an operand' % n, fn=f)
                if n != 'VectorOr':
                    R.check(undef or set(tests) == set(range(K)), 'operands', n + ' operands', floc(f), '%s does not look at every operand' % n, fn=f)
                if n == 'checkAllOperandsDefined':
                    R.check(bool(evs(p, 'logUninitializedCF')) == undef, 'report', n, floc(f), 'an undefined condition is not reported, or a defined one is', fn=f)
                elif n == 'SimpleOr':
                    R.check(len(sv) == 1 and sv[0][1] == ins and made(sv[0][2], 'getPoisonedValue' if undef else 'getCleanValue'), 'operands', n, floc(f),
                            'SimpleOr gives the wrong shadow', fn=f)
                else:
                    so = evs(p, 'shadowOr')
                    R.check(len(sv) == 1 and sv[0][1] == ins and made(sv[0][2], 'getCleanValue'), 'operands', n, floc(f), 'VectorOr gives the wrong shadow', fn=f)
                    R.check(not tests and sorted(k for e in so for k in {operand(x) for x in e[3][1:]} if k is not None) == list(range(K)) and
                            all(any(made(x, 'getCleanValue') for x in e[3]) for e in so), 'operands', n + ' each', floc(f), 'the shadow of an operand is not combined', fn=f)
    # shadowOr
    f = P.one(SC + 'shadowOr')
    a = args(f)
    for p in X.whole(f):
        if p.end[0] != 'iter':
            continue
        lane = lane_of(p)
        t = [(x, pol) for x, pol in p.lits if x[0] == 'true' and x[1][0] == 'call' and short(x[1][1]) == 'isCleanValue']
        R.check(len(t) == 1 and nz(t[0][0][1][-1]) == lane and nz(t[0][0][1][2]) == a[2], 'lanes', 'shadowOr test', floc(f),
                'shadowOr does not test the lane it writes', fn=f)
        w = sets(p)
        if t and not t[0][1]:
            good = len(w) == 1 and nz(dest(w[0]))[0] in ('ptr', 'cgep', 'idx') and nz(dest(w[0]))[1] == a[1] and mentions(nz(dest(w[0])), lambda x: x == lane) and \
                mentions(nz(dest(w[0])), lambda x: x[0] == 'mul')
            R.check(good, 'lanes', 'shadowOr write', floc(f), 'shadowOr does not poison the undefined lane', fn=f)
            R.check(good and fills(w[0], -1) and lane_size(w[0], a[0]), 'values', 'shadowOr', floc(f), 'shadowOr poisons only part of the lane', fn=f)
        else:
            R.check(not w, 'lanes', 'shadowOr clean', floc(f), 'shadowOr writes a lane that is defined', fn=f)
    calls_and_phis(P, R, X)


def fills(e, byte):
    """the memset stores this byte"""
    x = e[3][1]
    return x[0] == 'c' and x[1] & 255 == byte & 255


def dest(e):
    return e[3][0]


def length(e):
    """number of bytes of a memset or memcpy"""
    return e[3][2]


def lane_size(e, v):
    return strip(nz(length(e))) == v


def calls_and_phis(P, R, X):
    f = X.ie
    ins = ('arg', 'instruction')
    ps = X.at(f, X.cases[c08.OPC['Call']])
    argloops = {p.end[1] for p in ps if p.end[0] == 'iter' and setvalues(p)}
    for p in ps:
        inl = [pol for a, pol in p.lits if a[0] == 'true' and short_of(a[1]) == 'isInlineAsm']
        intr = [not pol for a, pol in p.lits if a[0] == 'eq' and ('c', 0) in a[1:] and any('IntrinsicInst' in str(x) for x in a[1:])]
        decl = [pol for a, pol in p.lits if a[0] == 'true' and short_of(a[1]) == 'isDeclaration']
        hand = [pol for a, pol in p.lits if a[0] == 'true' and short_of(a[1]) == 'handleBuiltinFunction']
        sized = [pol for a, pol in p.lits if a[0] == 'true' and short_of(a[1]) == 'isSized' and mentions(a[1], lambda x: x[0] == 'call' and x[1].endswith('getType') and x[2] == ins)]
        byval = [pol for a, pol in p.lits if a[0] == 'true' and short_of(a[1]) == 'hasByValAttr']
        sv = setvalues(p)
        if p.end[0] == 'ret' and (inl == [True] or hand == [False]):
            R.check(len(evs(p, 'checkAllOperandsDefined')) == 1, 'control', 'opaque call', floc(f), 'a call without a rule does not check its arguments', fn=f)
            R.check(len(sv) == (0 if sized == [False] else 1) and all(v == ins and made(s, 'getCleanValue') for _, v, s in sv), 'result', 'opaque call', floc(f),
                    'a call without a rule does not define its result', fn=f)
        elif p.end[0] == 'ret' and intr == [True]:
            c = evs(p, 'handleIntrinsicInstruction')
            R.check(len(c) == 1 and nz(c[0][3][1]) == ('arg', 'workItem'), 'control', 'intrinsic', floc(f), 'an intrinsic call is not given to its rule', fn=f)
        elif p.end[0] == 'ret' and hand == [True]:
            R.check(not sv, 'result', 'builtin', floc(f), 'the shadow a builtin set is replaced', fn=f)
        elif p.end[0] == 'ret' and decl == [False]:
            pf, sc = evs(p, 'pushFrame'), evs(p, 'setCall')
            R.check(len(pf) == 1, 'control', 'frame', floc(f), 'a call does not open a frame of shadow values', fn=f)
            R.check(len(sc) == (1 if sized == [True] else 0) and all(nz(x[3][1]) == ins for x in sc), 'control', 'call site', floc(f),
                    'the frame does not know where its result goes', fn=f)
            R.check(any(b in argloops for b in p.blocks), 'control', 'arguments visited', floc(f), 'a function is entered without its arguments being given a shadow', fn=f)
        elif p.end[0] == 'iter':
            asz = [pol for a, pol in p.lits if a[0] == 'true' and short_of(a[1]) == 'isSized']
            if asz == [False]:
                continue
            R.check(len(sv) == 1 and sv[0][1][0] == 'phi' or bool(sv) and mentions(sv[0][1], lambda x: x[0] == 'phi'), 'control', 'argument', floc(f),
                    'an argument has no shadow in the called function', fn=f)
            if byval == [False] and sv:
                got = [tv(x) for x in _walk(sv[0][2]) if tv(x) and tv(x)[0] == 'sh']
                good = any(g[2][0] == 'call' and short(g[2][1]) == 'getArgOperand' and mentions(g[2], lambda x: x[0] == 'call' and short(x[1]) == 'getArgNo' and nz(x[2]) == sv[0][1]) for g in got)
                R.check(good, 'control', 'argument shadow', floc(f), 'an argument does not have the shadow of the value passed', fn=f)
            if byval == [True]:
                ld, al = [e for e in p.events if e[0] == 'call' and e[2] == 'oclgrind::ShadowMemory::load'], evs(p, 'allocAndStoreShadowMemory')
                good = len(ld) == 1 and len(al) == 1 and nz(al[0][3][1]) == ('c', PRIV) and bool(sv) and \
                    [x[2] for x in ptrs(al[0][3][2])] == [sv[0][1]] and nz(al[0][3][4]) == nz(ld[0][3][1]) and \
                    mentions(nz(ld[0][3][3]), lambda x: x[0] == 'call' and short(x[1]) == 'getParamByValType') and \
                    all(x[2][0] == 'call' and short(x[2][1]) == 'getArgOperand' for x in ptrs(ld[0][3][2])) and len(ptrs(ld[0][3][2])) == 1
                R.check(good, 'control', 'argument by value', floc(f), 'the bytes of an argument passed by value do not keep their shadow', fn=f)
    # return
    for p in X.at(f, X.cases[c08.OPC['Ret']]):
        pop, sv, gc = evs(p, 'popFrame'), setvalues(p), evs(p, 'getCall')
        has = [not pol for a, pol in p.lits if a[0] == 'eq' and ('c', 0) in a[1:] and mentions(a, lambda x: x[0] == 'call' and short(x[1]) == 'getReturnValue')]
        R.check(len(pop) == 1, 'control', 'return frame', floc(f), 'a return does not close its frame', fn=f)
        if has == [True]:
            idx = [p.events.index(x) for x in (gc[:1] + pop[:1] + [s[0] for s in sv[:1]])]
            R.check(len(sv) == 1 and shadows(sv[0][2]) == {'ret'} and short_of(sv[0][1]) == 'getCall' and idx == sorted(idx) and len(idx) == 3, 'control', 'returned value', floc(f),
                    'the result of a call does not have the shadow of the returned value', fn=f)
    # phi
    ps = X.at(f, X.cases[c08.OPC['PHI']])
    pushed = [e for p in ps for e in p.events if e[0] == 'call' and short(e[2]) in ('push_back', 'emplace_back')]
    src = [e for p in ps for e in p.events if e[0] == 'call' and short(e[2]) == 'getValue' and e[2].startswith(SC)]
    good = src != [] and all(short_of(nz(e[3][2])) == 'getIncomingValueForBlock' and mentions(e[3][2], lambda x: x[0] == 'call' and short(x[1]) == 'getPreviousBlock' and x[2] == ('arg', 'workItem')) for e in src)
    R.check(good, 'operands', 'PHI', floc(f), 'a PHI does not take the shadow of the value of the edge that was taken', fn=f)
    R.check(any(setvalues(p) for p in ps), 'result', 'PHI', floc(f), 'a PHI has no shadow', fn=f)
    # a value replaced by an earlier PHI of the same block must not be read again: no shadow is read after one was set
    bad = [p for p in ps if first(p, 'setValue') is not None and any(e[0] == 'call' and short(e[2]) == 'getValue' and e[2].startswith(SC) for e in p.events[first(p, 'setValue'):])]
    direct = [p for p in ps if p.end[0] == 'ret' and len(setvalues(p)) == 1 and not any(q.end[0] == 'iter' for q in ps)]
    # nor may one turn of a loop both read one and set one, as the next turn reads after it
    def own(x):
        return mentions(x, lambda y: y[0] == 'call' and short(y[1]) == 'getIncomingValueForBlock')
    direct += [p for p in ps if p.end[0] == 'iter' and any(own(s) for _, _, s in setvalues(p))]
    R.check(not bad and not direct, 'operands', 'PHI parallel', floc(f), 'the PHIs of a block read values another PHI of the block has replaced', fn=f)


def first(p, name):
    for k, e in enumerate(p.events):
        if e[0] == 'call' and short(e[2]) == name:
            return k
    return None


def short_of(e):
    return short(e[1]) if e[0] == 'call' else ''


def _walk(e):
    out = []

    def see(x):
        out.append(x)
        return False
    mentions(e, see)
    return out


# -------------------------------------------------------------------------------------------------------------- primitives
def primitives(P, R, X):
    # values
    for n, byte in (('getCleanValue', 0), ('getPoisonedValue', -1)):
        fns = P.get(SC + n)
        R.check(len(fns) >= 4, 'values', n, floc(fns[0]) if fns else '', '%s overloads missing' % n, fns[0] if fns else None)
        for f in fns:
            a = args(f)
            for p in X.whole(f):
                w, al = sets(p), evs(p, 'alloc')
                one = len(w) == len(al) == 1 and dest(w[0]) == ('call', al[0][2]) + tuple(al[0][3])
                R.check(one and fills(w[0], byte), 'values', '%s bytes' % n, floc(f), '%s does not fill the value' % n, fn=f)
                r, whole = p.ret, one and p.ret is not None
                if whole:
                    d = iv_at(r, 1)
                    whole = d is not None and nz(d) == nz(dest(w[0]))
                    for s in ((4, 3), (8, 1), (1, 16)):
                        lv = sizes(f, s)
                        got, ln, room = num(nz_iv(r), lv), num(length(w[0]), lv), num(al[0][3][1], lv)
                        lanes = s[1] if len(f.params) == 2 or 'llvm::Value' in (f.params[0]['dt'] or '') else 1
                        whole = whole and got == s[0] | lanes << 32
                        whole = whole and got is not None and ln == room == (got & 0xffffffff) * (got >> 32)
                R.check(whole, 'values', '%s whole' % n, floc(f), '%s does not have the size of its argument' % n, fn=f)
    for f in P.get(SC + 'isCleanValue'):
        a = args(f)
        for p in X.whole(f):
            r = nz(p.ret) if p.ret else None
            if len(a) == 3 and r is not None:
                mc = [x for x in _walk(r) if x[0] == 'call' and x[1] == 'memcmp']
                good = len(mc) == 1 and mentions(r, lambda x: x[0] in ('eq', 'ne') or x[0] == 'icmp') or len(mc) == 1
                if mc:
                    m = mc[0]
                    o, ln = m[2], m[4]
                    good = mentions(o, lambda x: x[0] == 'mul' and a[2] in (strip(x[1]), strip(x[2]))) and root_arg(o) == a[1] and made(m[3], 'getCleanValue') and strip(ln) == a[0]
                R.check(good, 'values', 'isCleanValue lane', floc(f), 'isCleanValue does not compare exactly the bytes of the lane', fn=f)
                R.check(zero_when_equal(r), 'values', 'isCleanValue sense', floc(f), 'isCleanValue has the wrong sense', fn=f)
            elif len(a) == 2 and r is not None:
                good = r[0] == 'call' and short(r[1]) == 'operator==' and any(made(x, 'getCleanValue') for x in r[2:])
                R.check(good, 'values', 'isCleanValue', floc(f), 'isCleanValue does not compare the whole value', fn=f)
    frames(P, R, X)
    shadowmem(P, R, X)
    movers(P, R, X)


def zero_when_equal(r):
    """true iff memcmp(...) == 0"""
    neg = 0
    while r[0] in ('xor', 'not', 'zext', 'trunc'):
        if r[0] in ('xor', 'not'):
            neg += 1
        r = r[1] if r[0] in ('xor', 'not') else r[2]
    if r[0] == 'icmp':
        if ('c', 0) not in r[2:]:
            return False
        return (r[1] == 'eq') == (neg % 2 == 0)
    if r[0] in ('eq', 'ne'):
        return (r[0] == 'eq') == (neg % 2 == 0)
    return False


def root_arg(e):
    e = nz(e)
    while e[0] in ('ptr', 'cgep', 'idx', 'fld', 'load', 'ptrto'):
        e = e[1]
    return e


def norm_size(e):
    return nz(e)


def iv_at(r, k):
    """a member of a structure built and returned in registers"""
    while r[0] in ('iv', 'insertvalue'):
        if r[1] == (k,):
            return r[3]
        r = r[2]
    return None


def nz_iv(r):
    """the first eight bytes of a returned TypedValue"""
    return iv_at(r, 0)


def sizes(f, s):
    a = args(f)

    def env(e):
        if e == a[0]:
            return s[0] | (s[1] << 32) if len(a) == 2 else s[0]
        if e[0] == 'call' and short(e[1]) == 'getValueSize':
            return s[0] | s[1] << 32
        if e[0] == 'xv' and e[2][0] == 'call' and short(e[2][1]) == 'getValueSize':
            return s[e[1][0]]
        if e[0] == 'call' and short(e[1]) == 'getTypeSize':
            return s[0]
        return None
    return env


def frames(P, R, X):
    f = P.one('oclgrind::ShadowFrame::getValue')
    v = args(f)[1]
    for p in X.whole(f):
        cls = {}
        for a, pol in p.lits:
            if a[0] == 'true' and short_of(a[1]) == 'isa':
                for c in ('Instruction', 'UndefValue', 'Argument'):
                    if 'llvm::' + c in a[1][1]:
                        cls[c] = pol
        if p.end[0] == 'iter':
            lane = lane_of(p)
            cp = sets(p, 'copy')
            el = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'getValue']
            good = len(cp) == 1 and len(el) == 1 and mentions(cp[0][3][0], lambda x: nz(x) == lane) and \
                mentions(el[0][3][-1], lambda x: x[0] == 'call' and short(x[1]) == 'getAggregateElement' and nz(x[-1]) == lane)
            R.check(good, 'lanes', 'constant vector', floc(f), 'a lane of a constant vector does not have the shadow of its element', fn=f)
            continue
        if p.end[0] != 'ret' or p.ret is None:
            continue
        at = mentions(p.ret, lambda x: x[0] == 'call' and short(x[1]) == 'at')
        po = mentions(p.ret, lambda x: x[0] == 'call' and short(x[1]) == 'getPoisonedValue')
        if cls.get('Instruction') or cls.get('Argument'):
            R.check(at, 'values', 'frame', floc(f), 'a value does not have the shadow recorded for it', fn=f)
        elif cls.get('UndefValue'):
            R.check(po, 'values', 'undef', floc(f), 'an undefined value is taken as defined', fn=f)
        else:
            R.check(cls.get('UndefValue') is False and cls.get('Instruction') is False and cls.get('Argument') is False and not po, 'values', 'constant', floc(f),
                    'a constant is taken as undefined, or a value is not looked up', fn=f)
    f = P.one('oclgrind::ShadowFrame::setValue')
    for p in X.whole(f):
        k = [e for e in p.events if e[0] == 'call' and short(e[2]) in ('operator[]', 'insert_or_assign')]
        R.check(len(k) >= 1, 'values', 'record', floc(f), 'a shadow is not recorded', fn=f)
    f = P.one(SC + 'getValue')
    for p in X.whole(f):
        if p.end[0] != 'ret' or p.ret is None:
            continue
        g = [not pol for a, pol in p.lits if a[0] == 'eq' and ('c', 0) in a[1:] and mentions(a, lambda x: x[0] == 'call' and short(x[1]) == 'count')]
        fr = mentions(p.ret, lambda x: x[0] == 'call' and x[1] in ('oclgrind::ShadowValues::getValue', 'oclgrind::ShadowFrame::getValue'))
        R.check(len(g) == 1 and fr == (not g[0]), 'values', 'global', floc(f), 'a value of the launch is not found, or a local one is looked up as such', fn=f)


SM = 'oclgrind::ShadowMemory::'


def where(e, addr):
    """e is the shadow byte of addr: buffer data + offset"""
    e = nz(e)
    if e[0] == 'call' and e[1] == SM + 'getPointer':
        return nz(e[3]) == addr
    return mentions(e, lambda x: x[0] == 'call' and x[1] == SM + 'extractOffset' and nz(x[3]) == addr) and \
        mentions(e, lambda x: x[0] == 'fld' and x[2] == 'data') and mentions(e, lambda x: x[0] == 'call' and short(x[1]) in ('at', 'find', 'operator[]'))


def index_of(p, f, addr):
    ix = [e for e in p.events if e[0] == 'call' and e[2] == SM + 'extractBuffer']
    return ix != [] and all(nz(e[3][1]) == addr for e in ix)


def shadowmem(P, R, X):
    def valid(p, a, s):
        for x, pol in p.lits:
            if x[0] == 'true' and x[1][0] == 'call' and x[1][1] == SM + 'isAddressValid':
                if nz(x[1][3]) == a and nz(x[1][4]) == s:
                    return pol
        return None
    f = P.one(SM + 'load')
    _, d, a, s = args(f)
    for p in X.whole(f):
        c = sets(p, 'copy')
        v = valid(p, a, s)
        good = v is not None and len(c) == 1 and nz(c[0][3][0]) == d and nz(c[0][3][2]) == s and \
            (where(c[0][3][1], a) and index_of(p, f, a) if v else made(c[0][3][1], 'getPoisonedValue'))
        R.check(good, 'memory', 'load', floc(f), 'a load does not deliver the shadow bytes of its address (or defined bytes for an invalid one)', fn=f)
    f = P.one(SM + 'store')
    _, d, a, s = args(f)
    for p in X.whole(f):
        c = sets(p, 'copy')
        v = valid(p, a, s)
        good = v is not None and len(c) == (1 if v else 0) and (not v or nz(c[0][3][1]) == d and nz(c[0][3][2]) == s and where(c[0][3][0], a) and index_of(p, f, a))
        R.check(good, 'memory', 'store', floc(f), 'a store does not replace exactly the shadow bytes of its address', fn=f)
    for n, byte in (('setClean', 0), ('setPoisoned', -1)):
        for f in P.get(SM + n):
            _, a, s = args(f)
            for p in X.whole(f):
                w = sets(p)
                v = valid(p, a, s)
                good = v is not None and len(w) == (1 if v else 0) and (not v or fills(w[0], byte) and where(dest(w[0]), a) and nz(length(w[0])) == s)
                R.check(good, 'memory', n, floc(f), '%s does not mark exactly the bytes of its range' % n, fn=f)
    f = P.one(SM + 'isAddressValid')
    _, a, s = args(f)
    for p in X.whole(f):
        if p.end[0] != 'ret':
            continue
        r = nz(p.ret)
        g = [not pol for x, pol in p.lits if x[0] == 'eq' and ('c', 0) in x[1:] and mentions(x, lambda y: y[0] == 'call' and short(y[1]) == 'count')]
        if g == [False]:
            R.check(r == ('c', 0), 'memory', 'valid buffer', floc(f), 'an address outside every buffer is valid', fn=f)
        else:
            off = ('call', SM + 'extractOffset', THIS, a)
            good = g == [True] and r[0] == 'icmp' and r[1] in ('ule', 'uge', 'ugt', 'ult')
            if good:
                l, h, op = (r[2], r[3], r[1]) if r[1] in ('ule', 'ult') else (r[3], r[2], {'uge': 'ule', 'ugt': 'ult'}[r[1]])
                good = op == 'ule' and poly(l) == poly(('add', off, s)) and h[0] == 'load'
            R.check(good and index_of(p, f, a), 'memory', 'valid range', floc(f), 'the range check of the shadow memory is not that of the buffer', fn=f)
    f = P.one(SM + 'allocate')
    _, a, s = args(f)
    for p in X.whole(f):
        g = [not pol for x, pol in p.lits if x[0] == 'eq' and ('c', 0) in x[1:] and mentions(x, lambda y: y[0] == 'call' and short(y[1]) == 'count')]
        nw = [e for e in p.events if e[0] == 'call' and e[2] == 'operator new[]']
        de = [e for e in p.events if e[0] == 'call' and e[2] == SM + 'deallocate']
        st = [e for e in p.events if e[0] == 'store' and nz(e[3]) == s]
        R.check(len(nw) == 1 and nz(nw[0][3][0]) == s and st != [] and index_of(p, f, a) and g != [] and bool(de) == g[0], 'memory', 'allocate', floc(f),
                'a shadow buffer does not have the size of its allocation, or replaces another one without freeing it', fn=f)
    f = P.one(SM + 'deallocate')
    a = args(f)[1]
    for p in X.whole(f):
        er = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'erase']
        R.check(len(er) == 1 and index_of(p, f, a), 'memory', 'deallocate', floc(f), 'a freed shadow buffer stays reachable', fn=f)
    lk = {}
    for n in ('lock', 'unlock'):
        f = P.one(SM + n)
        a = args(f)[1]
        ps = X.whole(f)
        m = [nz(e[3][0]) for p in ps for e in p.events if e[0] == 'call' and e[2] == 'std::mutex::' + n]
        lk[n] = m
        R.check(len(m) == 1 and len(ps) == 1 and mentions(m[0], lambda x: x[0] == 'call' and x[1] == SM + 'extractOffset' and nz(x[3]) == a), 'atomic', n, floc(f),
                '%s does not use the lock of the address' % n, fn=f)
    R.check(len(lk['lock']) == 1 and lk['lock'] == lk['unlock'], 'atomic', 'same lock', floc(P.one(SM + 'unlock')), 'unlock releases another lock than lock takes', P.one(SM + 'unlock'))


def movers(P, R, X):
    f = P.one(U + 'loadShadowMemory')
    a = args(f)
    for p in X.whole(f):
        c = [pol for x, pol in p.lits if x[0] == 'eq' and set(x[1:]) == {a[1], ('c', CONST)}]
        ld = [e for e in p.events if e[0] == 'call' and e[2] == SM + 'load']
        w = sets(p)
        tot = lambda e: e is not None and nz(e)[0] == 'mul' and {nz(e)[1], nz(e)[2]} == {('load', a[3]), fld(a[3], 'num')}
        if c == [True]:
            R.check(len(w) == 1 and fills(w[0], 0) and tot(length(w[0])), 'memory', 'constant', floc(f), 'constant memory is not defined', fn=f)
        else:
            good = c == [False] and len(ld) == 1 and nz(ld[0][3][1]) == fld(a[3], 'data') and nz(ld[0][3][2]) == a[2] and tot(ld[0][3][3]) and \
                nz(ld[0][3][0]) == ('call', U + 'getShadowMemory', THIS, a[1], a[4], a[5])
            R.check(good, 'memory', 'loadShadowMemory', floc(f), 'loading does not read the whole value from its address space', fn=f)
    f = P.one(U + 'storeShadowMemory')
    a = args(f)

    def whole_value(e):
        return num(e, lambda x: (3 << 32 | 8) if x == a[3] else None) == 24
    for p in X.whole(f):
        unch = [pol for x, pol in p.lits if x[0] == 'true' and nz(x[1]) == a[7]]
        priv = [pol for x, pol in p.lits if x[0] == 'eq' and set(x[1:]) == {a[1], ('c', PRIV)}]
        const = [pol for x, pol in p.lits if x[0] == 'eq' and set(x[1:]) == {a[1], ('c', CONST)}]
        cl = [pol for x, pol in p.lits if x[0] == 'true' and short_of(x[1]) == 'isCleanValue' and nz(x[1][-1]) == a[4]]
        lg = evs(p, 'logUninitializedWrite')
        st = [e for e in p.events if e[0] == 'call' and e[2] == SM + 'store']
        must = cl == [False] and unch != [True] and priv != [True]
        skip = unch == [True] or priv == [True] or cl == [True]
        R.check(must or skip, 'report', 'undefined store tested', floc(f), 'a stored value is not tested', fn=f)
        R.check(bool(lg) == must, 'report', 'undefined store', floc(f), 'an undefined value stored to shared memory is not reported, or a defined one is', fn=f)
        if const == [True]:
            R.check(not st, 'memory', 'constant store', floc(f), 'constant memory has no shadow', fn=f)
        else:
            good = len(st) == 1 and nz(st[0][3][1]) == a[4] and nz(st[0][3][2]) == a[2] and whole_value(st[0][3][3]) and \
                nz(st[0][3][0]) == ('call', U + 'getShadowMemory', THIS, a[1], a[5], a[6])
            R.check(good, 'memory', 'storeShadowMemory', floc(f), 'storing does not write the whole value to its address space', fn=f)
    f = P.one(U + 'allocAndStoreShadowMemory')
    a = args(f)
    for p in X.whole(f):
        const = [pol for x, pol in p.lits if x[0] == 'eq' and set(x[1:]) == {a[1], ('c', CONST)}]
        al = [e for e in p.events if e[0] == 'call' and e[2] == SM + 'allocate']
        st = evs(p, 'storeShadowMemory')
        if const == [True]:
            continue
        good = len(al) == 1 and len(st) == 1 and nz(al[0][3][1]) == a[2] and num(al[0][3][2], lambda x: (3 << 32 | 8) if x == a[3] else None) == 24 and \
            [nz(x) for x in st[0][3][1:3]] == a[1:3] and [nz(x) for x in st[0][3][4:]] == a[4:] and nz(al[0][3][0]) == ('call', U + 'getShadowMemory', THIS, a[1], a[5], a[6])
        R.check(good, 'memory', 'allocate and store', floc(f), 'a fresh shadow buffer is not filled with its value', fn=f)
    f = P.one(U + 'getShadowMemory')
    a = args(f)
    for p in X.whole(f):
        if p.end[0] != 'ret':
            continue
        sp = [x[2][1] if x[2][0] == 'c' else x[1][1] for x, pol in p.lits if x[0] == 'eq' and pol and a[1] in x[1:] and (x[1][0] == 'c' or x[2][0] == 'c')]
        r = nz(p.ret)
        s = short_of(r)
        if sp == [PRIV]:
            good = s == 'getPrivateMemory' and mentions(r, lambda x: x[0] == 'call' and short(x[1]) == 'getShadowWorkItem' and nz(x[3]) == a[2])
        elif sp == [LOC]:
            good = s == 'getLocalMemory' and mentions(r, lambda x: x[0] == 'call' and short(x[1]) == 'getShadowWorkGroup')
            wg = [x for x in _walk(r) if x[0] == 'call' and short(x[1]) == 'getShadowWorkGroup']
            if wg:
                g = nz(wg[0][3])
                null = [pol for x, pol in p.lits if x[0] == 'eq' and set(x[1:]) == {a[3], ('c', 0)}]
                good = good and (g == a[3] if null == [False] else g == ('call', 'oclgrind::WorkItem::getWorkGroup', a[2]) or g[0] == 'phi')
        else:
            good = sp == [GLOB] and (s == 'getGlobalMemory' or r[0] == 'load' and mentions(r, lambda x: x[0] == 'fld' and x[2] == 'm_globalMemory'))
        R.check(good, 'space', 'shadow memory of %s' % sp, floc(f), 'an address space is given the shadow memory of another one', fn=f)
    strided_copy(P, R, X)


def strided_copy(P, R, X):
    f = P.one(U + 'copyShadowMemoryStrided')
    this, ds, d, ss, s, n, dst_, sst, size, wi, wg, un = args(f)
    its = [p for p in X.whole(f) if p.end[0] == 'iter']
    R.check(its != [], 'bytes', 'copy', floc(f), 'a copy does not move shadow state', fn=f)
    for p in its:
        lt = [a for a, pol in p.lits if a[0] == 'lt' and pol and strip(nz(a[2])) == n]
        R.check(lt != [], 'bytes', 'copy number', floc(f), 'a copy does not move every element', fn=f)
        ac = accesses(p)
        if not R.check([x[1] for x in ac] == ['load', 'store'], 'bytes', 'copy element', floc(f), 'a copied element is not loaded and stored once', fn=f):
            continue
        (e1, _, sp1, a1, sz1, w1), (e2, _, sp2, a2, sz2, w2) = ac
        R.check((nz(sp1), nz(sp2), nz(w1), nz(w2)) == (ss, ds, wi, wi) and nz(e1[3][5]) == wg and nz(e2[3][6]) == wg, 'space', 'copy', e1[1].loc(),
                'a copy uses the wrong address space or work-item', fn=f)
        v = e1[3][3]
        inside_ = [b for h, body in f.loops for b in [h] + list(body)]
        heads = [h for h, body in f.loops]
        okl = v[0] == 'alloca' and len(heads) == 1 and not [i for i in f.all() if i.op == 'store' and i.blk.id in inside_ and root(nz(f.expr(i.args[1]))) == v]
        if okl:
            pre = [q for q in Flow(f, limit=20000, cmp=exists).paths(stop=tuple(heads)) if q.end[0] == 'stop']
            okl = pre != [] and all(strip(nz(q.load(v, 4))) == size and nz(q.load(('cgep', v, 4), 4)) == ('c', 1) for q in pre)
        R.check(okl, 'bytes', 'copy size', e1[1].loc(), 'a copied element has another size', fn=f)
        R.check(nz(e2[3][3])[0] == 'clob' and nz(e2[3][3])[1] == nz(v), 'operands', 'copy', e2[1].loc(), 'a copy stores something else than it loaded', fn=f)
        for a, start, stride in ((a1, s, sst), (a2, d, dst_)):
            a = nz(a)
            good = False
            if a[0] == 'phi':
                ph = f.insts[a[1]]
                ex = [nz(f.expr(x[0])) for x in ph.args]
                steps = [x for x in ex if x != start]
                good = start in ex and len(steps) == 1 and poly(nz(steps[0])) == padd(poly(a), pmul(poly(stride), poly(size)))
            else:
                i = next((x for x in _walk(a) if x[0] == 'phi'), None)
                good = i is not None and poly(a) == padd(poly(start), pmul(poly(i), pmul(poly(stride), poly(size))))
            R.check(good, 'address', 'copy stride', e1[1].loc(), 'the elements of a copy are not one stride apart', fn=f)
    f = P.one(U + 'copyShadowMemory')
    a = args(f)
    for p in X.whole(f):
        c = evs(p, 'copyShadowMemoryStrided')
        good = len(c) == 1 and [nz(x) for x in c[0][3]] == [THIS] + a[1:5] + [('c', 1), ('c', 1), ('c', 1)] + a[5:]
        R.check(good, 'bytes', 'contiguous copy', floc(f), 'a contiguous copy is not one block of its size', fn=f)


# ------------------------------------------------------------------------------------------------------------------- hooks
def is_global(p, mem):
    for x, pol in p.lits:
        if x[0] == 'eq' and ('c', GLOB) in x[1:] and mentions(x, lambda y: y[0] == 'call' and short(y[1]) == 'getAddressSpace' and nz(y[2]) == mem
                                                              or y[0] == 'fld' and y[2] == 'm_addressSpace' and y[1] == mem):
            return pol
    return None


def hooks(P, R, X):
    def mem(p, *names):
        return [e for e in p.events if e[0] == 'call' and e[2] and e[2].startswith(SM) and short(e[2]) in names]
    f = P.one(U + 'memoryAllocated')
    _, m, a, s, fl, init = args(f)
    for p in X.whole(f):
        g = is_global(p, m)
        al, cl, po = mem(p, 'allocate'), mem(p, 'setClean'), mem(p, 'setPoisoned')
        i = [not pol for x, pol in p.lits if x[0] == 'eq' and set(x[1:]) == {init, ('c', 0)}]
        if g:
            mark = cl if i == [True] else po
            other = po if i == [True] else cl
            good = len(al) == 1 and len(i) == 1 and len(mark) == 1 and not other and [nz(x) for x in al[0][3][1:]] == [a, s] and [nz(x) for x in mark[0][3][1:]] == [a, s] \
                and p.events.index(al[0]) < p.events.index(mark[0])
            R.check(good, 'hooks', 'allocation', floc(f), 'a fresh buffer is not %s in all its bytes' % ('defined' if i == [True] else 'undefined'), fn=f)
        else:
            R.check(g is False and not al + cl + po, 'hooks', 'allocation space', floc(f), 'memory of another space is entered as global memory', fn=f)
    f = P.one(U + 'memoryDeallocated')
    _, m, a = args(f)
    for p in X.whole(f):
        g = is_global(p, m)
        d = mem(p, 'deallocate')
        R.check(g is not None and len(d) == (1 if g else 0) and all(nz(x[3][1]) == a for x in d), 'hooks', 'deallocation', floc(f), 'the shadow of a freed buffer is kept', fn=f)
    f = P.one(U + 'hostMemoryStore')
    _, m, a, s = args(f)[:4]
    for p in X.whole(f):
        g = is_global(p, m)
        c = mem(p, 'setClean')
        R.check(g is not None and len(c) == (1 if g else 0) and all([nz(x) for x in y[3][1:]] == [a, s] for y in c) and not mem(p, 'setPoisoned', 'allocate'), 'hooks', 'host write', floc(f),
                'a host write does not define exactly its bytes', fn=f)
    f = P.one(U + 'memoryMap')
    _, m, a, o, s, fl = args(f)
    for p in X.whole(f):
        g = is_global(p, m)
        c = mem(p, 'setClean')
        rd = [pol for x, pol in p.lits if x[0] == 'eq' and set(x[1:]) == {fl, ('c', 1)}]
        wr = [x for x, pol in p.lits if mentions(x, lambda y: y[0] == 'and' and fl in y[1:])]
        if g and (rd == [False] or wr):
            if rd == [False]:
                R.check(len(c) == 1 and poly(nz(c[0][3][1])) == padd(poly(a), poly(o)) and nz(c[0][3][2]) == s, 'hooks', 'map', floc(f),
                        'a region mapped for writing does not become defined', fn=f)
            else:
                for y in c:
                    R.check(poly(nz(y[3][1])) == padd(poly(a), poly(o)) and nz(y[3][2]) == s, 'hooks', 'map', floc(f), 'a mapping defines other bytes', fn=f)
        else:
            R.check(not c, 'hooks', 'map reading', floc(f), 'a region mapped only for reading becomes defined', fn=f)
    launches(P, R, X)


def spaces(p):
    r = [x[2][1] if x[2][0] == 'c' else x[1][1] for x, pol in p.lits if x[0] == 'eq' and pol and (x[1][0] == 'c' or x[2][0] == 'c')
         and mentions(x, lambda y: y[0] == 'call' and short(y[1]) == 'getPointerAddressSpace')]
    return r[0] if r else None


def isptr(p):
    return next((pol for x, pol in p.lits if x[0] == 'true' and short_of(x[1]) == 'isPointerTy'), None)


def launches(P, R, X):
    f = P.one(U + 'kernelBegin')
    n = 0
    for p in X.whole(f):
        if p.end[0] != 'iter':
            continue
        if any(x[0] == 'true' and short_of(x[1]) == 'isSized' and not pol for x, pol in p.lits):
            continue
        n += 1
        pb = [e for e in p.events if e[0] == 'call' and short(e[2]) in ('push_back', 'emplace_back')]
        d = [e for e in pb if mentions(e[3][0], lambda y: y[0] == 'fld' and y[2] == 'm_deferredInit')]
        dg = [e for e in pb if mentions(e[3][0], lambda y: y[0] == 'fld' and y[2] == 'm_deferredInitGroup')]
        gv = evs(p, 'setGlobalValue')
        sp = spaces(p) if isptr(p) else None
        R.check(bool(d) or bool(gv), 'hooks', 'kernel value %s' % sp, floc(f), 'a value of the launch has no shadow', fn=f)
        R.check(all(mentions(('t',) + tuple(e[3][2:]), lambda x: x[0] == 'call' and short(x[1]) == 'getCleanValue') for e in gv), 'hooks', 'kernel value clean', floc(f),
                'a value of the launch starts undefined', fn=f)
        if sp == GLOB:
            va = {('oclgrind::Memory' in x[1]): pol for x, pol in p.lits if x[0] == 'true' and short_of(x[1]) == 'isAddressValid'
                  for x in [(x[0], nz(x[1])[1])]}
            al = [e for e in evs(p, 'allocAndStoreShadowMemory') + [e for e in p.events if e[0] == 'call' and e[2] and e[2].startswith(SM)
                                                                     and short(e[2]) in ('allocate', 'store', 'setClean', 'setPoisoned')]]
            own, known = va.get(True), va.get(False)
            R.check(not al or known is False, 'hooks', 'global argument', floc(f), 'a launch replaces the shadow of a buffer that already has one', fn=f)
            if own is True and known is False:
                R.check(bool(al), 'hooks', 'global argument', floc(f), 'a buffer of the launch has no shadow', fn=f)
        if sp == LOC:
            R.check(len(dg) == 1, 'hooks', 'local memory', floc(f), 'local memory of the launch is not initialised for its work-groups', fn=f)
        if sp == PRIV:
            R.check(len(d) == 1, 'hooks', 'private memory', floc(f), 'private memory of the launch is not initialised for its work-items', fn=f)
    R.check(n >= 5, 'hooks', 'kernel values', floc(f), 'the values of a launch are not visited', fn=f)
    for p in X.whole(f):
        if p.end[0] == 'ret':
            c, d = evs(p, 'createMemoryPool'), evs(p, 'destroyMemoryPool')
            R.check(len(c) == len(d) == 1, 'hooks', 'kernel pool', floc(f), 'the pool of the launching thread is not created and released', fn=f)
    f = P.one(U + 'kernelEnd')
    for p in X.whole(f):
        cl = [nz(e[3][0]) for e in evs(p, 'clear')]
        nm = {x[2] for x in cl if x[0] == 'fld'}
        R.check({'m_deferredInit', 'm_deferredInitGroup'} <= nm and (bool(evs(p, 'clearGlobalValues')) or 'm_globalValues' in nm), 'hooks', 'kernel end', floc(f),
                'shadow values of a finished launch stay for the next one', fn=f)
    f = P.one(U + 'workItemBegin')
    wi = args(f)[1]
    for p in X.whole(f):
        o = [e for e in p.events if e[0] == 'call' and short(e[2]) in ('createMemoryPool', 'allocateWorkItems', 'createShadowWorkItem')]
        if p.end[0] == 'ret':
            R.check([short(e[2]) for e in o] in (['createMemoryPool', 'allocateWorkItems', 'createShadowWorkItem'], ['allocateWorkItems', 'createMemoryPool', 'createShadowWorkItem'])
                    and nz(o[-1][3][1]) == wi, 'hooks', 'work-item', floc(f), 'a work-item starts without shadow state', fn=f)
        if p.end[0] != 'iter':
            continue
        sp = spaces(p) if isptr(p) else None
        if isptr(p) and sp is None:
            continue
        sv, al = setvalues(p), evs(p, 'allocAndStoreShadowMemory')
        by = [pol for x, pol in p.lits if x[0] == 'true' and short_of(x[1]) == 'hasByValAttr']
        if not isptr(p) or sp in (GLOB, LOC) or by == [True]:
            R.check(len(sv) == 1 and made(sv[0][2], 'getCleanValue'), 'hooks', 'argument %s' % sp, floc(f), 'a kernel argument is not defined in the work-item', fn=f)
        if sp == PRIV:
            good = len(al) == 1 and nz(al[0][3][1]) == ('c', PRIV) and made(al[0][3][3], 'getCleanValue') and \
                mentions(al[0][3][2], lambda x: x[0] == 'call' and x[1].endswith('WorkItem::getOperand') and nz(x[2]) == wi) and nz(al[0][3][5]) == wi
            R.check(good, 'hooks', 'argument by value', floc(f), 'the bytes of an argument passed by value are not defined', fn=f)
    f = P.one(U + 'workGroupBegin')
    wg = args(f)[1]
    for p in X.whole(f):
        if p.end[0] == 'iter':
            al = evs(p, 'allocAndStoreShadowMemory')
            good = len(al) == 1 and nz(al[0][3][1]) == ('c', LOC) and made(al[0][3][3], 'getPoisonedValue') and short_of(nz(al[0][3][2])) == 'getLocalMemoryAddress' \
                and nz(nz(al[0][3][2])[2]) == wg and nz(al[0][3][6]) == wg
            R.check(good, 'hooks', 'local memory fresh', floc(f), 'local memory does not start undefined in every work-group', fn=f)
        elif p.end[0] == 'ret':
            c = evs(p, 'createShadowWorkGroup')
            R.check(len(c) == 1 and nz(c[0][3][1]) == wg, 'hooks', 'work-group', floc(f), 'a work-group starts without shadow state', fn=f)
    for n, d in (('workItemComplete', 'destroyShadowWorkItem'), ('workGroupComplete', 'destroyShadowWorkGroup')):
        f = P.one(U + n)
        for p in X.whole(f):
            c = evs(p, d)
            R.check(len(c) == 1 and nz(c[0][3][1]) == args(f)[1] and len(evs(p, 'destroyMemoryPool')) == 1, 'hooks', n, floc(f),
                    '%s does not release the shadow state' % n, fn=f)
