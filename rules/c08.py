"""C08: the instruction handlers are inlined into WorkItem::dispatch and the code reached for every opcode is evaluated
path-wise by constant propagation over the finite case splits that matter (predicate, relation of the operands, lane count
and width classes, zero divisors): the value stored in each lane must be the operation of the opcode over the accessors of
its own operands, for every lane of the result.  The typed accessors, constant materialisation, address computation and
the step function are decided the same way."""
from common import *
from truth import differ, A, AND, OR, NOT
from flow import Flow
from ir import Broken
import re

TECHNIQUE = 'path-wise constant propagation and value-expression matching per opcode over the inlined interpreter dispatch'
TUS = ['WorkItem', 'common']
NAMES = ('add|addrspacecast|alloc|ashr|bitcast|br|bwand|bwor|bwxor|call|extractelem|extractval|fadd|fcmp|fdiv|fmul|fneg|fpext|fptosi|'
         'fptoui|frem|fptrunc|fsub|gep|icmp|insertelem|insertval|inttoptr|itrunc|load|lshr|mul|phi|ptrtoint|ret|sdiv|select|sext|'
         'shl|shuffle|sitofp|srem|store|sub|swtch|udiv|uitofp|urem|zext|freeze')
OPTS = ('--extra-inline', 'WorkItem::(%s)$' % NAMES)
W_ = 'oclgrind::WorkItem::'
TV = 'oclgrind::TypedValue::'
INS, RES = ('arg', 'instruction'), ('arg', 'result')
NUM, SIZE, DATA = fld(RES, 'num'), ('load', RES), fld(RES, 'data')
OPC = {'Ret': 1, 'Br': 2, 'Switch': 3, 'Unreachable': 7, 'FNeg': 12, 'Add': 13, 'FAdd': 14, 'Sub': 15, 'FSub': 16, 'Mul': 17, 'FMul': 18,
       'UDiv': 19, 'SDiv': 20, 'FDiv': 21, 'URem': 22, 'SRem': 23, 'FRem': 24, 'Shl': 25, 'LShr': 26, 'AShr': 27, 'And': 28,
       'Or': 29, 'Xor': 30, 'Alloca': 31, 'Load': 32, 'Store': 33, 'GetElementPtr': 34, 'Trunc': 38, 'ZExt': 39, 'SExt': 40,
       'FPToUI': 41, 'FPToSI': 42, 'UIToFP': 43, 'SIToFP': 44, 'FPTrunc': 45, 'FPExt': 46, 'PtrToInt': 47, 'IntToPtr': 48,
       'BitCast': 49, 'AddrSpaceCast': 50, 'ICmp': 53, 'FCmp': 54, 'PHI': 55, 'Call': 56, 'Select': 57, 'ExtractElement': 61,
       'InsertElement': 62, 'ShuffleVector': 63, 'ExtractValue': 64, 'InsertValue': 65, 'Freeze': 67}
MINS = -(1 << 63)


def getop(v):
    return ('call', W_ + 'getOperand', THIS, v)


def opn(k):
    return ('call', 'llvm::User::getOperand', INS, C(k))


def operand_of(e):
    """the llvm value a TypedValue expression was fetched for"""
    e = nz(e)
    if e[0] == 'ptrto':
        e = e[1]
    if is_call(e, W_ + 'getOperand') and e[2] == THIS:
        return nz(e[3])
    return None


ALIAS = {}
for n_, k_ in (('SelectInst::getCondition', 0), ('SelectInst::getTrueValue', 1), ('SelectInst::getFalseValue', 2),
               ('ExtractElementInst::getVectorOperand', 0), ('ExtractElementInst::getIndexOperand', 1),
               ('LoadInst::getPointerOperand', 0), ('StoreInst::getValueOperand', 0), ('StoreInst::getPointerOperand', 1),
               ('GetElementPtrInst::getPointerOperand', 0), ('ExtractValueInst::getAggregateOperand', 0),
               ('InsertValueInst::getAggregateOperand', 0), ('InsertValueInst::getInsertedValueOperand', 1),
               ('SwitchInst::getCondition', 0), ('SwitchInst::getDefaultDest', 1)):
    ALIAS['llvm::' + n_] = k_


def opk(v):
    """operand number of an llvm::Value expression of this instruction"""
    v = nz(v)
    if v[0] == 'g' and v[1].startswith('#v'):
        return int(v[1][2:])
    if v[0] == 'call' and len(v) >= 3 and v[2] == INS:
        if v[1] in ALIAS:
            return ALIAS[v[1]]
        if v[1].endswith('::getOperand') and v[3][0] == 'c':
            return v[3][1]
    return None


def leaf_of(e):
    """('u'|'s'|'f'|'p', operand number, index) for an accessor call"""
    e = nz(e)
    if e[0] == 'call' and e[1] in (TV + 'getUInt', TV + 'getSInt', TV + 'getFloat', TV + 'getPointer'):
        k = opk(operand_of(e[2]) or ('?',))
        if k is not None:
            return e[1][len(TV) + 3].lower(), k, e[3]
    return None


class Case:
    """code executed for one opcode"""
    def __init__(self, R, f, name):
        self.R, self.f, self.name = R, f, name
        sw = [b for b in f.blocks if b.term.op == 'switch' and is_call(nz(f.expr(b.term.args[0])), 'llvm::Instruction::getOpcode')]
        need(sw, 'dispatch switch not found')
        t = sw[0].term
        d = dict((v, s) for v, s in t.d['cases'])
        self.start = d.get(OPC[name], t.d['default'])
        self.region = {b for b in f.reachable_from(self.start) if f.dominates_block(self.start, b)}
        self.loc = f.blocks[self.start].insts[0].loc() if f.blocks[self.start].insts else floc(f)
        self.loops = [l for l in f.loops if l[0] in self.region]
        self.keep = {i.id for l in self.loops for i in f.blocks[l[0]].insts if i.op == 'phi'}

    def insts(self, *names):
        return [c for c in self.f.calls if c.blk.id in self.region and (c.callee or '').startswith(names)]

    def bad(self, key, msg, i=None):
        self.R.bad('opcode', '%s:%s' % (self.name, key), i.loc() if i is not None else self.loc, msg, self.f)
        return False

    def ok(self, what):
        self.R.ok('opcode', '%s: %s' % (self.name, what), self.f)
        return True

    def ways(self, leaf=None, cmp=None, num=None, **kw):
        """paths from the case label, with the result holding num elements; calls on the same operand agree"""
        def lf(e):
            if e[0] == 'c':
                return None
            v = leaf(e) if leaf else None
            if v is None and num is not None and nz(e) == NUM:
                v = num
            return v

        def cm(p, a, b):
            if cmp is None:
                return None
            return cmp(p, *(x[1] if x[0] == 'c' else x for x in (a, b)))
        return list(Flow(self.f, leaf=lf, cmp=cm, limit=20000, **kw).paths(start=self.start))

    def lanewise(self, value, lf=None, cmp=None, setters=('setUInt', 'setSInt'), what='', nums=(1, 2, 3, 4, 8, 16)):
        """each lane is set exactly once, to a value accepted by value(expr, path, lane)"""
        for num in nums:
            try:
                ps = self.ways(lf, cmp, num)
            except Broken:
                if num <= 4:
                    raise
                continue        # a lane that branches on its data: narrower vectors stand for it
            for p in ps:
                if p.end[0] != 'ret':
                    return self.bad('fatal' + what, 'a supported form ends in a fatal error (lines %s)' % path_lines(self.f, p.blocks))
                lanes = {}
                for e in p.calls(*[TV + 'set' + x for x in ('UInt', 'SInt', 'Float', 'Pointer')]):
                    a = e[3]
                    if nz(a[0]) != RES:
                        continue
                    k = nz(a[2])
                    if k[0] != 'c' or not 0 <= k[1] < num:
                        return self.bad('lane', 'sets a lane that does not exist or is not known (%d lanes)' % num, e[1])
                    if k[1] in lanes:
                        return self.bad('once', 'a lane is set twice (lines %s)' % path_lines(self.f, p.blocks), e[1])
                    lanes[k[1]] = e
                if len(lanes) != num:
                    return self.bad('lanes' if lanes else 'set', 'not every lane of the result is set (%d of %d)' % (len(lanes), num))
                for k, e in sorted(lanes.items()):
                    if short(e[2]) not in setters:
                        return self.bad('kind', 'result set through %s' % e[2], e[1])
                    v = e[3][1]
                    if mentions(v, narrows):
                        return self.bad('narrow' + what, 'the value is truncated on the way', e[1])
                    x = v[1] if v[0] == 'c' else v
                    if not value(x, p, C(k)):
                        return self.bad('value' + what, 'lane is set to %s%s' % (show(v)[:160], what), e[1])
        return self.ok('lanes%s' % what)


def lanes(f, lp, bound):
    """index expression covering 0..bound-1 exactly once in loop lp (header-controlled), or None"""
    if loop_exits(f, lp) != {lp[0]}:
        return None
    h = lp[0]
    for i in f.blocks[h].insts:
        if i.op != 'phi':
            continue
        me = ('phi', i.id)
        start = [nz(f.expr(v)) for v, p in i.args if p not in lp[1]]
        step = [nz(f.expr(v)) for v, p in i.args if p in lp[1]]
        if len({repr(s) for s in start}) != 1 or not step:
            continue
        fs = [x for s in f.blocks[h].succs if s in lp[1] for x in edge_literals(f, h, s)]
        if start[0] == C(0) and all(poly(v) == padd(poly(me), {(): 1}) for v in step):
            for a, p in fs:
                if a[0] in ('lt', 'slt') and p and nz(a[1]) == me and same(a[2], bound):
                    return me
                if a[0] == 'eq' and not p and {repr(nz(a[1])), repr(nz(a[2]))} == {repr(me), repr(nz(bound))}:
                    return me
        if same(start[0], bound) and all(poly(v) == psub(poly(me), 1) for v in step):
            for a, p in fs:
                if a[0] == 'eq' and not p and nz(a[1]) == me and nz(a[2]) == C(0) or a[0] == 'lt' and p and nz(a[1]) == C(0) and \
                        nz(a[2]) == me:
                    return ('sub', me, C(1))
    return None


def narrows(x):
    return x[0] == 'trunc' and x[1] in ('i8', 'i16', 'i32')


def psub(p, n):
    return padd(p, {(): -n})


def mk(e):
    return nz(e) if isinstance(e, tuple) else e


def isl(v, kinds, k, ix):
    """v is accessor of operand k at lane ix"""
    if not isinstance(v, tuple):
        return False
    l = leaf_of(v)
    return bool(l) and l[0] in kinds and l[1] == k and poly(l[2]) == poly(nz(ix))


def binary(op, ka, kb, comm=False):
    def value(v, kn, ix):
        v = mk(v)
        if not isinstance(v, tuple) or v[0] != op or len(v) != 3:
            return False
        x, y = v[1], v[2]
        return isl(x, ka, 0, ix) and isl(y, kb, 1, ix) or comm and isl(y, ka, 0, ix) and isl(x, kb, 1, ix)
    return value


def relation(rel, acc):
    """cmp callback: outcome of comparing the two operands given their relation"""
    def side(e):
        l = leaf_of(e) if isinstance(e, tuple) else None
        return (l[0], l[1]) if l else None

    def cmp(p, a, b):
        if isinstance(a, tuple):
            a = nz(a)
        if isinstance(b, tuple):
            b = nz(b)
        x, y = side(a), side(b)
        if x and y and x[0] == y[0] and x[1] != y[1] and x[0] in rel:
            r = rel[x[0]]
            if x[1] > y[1]:
                r = {'lt': 'gt', 'gt': 'lt'}.get(r, r)
            return holds(p, r, x[0])
        if x and x[0] == 'f' and p in ('uno', 'ord') and (y is None or y == x):
            nan = rel.get('nan', ())
            return (x[1] in nan) == (p == 'uno')
        if x and x == y and x[0] == 'f' and p in ('une', 'oeq'):
            return (x[1] in rel.get('nan', ())) == (p == 'une')
        return None

    def holds(p, r, kind):
        if kind == 'f':
            if r == 'un':
                return p[0] == 'u' and p != 'ord'
            if p in ('uno', 'ord'):
                return p == 'ord'
            return {'eq': r == 'eq', 'ne': r != 'eq', 'lt': r == 'lt', 'le': r != 'gt', 'gt': r == 'gt', 'ge': r != 'lt'}[p[1:]]
        if p in ('eq', 'ne'):
            return (r == 'eq') == (p == 'eq')
        if kind == 'u' and p[0] == 's' or kind == 's' and p[0] == 'u':
            return None
        q_ = p[1:]
        return {'lt': r == 'lt', 'le': r != 'gt', 'gt': r == 'gt', 'ge': r != 'lt'}[q_]
    return cmp


def compares(R, c):
    """integer and floating-point comparisons: every predicate under every relation"""
    preds = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
    fp = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt', 11: 'uge',
          12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
    if c.name == 'ICmp':
        for n, p in preds.items():
            for s, u in (('eq', 'eq'), ('lt', 'lt'), ('lt', 'gt'), ('gt', 'lt'), ('gt', 'gt')):
                r = u if p[0] == 'u' else s
                want = {'eq': r == 'eq', 'ne': r != 'eq'}.get(p)
                if want is None:
                    want = {'lt': r == 'lt', 'le': r != 'gt', 'gt': r == 'gt', 'ge': r != 'lt'}[p[1:]]
                if not c.lanewise(lambda v, kn, ix: v == int(want), lambda e: n if is_call(e, 'llvm::CmpInst::getPredicate') else None,
                                  relation({'s': s, 'u': u}, 'su'), what=' (%s, %s/%s)' % (p, s, u)):
                    return
        return
    for n, p in fp.items():
        for r, nan in (('eq', ()), ('lt', ()), ('gt', ()), ('un', (0,)), ('un', (1,)), ('un', (0, 1))):
            if p in ('true', 'false'):
                want = p == 'true'
            elif p in ('uno', 'ord'):
                want = (r == 'un') == (p == 'uno')
            elif r == 'un':
                want = p[0] == 'u'
            else:
                want = {'eq': r == 'eq', 'ne': r != 'eq', 'lt': r == 'lt', 'le': r != 'gt', 'gt': r == 'gt', 'ge': r != 'lt'}[p[1:]]

            def lf(e):
                if is_call(e, 'llvm::CmpInst::getPredicate'):
                    return n
                if is_call(e, 'llvm::CmpInst::isOrdered'):
                    return int(1 <= n <= 7)
                if is_call(e, 'llvm::CmpInst::isUnordered'):
                    return int(8 <= n <= 14)
                if e[0] == 'call' and e[1].endswith('isnan'):
                    l = leaf_of(e[2])
                    return int(l[1] in nan) if l else None
                if e[0] == 'call' and e[1].startswith('llvm.is.fpclass'):
                    l = leaf_of(e[2])
                    return int(l[1] in nan) if l and e[3] == C(3) else None
                return None
            if not c.lanewise(lambda v, kn, ix: v == int(want), lf, relation({'f': r, 'nan': nan}, 'f'),
                              what=' (%s, %s%s)' % (p, r, list(nan) if nan else '')):
                return


def division(c, op, kinds):
    """quotient/remainder whenever the operation is defined, some constant otherwise"""
    signed = op[0] == 's'
    for nb in ('0', '-1', 'other')[::1 if signed else 2]:
        for na in ('min', 'other')[0 if signed else 1:]:
            def cmp(p, a, b):
                x, y = (nz(t) if isinstance(t, tuple) else t for t in (a, b))
                la = leaf_of(x) if isinstance(x, tuple) else None
                if la is None or not isinstance(y, int) or p not in ('eq', 'ne') or y not in (0, -1, MINS, 1 << 63):
                    return None
                is_ = {0: '0', -1: '-1'}.get(y, 'min')
                if la[1] == 1 and is_ != 'min':
                    r = nb == is_
                elif la[1] == 0 and is_ == 'min':
                    r = na == is_
                else:
                    return None
                return r == (p == 'eq')

            def value(v, kn, ix):
                if nb == '0' or nb == '-1' and na == 'min':
                    return isinstance(v, int)
                if nb == '-1' and op == 'srem' and v == 0:
                    return True
                return binary(op, kinds, kinds)(v, kn, ix)
            if not c.lanewise(value, None, cmp, what=' (b is %s, a is %s)' % (nb, na)):
                return


def shift(c, op, kinds):
    for num in (1, 2, 16):
        for size in (1, 2, 4, 8):
            mask = (size if num > 1 else max(size, 4)) * 8 - 1

            def lf(e):
                if e == NUM or nz(e) == NUM:
                    return num
                if e == SIZE or nz(e) == SIZE:
                    return size
                if e[0] == 'call' and e[1].startswith('std::max'):
                    return None
                return None

            def value(v, kn, ix):
                v = mk(v)
                if not isinstance(v, tuple) or v[0] != op or not isl(v[1], kinds, 0, ix):
                    return False
                y = v[2]
                if isinstance(y, tuple) and y[0] == 'urem' and y[2] == C(mask + 1):
                    return isl(y[1], 'u', 1, ix)
                return isinstance(y, tuple) and y[0] == 'and' and (y[2] == C(mask) and isl(y[1], 'us', 1, ix) or
                                                                   y[1] == C(mask) and isl(y[2], 'us', 1, ix))
            if not c.lanewise(value, lf, None, what=' (%d x %d bytes)' % (num, size), nums=(num,)):
                return


def width(e, f):
    """which type a scalar-width query is about: 'res', or operand number"""
    if e[0] == 'call' and e[1].split('::')[-1] in ('getScalarSizeInBits', 'getIntegerBitWidth', 'isIntegerTy'):
        t = nz(e[2])
        if t[0] == 'call' and t[1].endswith('getScalarType'):
            t = t[2]
        if is_call(t, 'llvm::Value::getType'):
            return 'res' if t[2] == INS else opk(t[2])
    return None


def conversions(c):
    n = c.name
    if n == 'Trunc':
        for w in (1, 8, 32):
            def lf(e):
                k = width(e, c.f)
                if k is None:
                    return None
                if e[1].endswith('isIntegerTy'):
                    return int((w if k == 'res' else 64) == e[3][1]) if len(e) > 3 else None
                return w if k == 'res' else 64

            def value(v, kn, ix):
                v = mk(v)
                if w == 1:
                    return isinstance(v, tuple) and v[0] == 'and' and v[2] == C(1) and isl(v[1], 'us', 0, ix)
                return isl(v, 'us', 0, ix)
            if not c.lanewise(value, lf, what=' (to i%d)' % w):
                return
    elif n == 'SExt':
        for w, z in ((8, 0), (1, 0), (1, 1)):
            def lf(e):
                k = width(e, c.f)
                if k is None:
                    return None
                if e[1].endswith('isIntegerTy'):
                    return int((64 if k == 'res' else w) == e[3][1]) if len(e) > 3 else None
                return 64 if k == 'res' else w

            def cmp(p, a, b):
                if isinstance(a, tuple) and leaf_of(a) and b == 0 and w == 1 and p in ('eq', 'ne'):
                    return bool(z) == (p == 'ne')
                return None

            def value(v, kn, ix):
                if w == 1:
                    return v == (-1 if z else 0)
                return isl(mk(v), 's', 0, ix)
            if not c.lanewise(value, lf, cmp, what=' (from i%d%s)' % (w, ['', ' true'][z])):
                return
    elif n in ('SIToFP', 'UIToFP'):
        op, kind = ('sitofp', 's') if n == 'SIToFP' else ('uitofp', 'u')
        for size in (4, 8):
            for z in (0, 1):
                def lf(e):
                    return size if e == SIZE or nz(e) == SIZE else None

                def cmp(p, a, b):
                    if isinstance(a, tuple) and leaf_of(a) and b == 0 and p in ('eq', 'ne'):
                        return bool(z) == (p == 'ne')
                    return None

                def value(v, kn, ix):
                    if not z and v == ('f', 0.0):
                        return True
                    if not isinstance(v, tuple):
                        return False
                    if v[0] == 'fpext' and v[1] == 'double' and size == 4:
                        v = v[2]
                        return v[0] == op and v[1] == 'float' and isl(v[2], kind, 0, ix) or v == ('f', 0.0)
                    return v[0] == op and v[1] == 'double' and isl(v[2], kind, 0, ix) and size == 8
                if not c.lanewise(value, lf, cmp, ('setFloat',), ' (to %d bytes)' % size):
                    return


def copies(c, src, what='whole value copied'):
    """one memcpy of size*num bytes of the given operand data into the result on every path"""
    f = c.f
    ms = [m for m in mem_intrinsics(f) if m.blk.id in c.region]
    if len(ms) != 1:
        return c.bad('copy', 'copies %d times' % len(ms))
    m = ms[0]
    a = [nz(x) for x in args(f, m)]
    if a[0] != DATA or poly(a[2]) != pmul(poly(SIZE), poly(NUM)):
        return c.bad('copy', 'does not fill the whole result', m)
    s = a[1]
    import c08b
    v = c08b.data_of(s)
    if v is None or not src(v):
        return c.bad('source', 'copies another value', m)
    p = reach_without(f, c.start, f.ret_insts(), [m])
    if p:
        return c.bad('copy', 'no copy on a path (lines %s)' % path_lines(f, p), m)
    return c.ok(what)


POS = fld(THIS, 'm_position')


def run(P, R):
    R.rule('opcode', 'the code reached for an opcode computes that operation on its own operands for every lane', 40)
    f = P.one(W_ + 'dispatch')
    K = {n: Case(R, f, n) for n in OPC}
    for n, op, ka, comm in (('Add', 'add', 'us', 1), ('Sub', 'sub', 'us', 0), ('Mul', 'mul', 'us', 1), ('And', 'and', 'us', 1), ('Or', 'or', 'us', 1),
                            ('Xor', 'xor', 'us', 1)):
        K[n].lanewise(binary(op, ka, ka, comm))
    for n, op, comm in (('FAdd', 'fadd', 1), ('FSub', 'fsub', 0), ('FMul', 'fmul', 1), ('FDiv', 'fdiv', 0)):
        K[n].lanewise(binary(op, 'f', 'f', comm), setters=('setFloat',))
    K['FRem'].lanewise(lambda v, kn, ix: isinstance(v, tuple) and (v[0] == 'frem' and isl(v[1], 'f', 0, ix) and isl(v[2], 'f', 1, ix) or
                       v[0] == 'call' and v[1] in ('fmod', 'std::fmod') and isl(v[2], 'f', 0, ix) and isl(v[3], 'f', 1, ix)),
                       setters=('setFloat',))
    K['FNeg'].lanewise(lambda v, kn, ix: isinstance(v, tuple) and v[0] == 'fneg' and isl(v[1], 'f', 0, ix), setters=('setFloat',))
    for n in ('FPExt', 'FPTrunc'):
        K[n].lanewise(lambda v, kn, ix: isl(v, 'f', 0, ix), setters=('setFloat',))
    for n, op in (('FPToSI', 'fptosi'), ('FPToUI', 'fptoui')):
        K[n].lanewise(lambda v, kn, ix: isinstance(v, tuple) and v[0] == op and v[1] == 'i64' and isl(v[2], 'f', 0, ix))
    K['ZExt'].lanewise(lambda v, kn, ix: isl(mk(v), 'u', 0, ix))
    K['PtrToInt'].lanewise(lambda v, kn, ix: isl(mk(v), 'pu', 0, ix))
    K['IntToPtr'].lanewise(lambda v, kn, ix: isl(mk(v), 'u', 0, ix), setters=('setPointer', 'setUInt'))
    for n in ('UDiv', 'SDiv', 'URem', 'SRem'):
        division(K[n], n.lower(), n[0].lower())
    shift(K['Shl'], 'shl', 'us')
    shift(K['LShr'], 'lshr', 'u')
    shift(K['AShr'], 'ashr', 's')
    compares(R, K['ICmp'])
    compares(R, K['FCmp'])
    for n in ('Trunc', 'SExt', 'SIToFP', 'UIToFP'):
        conversions(K[n])
    for n in ('BitCast', 'AddrSpaceCast', 'Freeze'):
        copies(K[n], lambda v: opk(v) == 0)
    prev = fld(POS, 'prevBlock')
    copies(K['PHI'], lambda v: v[0] == 'call' and v[1].endswith('getIncomingValueForBlock') and v[2] == INS and v[3] == prev)
    import c08b as b
    b.vectors(K)
    b.control(R, f, K)
    b.memory(K)
    b.aggregates(K)
    b.gep(K['GetElementPtr'])
    b.call(K['Call'])
    R.rule('unsupported', 'an opcode without an implementation, and an unreachable instruction, end in a fatal error', 2)
    sw = [b.term for b in f.blocks if b.term.op == 'switch' and is_call(nz(f.expr(b.term.args[0])), 'llvm::Instruction::getOpcode')][0]
    handled = {v for v, s in sw.d['cases']}
    for nm, v in (('default', None), ('Unreachable', 7)):
        s = dict((a, b) for a, b in sw.d['cases']).get(v, sw.d['default'])
        p = reach_without(f, s, f.ret_insts(), [])
        R.check(p is None, 'unsupported', nm, sw.loc(), 'an unsupported instruction is skipped silently', fn=f)
    R.check(handled <= set(OPC.values()), 'unsupported', 'set', sw.loc(), 'opcode %s has no rule' % (handled - set(OPC.values())), fn=f)
    b.accessors(P, R)
    b.stepping(P, R)
