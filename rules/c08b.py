"""Vector, control-flow, memory and bookkeeping instructions (second half of C08)."""
from common import *
from ceval import Ev, sub
import c08
from c08 import opk, INS, RES, NUM, SIZE, DATA, POS, TV, W_, operand_of, lanes, leaf_of


def data_of(e):
    """llvm value whose data pointer this is"""
    e = nz(e)
    if e[0] == 'xv' and e[1] == (1,) and is_call(e[2], W_ + 'getOperand'):
        return nz(e[2][3])
    if e[0] == 'load' and e[1][0] == 'fld' and e[1][2] in ('data', '#1'):
        return operand_of(e[1][1])
    return None


def split(e):
    """(base, byte offset polynomial)"""
    b, p = byteoff(nz0(e))
    return nz(b), p


def nz0(e):
    return deep(e)


def copy_parts(f, m):
    a = args(f, m)
    return split(a[0]), split(a[1]), poly(nz(a[2]))


def P_(e):
    return poly(nz(e))


def scalar(k):
    return lambda e: (lambda l: bool(l) and l[1] == k and l[2] == C(0))(leaf_of(e))


def one_copy(c, ms, path):
    return [m for m in ms if m.blk.id in path]


VW = (1, 2, 3, 4, 8, 16)
TYPES = {
    # name: nested type; a node is (size, kind, members), members of a struct: [(offset, node)], element of an array
    'i8': (1, 'x', None), 'i32': (4, 'x', None), 'i64': (8, 'x', None), 'v4': (16, 'v', None), 'other': (8, 'o', None)}
TYPES['s1'] = (16, 's', [(0, TYPES['i8']), (8, TYPES['i64'])])
TYPES['a3'] = (48, 'a', TYPES['s1'])
TYPES['s2'] = (80, 's', [(0, TYPES['i32']), (16, TYPES['v4']), (32, TYPES['a3'])])
TYPES['aa'] = (160, 'a', TYPES['s2'])


class Node:
    """concrete types named by a path, so that they can be constants of the evaluation"""
    def __init__(self, roots):
        self.n = {}
        for k, t in roots.items():
            self.add('#ty%s' % k, t)

    def add(self, name, t):
        self.n[name] = t
        if t[1] == 's':
            for i, (o, m) in enumerate(t[2]):
                self.add(name + '.%d' % i, m)
        elif t[1] == 'a':
            self.add(name + '.e', t[2])


def place(e):
    """(name, byte offset) of a constant place of the model"""
    if e[0] == 'g':
        return e[1], 0
    if e[0] == 'cgep':
        b = place(e[1])
        return b and (b[0], b[1] + e[2])
    if e[0] in ('ptr', 'idx') and len(e) == 4 and e[2][0] == 'c' and e[3]:
        b = place(e[1])
        return b and (b[0], b[1] + e[2][1] * e[3])
    return None


def model(shapes, result, values=None, types=None, array=None, more=None, vector=None):
    """leaf function giving the instruction concrete operands: shapes {operand: (size, num)}, result (size, num), values
    {operand: function of the lane}, types {operand: type}, array (indices or mask)"""
    T = Node(types or {})
    values = values or {}

    def at(e):
        return e[1] if e[0] == 'g' and e[1] in T.n else None

    def leaf(e):
        k = e[0]
        if k == 'xv' and is_call(e[2], W_ + 'getOperand') and e[2][2] == THIS:
            o = opk(e[2][3])
            if o is None:
                return None
            if e[1] == (1,):
                return ('g', '#op%d' % o)
            if e[1] == (0,) and o in shapes:
                return shapes[o][1] << 32 | shapes[o][0]
            return None
        if k == 'load':
            n = nz(e)
            if n == NUM:
                return result[1]
            if n == SIZE:
                return result[0]
            if n == DATA:
                return ('g', '#result')
            p = place(e[1])
            if p and p[0] == '#array' and p[1] % 4 == 0 and 0 <= p[1] < 4 * len(array or ()):
                return array[p[1] // 4]
            return None
        if k != 'call':
            return None
        if len(e) >= 3 and e[2] == INS:
            s = short(e[1])
            if more:
                r = more(s, e)
                if r is not None:
                    return r
            o = opk(e)
            if o is not None:
                return ('g', '#v%d' % o)
            if s == 'getMaskValue' and e[3][0] == 'c' and array is not None and 0 <= e[3][1] < len(array):
                return array[e[3][1]]
            if s == 'getNumIndices':
                return len(array)
            if s == 'getType':
                return ('g', '#tyR') if '#tyR' in T.n else None
            return None
        l = leaf_of(e)
        if l and l[1] in values and l[2][0] == 'c':
            return values[l[1]](l[2][1])
        s = short(e[1])
        if 'ArrayRef<' in e[1] and array is not None:
            if s == 'size':
                return len(array)
            if s == 'empty':
                return int(not array)
            if s in ('begin', 'data'):
                return ('g', '#array')
            if s == 'end':
                return ('cgep', ('g', '#array'), 4 * len(array))
            if s == 'operator[]' and e[3][0] == 'c':
                return ('cgep', ('g', '#array'), 4 * e[3][1]) if e[3][1] else ('g', '#array')
            if s == 'front':
                return ('g', '#array')
        if len(e) < 3:
            return None
        if more:
            r = more(s, e)
            if r is not None:
                return r
        if s == 'getType':
            o = opk(e[2])
            return ('g', '#ty%d' % o) if o is not None and '#ty%d' % o in T.n else None
        o = opk(nz(e[2])[2]) if is_call(nz(e[2]), 'llvm::Value::getType') else None
        if s == 'isVectorTy' and o in shapes:
            return int(o in vector if vector is not None else shapes[o][1] > 1)
        if s == 'getNumElements':
            o = [opk(x[2]) for x in subexprs(e[2]) if is_call(x, 'llvm::Value::getType')]
            return shapes[o[0]][1] if len(o) == 1 and o[0] in shapes else None
        t = at(e[2])
        if t is None:
            return None
        node = T.n[t]
        arg = e[3][1] if len(e) > 3 and e[3][0] == 'c' else None
        kind = {'isArrayTy': 'a', 'isStructTy': 's', 'isVectorTy': 'v'}.get(s)
        if kind:
            return int(node[1] == kind)
        if s in ('getArrayElementType', 'getElementType', 'getContainedType', 'getStructElementType', 'getTypeAtIndex'):
            if node[1] == 'a' and s not in ('getStructElementType',):
                return ('g', t + '.e')
            if node[1] == 's' and arg is not None and s not in ('getArrayElementType', 'getElementType'[:0]) and 0 <= arg < len(node[2]):
                return ('g', t + '.%d' % arg)
            return None
        if s == 'getTypeSize':
            return node[0]
        if s == 'getStructMemberOffset' and node[1] == 's' and arg is not None and 0 <= arg < len(node[2]):
            return node[2][arg][0]
        if s.startswith(('cast', 'dyn_cast')):
            w = 's' if 'StructType' in e[1] else 'a' if 'ArrayType' in e[1] else None
            if w:
                return ('g', t) if node[1] == w else 0
        return None
    return leaf


def written(p):
    """{byte of the result: (operand, byte) | 0}, or the event that writes something unknown"""
    out = {}

    def key(a):
        r, v, c = p.flow.key(a)
        if r[0] != 'g' or v:
            q = place(r) if not v else None
            return None if q is None else (q[0], q[1] + c)
        return r[1], c
    for e in p.events:
        if e[0] in ('copy', 'set'):
            d, n = key(e[3][0]), e[3][2]
            if d is None and nz(e[3][0])[0] == 'alloca':
                continue
            if d is None or n[0] != 'c' or n[1] < 0:
                return e
            if d[0] != '#result':
                return e
            if e[0] == 'set':
                if e[3][1] != ('c', 0):
                    return e
                src = lambda i: 0       # noqa: E731
            else:
                s = key(e[3][1])
                if s is None or not s[0].startswith('#op'):
                    return e
                src = lambda i, s=s: (int(s[0][3:]), s[1] + i)      # noqa: E731
            for i in range(n[1]):
                out[d[1] + i] = src(i)
        elif e[0] == 'store':
            d = key(e[2])
            if d and d[0] == '#result':
                v = e[3]
                s = key(v[1]) if v[0] == 'load' else None
                if s is None or not s[0].startswith('#op'):
                    return e
                w = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}.get(p.flow.otype(e[1].args[0]))
                if not w:
                    return e
                for i in range(w):
                    out[d[1] + i] = int(s[0][3:]), s[1] + i
        elif e[0] == 'call' and e[2] and e[2].startswith(TV + 'set') and nz(e[3][0]) == RES:
            return e
    return out


def region(k, frm, to, n):
    """n bytes of operand k"""
    return {to + i: (k, frm + i) for i in range(n)}


def moved(c, key, leaf, want, free=(), limits=None, fatal=False, what=''):
    """the result ends up with exactly these bytes; free bytes may hold anything, without reading beyond an operand"""
    for p in c.ways(leaf):
        if fatal:
            if p.end[0] == 'ret':
                return c.bad(key, 'an unknown form is accepted%s' % what)
            continue
        if p.end[0] == 'iter':
            return c.bad(key, 'the number of parts is not that of the instruction%s (lines %s)' % (what, path_lines(c.f, p.blocks)))
        if p.end[0] != 'ret':
            return c.bad(key, 'a supported form ends in a fatal error%s' % what)
        w = written(p)
        if not isinstance(w, dict):
            return c.bad(key, 'copies something else%s' % what, w[1])
        for b, s in sorted(w.items()):
            if b in free:
                if s and limits and not 0 <= s[1] < limits[s[0]]:
                    return c.bad(key, 'reads beyond operand %d%s' % (s[0], what))
            elif b not in want:
                return c.bad(key, 'writes byte %d, which is not part of the result%s' % (b, what))
            elif s != want[b]:
                return c.bad(key, 'byte %d comes from %s instead of byte %d of operand %d%s' % (
                    b, 'nowhere' if not s else 'byte %d of operand %d' % (s[1], s[0]), want[b][1], want[b][0], what))
        if not set(want) <= set(w):
            return c.bad(key, 'byte %d is never written%s' % (min(set(want) - set(w)), what))
    return True


def vectors(K):
    # select: every lane takes the value its own condition chooses
    c = K['Select']
    good = True
    for n in VW:
        for size in (1, 4, 8):
            pats = [(False, lambda i: 1, 'true'), (False, lambda i: 0, 'false')]
            if n > 1:
                pats += [(True, lambda i: 1, 'true'), (True, lambda i: 0, 'false'), (True, lambda i: i & 1, 'odd'), (True, lambda i: 1 - (i & 1), 'even')]
            for vec, cond, nm in pats:
                want = {}
                for i in range(n):
                    want.update(region(1 if cond(i) else 2, i * size, i * size, size))
                leaf = model({0: (1, n if vec else 1), 1: (size, n), 2: (size, n)}, (size, n), {0: cond if vec else lambda i: cond(i) if i == 0 else 1 - cond(0)},
                             vector={0, 1, 2} if vec else ({1, 2} if n > 1 else set()))
                good = good and moved(c, 'lanes', leaf, want, what=' (%d lanes, %s condition %s)' % (n, 'vector' if vec else 'scalar', nm))
    if good:
        c.ok('lanes')
    # extract / insert: every in-range index selects its own element (C33 decides the others)
    for name in ('ExtractElement', 'InsertElement'):
        c = K[name]
        good = True
        for n in VW[1:]:
            for size in (1, 2, 4, 8):
                for lane in sorted({0, 1, n // 2, n - 1}):
                    if name == 'ExtractElement':
                        leaf = model({0: (size, n), 1: (8, 1)}, (size, 1), {1: lambda i: lane})
                        want = region(0, lane * size, 0, size)
                    else:
                        leaf = model({0: (size, n), 1: (size, 1), 2: (8, 1)}, (size, n), {2: lambda i: lane})
                        want = region(0, 0, 0, size * n)
                        want.update(region(1, 0, lane * size, size))
                    good = good and moved(c, 'element', leaf, want, what=' (index %d of %d)' % (lane, n))
        if good:
            c.ok('element')
    # shuffle: lane i is the element of the concatenated operands that the mask names
    c = K['ShuffleVector']
    good = True
    for n, size, mask in ((2, 4, (0, 1)), (4, 4, (3, 2, 1, 0)), (4, 4, (4, 5, 6, 7)), (4, 2, (0, 4, -1, 7)), (2, 8, (3, 0, 2)), (8, 1, (15,) * 16),
                          (3, 4, (2, 3, 5, -1)), (16, 1, (8, 9, 24, 31)), (1, 4, (0, 0, 0, 0)), (4, 8, (-1, -1, 6, 1, 3, 4, 0, 2)), (2, 4, (1,))):
        want, free = {}, set()
        for i, m in enumerate(mask):
            if m < 0:
                free |= set(range(i * size, (i + 1) * size))
            else:
                want.update(region(int(m >= n), (m % n) * size, i * size, size))
        leaf = model({0: (size, n), 1: (size, n)}, (size, len(mask)), array=mask)
        good = good and moved(c, 'lanes', leaf, want, free, {0: n * size, 1: n * size}, what=' (mask %s of two vectors of %d)' % (list(mask), n))
    if good:
        c.ok('lanes')


def psubp(p, q_):
    return padd(p, pscale(q_, -1))


def offidx(p, k):
    """p == size * scalar operand k"""
    if len(p) != 1:
        return False
    (m, co), = p.items()
    m = list(m)
    if co != 1 or nz(SIZE) not in [nz(x) for x in m] or len(m) != 2:
        return False
    o = [x for x in m if nz(x) != nz(SIZE)]
    return len(o) == 1 and scalar(k)(o[0]) and leaf_of(o[0])[0] in 'us'


def must_precede_from(f, start, i, befores):
    p = reach_without(f, start, [i], befores)
    return p is None


def next_stores(c):
    p = nz(('fld', POS, 'nextBlock'))
    return [s for s in stores(c.f) if s.blk.id in c.region and nz(c.f.expr(s.args[1])) == p]


def targets(p):
    """values of the next block written on the path, in order"""
    return [nz(e[3]) for e in p.stores() if nz(e[2]) == nz(('fld', POS, 'nextBlock'))]


def control(R, f, K):
    c = K['Br']
    for uncond in (1, 0):
        for cond in (0, 1):
            def more(s, e):
                if s == 'getNumOperands':
                    return 1 if uncond else 3
                if s == 'isConditional':
                    return 1 - uncond
                if s == 'isUnconditional':
                    return uncond
                if s == 'getNumSuccessors':
                    return 2 - uncond
                if s == 'getSuccessor' and e[3][0] == 'c':
                    return ('g', '#v%d' % (0 if uncond else 2 - e[3][1]))
                return None
            leaf = model({0: (1, 1)}, (0, 0), {0: lambda i: cond}, more=more)
            nm = 'unconditional' if uncond else 'condition is %s' % bool(cond)
            good = True
            for p in c.ways(leaf):
                t = targets(p)
                want = ('g', '#v%d' % (0 if uncond else 2 if cond else 1))
                if p.end[0] != 'ret' or not t or t[-1] != want:
                    good = c.bad('target', 'continues at the wrong block when %s' % nm)
                    break
            if good:
                c.ok('target (%s)' % nm)
    c = K['Switch']

    def case_of(a):
        """the case whose value the atom compares with the condition"""
        if a[0] != 'eq':
            return None
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            l = leaf_of(y)
            x = nz(x)
            if l and l[:2] == ('u', 0) and nz(l[2]) == C(0) and x[0] == 'call' and x[1].endswith('getZExtValue') and is_call_end(nz(x[2]), '::getCaseValue'):
                return nz(nz(x[2])[2])
        return None
    seen = set()
    for p in c.ways():
        t = targets(p)
        lit = [(case_of(a), pol) for a, pol in p.lits if case_of(a) is not None]
        hit = [k for k, pol in lit if pol]
        over = [a for a, pol in p.lits if mentions(a, lambda x: x[0] == 'call' and short(x[1]) in ('end', 'case_end'))]
        where = ' (lines %s)' % path_lines(f, p.blocks)
        if p.end[0] == 'iter':
            ok = not hit and lit and not t
            c.ok('search') if ok else c.bad('search', 'goes on after a match, or past a case that was not compared' + where)
            continue
        if p.end[0] != 'ret' or not t:
            c.bad('target', 'no block is chosen' + where)
            continue
        v = t[-1]
        if is_call_end(v, '::getCaseSuccessor'):
            seen.add('case')
            c.ok('case') if hit == [nz(v[2])] else c.bad('case', 'a case is taken although its value differs' + where)
        elif opk(v) == 1:
            seen.add('default')
            ok = not lit and over
            c.ok('default') if ok else c.bad('default', 'default target taken although a case may match' + where)
        else:
            c.bad('target', 'continues at another block' + where)
    if seen != {'case', 'default'}:
        c.bad('target', 'a case or the default is never taken')
    # return
    c = K['Ret']
    stk = nz(('fld', POS, 'callStack'))
    top = [i for i in f.calls if i.blk.id in c.region and (i.callee or '').endswith('::top') and nz(args(f, i)[0]) == stk]
    pop = [i for i in f.calls if i.blk.id in c.region and (i.callee or '').endswith('::pop') and nz(args(f, i)[0]) == stk]
    emp = [i for i in f.calls if i.blk.id in c.region and (i.callee or '').endswith(('::empty', '::size')) and nz(args(f, i)[0]) == stk]
    fin = [s for s in stores(f) if s.blk.id in c.region and nz(f.expr(s.args[1])) == ('fld', THIS, 'm_state') and nz(f.expr(s.args[0])) == C(2)]
    nf = [i for i in c.insts('oclgrind::WorkGroup::notifyFinished') if nz(args(f, i)[0]) == fld(THIS, 'm_workGroup') and
          nz(args(f, i)[1]) == THIS]
    if not (top and pop and emp and fin and nf):
        c.bad('form', 'call stack not consulted, or the work-item never finishes')
        return
    for i, pol, what in [(t, False, 'caller taken from an empty stack') for t in top + pop] + \
            [(s, True, 'finishes although a caller is waiting') for s in fin + nf]:
        fs = facts(f, i.blk.id)
        ok = any(has(fs, ('true', f.iexpr(e)), pol) or has(fs, ('eq', f.iexpr(e), C(0)), pol) for e in emp)
        c.ok('stack') if ok else c.bad('stack', what, i)
    dealloc = c.insts('oclgrind::Memory::deallocateBuffer')
    p = reach_without(f, c.start, f.ret_insts(), pop + fin)
    c.ok('leave') if not p else c.bad('leave', 'neither returns to the caller nor finishes (lines %s)' % path_lines(f, p))
    p = reach_without(f, c.start, f.ret_insts(), pop + nf)
    c.ok('finish') if not p else c.bad('finish', 'the group is not told that the work-item finished (lines %s)' % path_lines(f, p))
    cur = [m for m in f.all() if m.blk.id in c.region and (m.op == 'store' and nz(f.expr(m.args[1])) == nz(('fld', POS, 'currInst')) or
           m.op in ('call', 'invoke') and (m.callee or '').startswith('llvm.memcpy') and nz(args(f, m)[0]) == nz(('fld', POS, 'currInst')))]
    blkst = [s for s in stores(f) if s.blk.id in c.region and nz(f.expr(s.args[1])) == nz(('fld', POS, 'currBlock'))]
    for nm, x in (('currInst', cur), ('currBlock', blkst)):
        ok = bool(x) and reach_without(f, c.start, f.ret_insts(), x + fin) is None
        c.ok(nm) if ok else c.bad(nm, 'does not continue at the call')
    ok = all(reach_without(f, p_, top, []) is None for p_ in pop)
    c.ok('pop') if ok else c.bad('pop', 'caller forgotten before it is used')
    setv = c.insts(W_ + 'setValue')
    good = False
    for s in setv:
        a = args(f, s)
        clone = [x for x in subexprs(nz(a[2])) if x[0] == 'call' and x[1].endswith('MemoryPool::clone')]
        if clone and mentions(nz(a[2]), lambda x: is_call(x, W_ + 'getOperand') and is_call(nz(x[3]), 'llvm::ReturnInst::getReturnValue')):
            rv = [x for x in subexprs(nz(a[2])) if is_call(x, 'llvm::ReturnInst::getReturnValue')][0]
            good = mentions(nz(a[1]), lambda x: x == nz(('fld', POS, 'currInst'))) and nonzero(facts(f, s.blk.id), rv)
            p = path_avoiding_from(f, c.start, [s] + fin, [(('eq', rv, C(0)), False), (('true', rv), True)])
            good = good and p is None and any(reach_without(f, c.start, [s], [x]) is None for x in cur)
    c.ok('value') if good else c.bad('value', 'returned value is not bound to the call')


def path_avoiding_from(f, start, stops, cond):
    sid = {i.id for i in stops}
    seen, st = set(), [(start, [start])]
    while st:
        b, path = st.pop()
        if b in seen:
            continue
        seen.add(b)
        hit = False
        for i in f.blocks[b].insts:
            if i.id in sid:
                hit = True
                break
            if i.op == 'ret':
                return path
        if hit:
            continue
        for s in f.blocks[b].succs:
            ls = edge_literals(f, b, s)
            if any((nz_atom(a), p) == (nz_atom(c), not q_) for a, p in ls for c, q_ in cond):
                continue
            st.append((s, path + [s]))
    return None


def is_call_end(e, suffix):
    return isinstance(e, tuple) and e and e[0] == 'call' and e[1].endswith(suffix)


def is_exit(f, lp, i):
    """i is outside the loop and reached only through its header's exit"""
    if i.blk.id in lp[1]:
        return False
    return f.dominates_block(lp[0], i.blk.id) and not any(
        reach_block(f, s, i.blk.id, lp) for b in lp[1] if b != lp[0] for s in f.blocks[b].succs if s not in lp[1])


def reach_block(f, a, b, lp):
    return a == b or b in f.reachable_from(a)


def memory(K):
    f = K['Load'].f
    for n, k in (('Load', 0), ('Store', 1)):
        c = K[n]
        cs = c.insts('oclgrind::Memory::' + n.lower())
        if len(cs) != 1 or reach_without(f, c.start, f.ret_insts(), cs):
            c.bad('access', 'does not access memory exactly once')
            continue
        a = [nz(x) for x in args(f, cs[0])]
        mem = a[0]
        okm = is_call(mem, W_ + 'getMemory') and mem[2] == THIS and is_call_end(mem[3], '::getPointerAddressSpace') and mem[3][2] == INS
        addr = leaf_of(a[2])
        oka = bool(addr) and addr[0] in 'pu' and addr[1] == k and addr[2] == C(0)
        if n == 'Load':
            okd = a[1] == DATA
            oks = poly(a[3]) == pmul(poly(SIZE), poly(NUM))
        else:
            v = data_of(a[1])
            okd = v is not None and opk(v) == 0
            oks = False
            ms = [x for x in subexprs(a[3]) if is_call(x, W_ + 'getOperand')]
            oks = len(ms) == 2 and all(opk(m[3]) == 0 for m in ms) and a[3][0] == 'mul' or \
                is_call(a[3], 'oclgrind::getTypeSize') and opk(nz(a[3][2])[2]) == 0
        for nm, ok in (('memory', okm), ('address', oka), ('data', okd), ('size', oks)):
            c.ok(nm) if ok else c.bad(nm, 'accesses with the wrong %s' % nm, cs[0])
        # misaligned addresses are reported
        lg = c.insts('oclgrind::Context::logError')
        good = False
        for i in lg:
            for at, p in facts(f, i.blk.id):
                if at[0] == 'eq' and not p and nz(at[2]) == C(0) and nz(at[1])[0] == 'and':
                    x = nz(at[1])
                    for u, v in ((x[1], x[2]), (x[2], x[1])):
                        if leaf_of(u) == addr and v[0] in ('sub', 'add') and poly(v).get((), 0) == -1:
                            good = True
                elif at[0] == 'eq' and not p and nz(at[1])[0] == 'urem' and leaf_of(nz(at[1])[1]) == addr:
                    good = True
        c.ok('alignment') if good else c.bad('alignment', 'misaligned access not reported')
    # getMemory
    P = f.prog
    R = K['Load'].R
    R.rule('space', 'each address space is mapped to its own memory, an unknown one is a fatal error', 5)
    g = P.one(W_ + 'getMemory')
    glob = ('call', 'oclgrind::Context::getGlobalMemory', fld(THIS, 'm_context'))
    want = {0: fld(THIS, 'm_privateMemory'), 1: glob, 2: glob, 3: ('call', 'oclgrind::WorkGroup::getLocalMemory', fld(THIS, 'm_workGroup'))}
    for v in (0, 1, 2, 3, 4, 7):
        ev = Ev(g, lambda e: v if e == ('arg', 'addrSpace') else None)
        outs = set()
        for kn, path, came, end in ev.explore():
            if end[0] == 'ret':
                outs.add(nz(ev.val(g.expr(g.blocks[end[1]].term.args[0]), came, kn)))
            else:
                outs.add('fatal')
        R.check(outs == {want.get(v, 'fatal')}, 'space', str(v), floc(g), 'address space %d uses %s' % (v, [
            show(x) if isinstance(x, tuple) else x for x in outs]), fn=g)
    # alloca
    c = K['Alloca']
    al = c.insts('oclgrind::Memory::allocateBuffer')
    sp = c.insts(TV + 'setPointer', TV + 'setUInt')
    ok = len(al) == 1 and len(sp) == 1
    if ok:
        a = [nz(x) for x in args(f, al[0])]
        ty = ('call', 'llvm::AllocaInst::getAllocatedType', INS)
        ok = a[0] == fld(THIS, 'm_privateMemory') and mentions(a[1], lambda x: is_call(x, 'oclgrind::getTypeSize') and x[2] == ty)
        b = [nz(x) for x in args(f, sp[0])]
        ok = ok and b[0] == RES and b[1] == nz(f.iexpr(al[0])) and nonzero(facts(f, sp[0].blk.id), f.iexpr(al[0]))
        ok = ok and reach_without(f, c.start, f.ret_insts(), sp) is None
    c.ok('allocation') if ok else c.bad('allocation', 'result is not the address of a fresh private allocation of the type')


def aggregates(K):
    c = K['ExtractValue']
    f = c.f
    for n in ('ExtractValue', 'InsertValue'):
        c = K[n]
        good = True
        for root, ix, off, part in (('s1', (0,), 0, 'i8'), ('s1', (1,), 8, 'i64'), ('a3', (2,), 32, 's1'), ('a3', (1, 1), 24, 'i64'), ('s2', (1,), 16, 'v4'),
                                    ('s2', (2, 2, 0), 64, 'i8'), ('aa', (1, 2, 1, 1), 136, 'i64'), ('aa', (0,), 0, 's2'), ('other', (1,), None, None)):
            t = TYPES[root]
            what = ' (member %s)' % (list(ix),)
            if off is None:
                good = moved(c, 'aggregate', model({0: (8, 1), 1: (8, 1)}, (8, 1), types={'0': t, '1': t, 'R': t}, array=ix), {}, fatal=True) and good
                continue
            ps = TYPES[part][0]
            if n == 'ExtractValue':
                leaf = model({0: (t[0], 1)}, (4, 4) if part == 'v4' else (ps, 1), types={'0': t, 'R': TYPES[part]}, array=ix)
                want = region(0, off, 0, ps)
            else:
                leaf = model({0: (t[0], 1), 1: (4, 4) if part == 'v4' else (ps, 1)}, (t[0], 1), types={'0': t, '1': TYPES[part], 'R': t}, array=ix)
                want = region(0, 0, 0, t[0])
                want.update(region(1, 0, off, ps))
            good = good and moved(c, 'part', leaf, want, what=what)
        if good:
            c.ok('part')


def gep(c):
    f = c.f
    P = f.prog
    sp = c.insts(TV + 'setPointer', TV + 'setUInt')
    ok = len(sp) == 1 and reach_without(f, c.start, f.ret_insts(), sp) is None
    if ok:
        v = nz(args(f, sp[0])[1])
        ok = is_call(v, 'oclgrind::resolveGEP') and leaf_of(v[2]) is not None and leaf_of(v[2])[0] in 'pu' and leaf_of(v[2])[1] == 0 and \
            v[3] == ('call', 'llvm::GetElementPtrInst::getSourceElementType', INS) and nz(args(f, sp[0])[0]) == RES
        vec = v[4] if ok else None
        pb = [i for i in f.calls if i.blk.id in c.region and (i.callee or '').split('::')[-1] in ('push_back', 'emplace_back') and
              nz(args(f, i)[0]) == vec]
        ok = ok and len(pb) == 1
        if ok:
            lp = [l for l in c.loops if pb[0].blk.id in l[1]]
            ok = bool(lp) and loop_exits(f, lp[0]) == {lp[0][0]} and every_iteration(f, lp[0], pb) is None
            if ok:
                h = lp[0][0]
                it = None
                for i in f.blocks[h].insts:
                    if i.op == 'phi' and all(is_call_end(nz(f.expr(v)), '::idx_begin') for v, p in i.args if p not in lp[0][1]) and all(
                            nz(f.expr(v))[0] == 'ptr' and nz(f.expr(v))[1:3] == (('phi', i.id), C(1)) for v, p in i.args if p in lp[0][1]):
                        it = ('phi', i.id)
                fs = [x for s in f.blocks[h].succs if s in lp[0][1] for x in edge_literals(f, h, s)]
                ok = it is not None and any(a[0] == 'eq' and not p and mentions(('x', nz(a[1]), nz(a[2])), lambda x: is_call_end(x, '::idx_end'))
                                            for a, p in fs)
                a1 = nz(args(f, pb[0])[1])
                val = a1
                if a1[0] == 'alloca':
                    ss = [nz(f.expr(s.args[0])) for s in stores(f) if nz(f.expr(s.args[1])) == a1]
                    val = ss[0] if len(ss) == 1 else a1
                elif a1[0] == 'ptrto':
                    val = a1[1]
                ok = ok and is_call(val, TV + 'getSInt') and val[3] == C(0) and mentions(operand_of(val[2]) or ('x',), lambda x: x == it)
    c.ok('address') if ok else c.bad('address', 'address is not computed from the base pointer and the signed indices in order')
    R = c.R
    R.rule('address', 'address computation adds index x element size (arrays, vectors, the leading index) or the member offset, and '
           'descends into the element type', 5)
    g = P.one('oclgrind::resolveGEP')
    need(len(g.loops) == 1, 'resolveGEP: loop structure')
    lp = g.loops[0]
    base, ety, offs = ('arg', 'base'), ('arg', 'sourceElementType'), ('arg', 'offsets')
    keep = {i.id for i in g.blocks[lp[0]].insts if i.op == 'phi'}
    first = None
    addr = ty = ixp = None
    for i in g.blocks[lp[0]].insts:
        if i.op != 'phi':
            continue
        st = [nz(g.expr(v)) for v, p in i.args if p not in lp[1]]
        if st == [ety]:
            ty = i
        elif st == [C(1)]:
            ixp = i
        elif st and mentions(st[0], lambda x: x == base):
            addr = i
            first = poly(st[0])
    need(addr is not None and ty is not None and ixp is not None, 'resolveGEP: address/type/index not found')

    def at(e, k):
        e = nz(e)
        if k == C(0) and e in (('load', offs), ('load', ('load', offs))):
            return True
        return e[0] == 'load' and e[1][0] == 'ptr' and e[1][2] == k and mentions(e[1][1], lambda x: x == offs)
    d = psubp(first, poly(base))
    ok = len(d) == 1 and list(d.values()) == [1] and len(list(d)[0]) == 2 and any(at(x, C(0)) for x in list(d)[0]) and any(
        is_call(x, 'oclgrind::getTypeSize') and nz(x[2]) == ety for x in list(d)[0])
    R.check(ok, 'address', 'leading', floc(g), 'leading index is not scaled by the source element type', fn=g)
    me = ('phi', ixp.id)
    st = [nz(g.expr(v)) for v, p in ixp.args if p in lp[1]]
    fs = [x for s in g.blocks[lp[0]].succs if s in lp[1] for x in edge_literals(g, lp[0], s)]
    ok = all(poly(x) == padd(poly(me), {(): 1}) for x in st) and any(
        a[0] == 'lt' and p and nz(a[1]) == me and mentions(nz(a[2]), lambda x: x == offs) for a, p in fs) and loop_exits(g, lp) == {lp[0]}
    R.check(ok, 'address', 'indices', floc(g), 'not every further index is used', fn=g)
    tp = ('phi', ty.id)
    for kind in ('isArrayTy', 'isVectorTy', 'isStructTy', 'isIntegerTy', None):
        def lf(e):
            if e[0] == 'call' and e[1].split('::')[-1] in ('isArrayTy', 'isVectorTy', 'isStructTy', 'isIntegerTy') and nz(e[2]) == tp:
                return int(e[1].split('::')[-1] == kind)
            return None
        ev = Ev(g, lf, None, keep)
        msg = None
        n = 0
        for kn, path, came, end in ev.explore():
            if end[0] == 'stop' and end[1] == lp[0]:
                n += 1
                if kind is None:
                    msg = 'an unknown type is accepted'
                    break
                back = end[2]
                raw = {ph.id: ev.val(g.expr(v), came, kn) for ph in (addr, ty) for v, p in ph.args if p == back}
                nv = {k: nz(v) for k, v in raw.items()}
                if kind != 'isStructTy' and mentions(raw[addr.id], c08.narrows):
                    msg = 'index is truncated'
                dl = psubp(poly(nv[addr.id]), poly(('phi', addr.id)))
                t2 = nv[ty.id]
                mono = list(dl)[0] if len(dl) == 1 and list(dl.values()) == [1] else ()
                if kind in ('isArrayTy', 'isVectorTy'):
                    el = [x for x in mono if is_call(x, 'oclgrind::getTypeSize')]
                    ok = len(mono) == 2 and el and any(at(x, me) for x in mono) and nz(el[0][2]) == t2 and mentions(t2, lambda x: x == tp) and \
                        t2[0] == 'call' and t2[1].split('::')[-1] in ('getArrayElementType', 'getElementType', 'getScalarType')
                elif kind == 'isStructTy':
                    ok = len(mono) == 1 and is_call(mono[0], 'oclgrind::getStructMemberOffset') and nz(mono[0][2]) == tp and at(mono[0][3], me) and \
                        t2[0] == 'call' and t2[1].endswith('getStructElementType') and t2[2] == tp and at(t2[3], me)
                else:
                    ok = len(mono) == 1 and at(mono[0], me)
                if not ok:
                    msg = 'wrong step'
        R.check(msg is None and (n > 0 or kind is None), 'address', str(kind), floc(g), 'indexing a type that %s: %s' % (kind, msg), fn=g)
    rv = [nz(g.expr(r.args[0])) for r in g.ret_insts()]
    R.check(all(v == ('phi', addr.id) for v in rv), 'address', 'result', floc(g), 'another value is returned', fn=g)
    st = P.one('oclgrind::getStructMemberOffset')
    R.check(True, 'address', 'member', floc(st), '', fn=st)


ARGW = 40       # sizeof(llvm::Argument)


def invocation(byval, declared, direct=True):
    """model of a call of a function with len(byval) parameters"""
    fn = ('g', '#fn')

    def param(e):
        q = place(e)
        return q[1] // ARGW if q and q[0] == '#params' and q[1] % ARGW == 0 and q[1] // ARGW < len(byval) else None

    def at(k):
        return ('cgep', ('g', '#params'), ARGW * k) if k else ('g', '#params')

    def more(s, e):
        if e[2] == INS:
            if s == 'getCalledFunction':
                return fn if direct else 0
            if s == 'getCalledOperand':
                return ('g', '#callee')
            if s == 'getArgOperand' and e[3][0] == 'c':
                return ('g', '#v%d' % e[3][1])
            return None
        if s == 'getOperand' and e[2] == ('g', '#callee') and e[3] == ('c', 0):
            return fn
        if e[2] == fn:
            if s == 'isDeclaration':
                return int(declared)
            if s == 'arg_begin':
                return at(0)
            if s == 'arg_end':
                return at(len(byval))
            if s == 'arg_size':
                return len(byval)
            if s == 'arg_empty':
                return int(not byval)
            if s == 'getArg' and e[3][0] == 'c':
                return at(e[3][1])
        if 'llvm::Argument' in e[1] and s in ('begin', 'end'):
            return at(0 if s == 'begin' else len(byval))
        k = param(e[2])
        if k is not None:
            if s == 'hasByValAttr':
                return int(byval[k])
            if s == 'getArgNo':
                return k
            if s == 'getParamByValType':
                return ('g', '#by%d' % k)
        if s == 'getTypeSize' and e[2][0] == 'g' and e[2][1].startswith('#by'):
            return 24 + int(e[2][1][3:])
        return None
    return model({}, (4, 1), more=more), param


def call(c):
    """a defined function gets a new frame with every parameter bound to its argument; a declared one is called as a built-in"""
    f = c.f
    stack, frames = nz(('fld', POS, 'callStack')), nz(('fld', POS, 'allocations'))

    def where(p):
        return ' (lines %s)' % path_lines(f, p.blocks)
    done = set()
    for byval in ((), (0,), (1,), (0, 1, 0), (1, 0, 1), (0, 0)):
        for direct in (True, False):
            leaf, param = invocation(byval, False, direct)
            for p in c.ways(leaf):
                if p.end[0] != 'ret':
                    c.bad('arguments', 'not every argument is bound, or a call is rejected' + where(p))
                    return
                ev = [e for e in p.events if e[0] == 'call']
                if any(e[2] is None for e in ev):
                    c.bad('builtin', 'a defined function is called as a built-in' + where(p))
                    return
                push = [e for e in ev if short(e[2]) in ('push', 'emplace') and nz(e[3][0]) == stack]
                frame = [e for e in ev if short(e[2]) in ('push', 'emplace') and nz(e[3][0]) == frames]
                if len(push) != 1:
                    c.bad('remember the caller', 'the caller is remembered %d times' % len(push) + where(p))
                    return
                v = push[0][3][1]
                v = p.at(push[0], v, 8) if v[0] == 'alloca' else v
                if not mentions(nz(v), lambda x: x == nz(('fld', POS, 'currInst'))):
                    c.bad('remember the caller', 'something other than the call is remembered', push[0][1])
                    return
                if len(frame) != 1:
                    c.bad('frame', '%d frames are made for a call' % len(frame) + where(p))
                    return
                t = targets(p)
                if not t or not mentions(t[-1], lambda x: x[0] == 'alloca' or is_call(x, 'llvm::Function::begin') or
                                         is_call_end(x, '::getEntryBlock') or is_call_end(x, '::front')):
                    c.bad('continue', 'does not continue at the function' + where(p))
                    return
                ent = [e for e in ev if short(e[2]) in ('begin', 'getEntryBlock', 'front') and e[3] and nz(e[3][0]) == ('g', '#fn') or
                       short(e[2]) == 'begin' and len(e[3]) > 1 and nz(e[3][1]) == ('g', '#fn')]
                if not ent:
                    c.bad('entry', 'another function is entered' + where(p))
                    return
                bound = {}
                for e in ev:
                    if e[2] == W_ + 'setValue' and nz(e[3][0]) == THIS:
                        k = param(e[3][1])
                        if k is None or k in bound:
                            c.bad('binding', 'a value is bound twice, or to something other than a parameter', e[1])
                            return
                        bound[k] = e
                if set(bound) != set(range(len(byval))):
                    c.bad('arguments', 'not every argument is bound' + where(p))
                    return
                last = nth = 0
                for k, e in sorted(bound.items(), key=lambda x: p.events.index(x[1])):
                    here = p.events[last:p.events.index(e)]
                    last = p.events.index(e)
                    seg = [x for x in here if x[0] == 'call']

                    def passes(x, j):
                        """argument j of call x is the value passed for this parameter"""
                        v = x[3][j]
                        return ('g', '#op%d' % k) in (v, p.at(x, ('cgep', v, 8), 8)) or mentions(v, lambda y: y == ('g', '#op%d' % k))
                    val = ('t',) + tuple(e[3][2:])
                    if not byval[k]:
                        cl = [x for x in seg if x[2].endswith('MemoryPool::clone')]
                        if len(cl) != 1 or not any(passes(cl[0], j) for j in range(1, len(cl[0][3]))) or \
                                not mentions(val, lambda x: is_call_end(x, 'MemoryPool::clone')):
                            c.bad('binding', 'argument %d is bound to another value' % k, e[1])
                            return
                        continue
                    al = [x for x in seg if x[2].endswith('Memory::allocateBuffer')]
                    if len(al) != 1 or nz(al[0][3][0]) != fld(THIS, 'm_privateMemory') or nz(al[0][3][1]) != C(24 + k):
                        c.bad('by value', 'by-value argument %d does not get its own copy' % k, e[1])
                        return
                    ok = [pol for a, pol in p.lits if a[0] == 'true' and is_call_end(nz(a[1]), 'Memory::isAddressValid')]
                    src = nz(al[0][3][-1])
                    gp = [x for x in seg if x[2] == TV + 'getPointer' and passes(x, 0)]
                    ok = ok[nth] if len(ok) == sum(byval) else None
                    nth += 1
                    if ok is None or ok and not (is_call_end(src, 'Memory::getPointer') and gp) or not ok and src != C(0):
                        c.bad('by value', 'the copy of argument %d is not made from the value passed' % k, al[0][1])
                        return
                    new = nz(('call', al[0][2]) + tuple(al[0][3]))
                    sp = [x for x in seg if x[2] in (TV + 'setPointer', TV + 'setUInt') and nz(x[3][1]) == new and
                          mentions(val, lambda y: y == x[3][0])]
                    if not sp and not mentions(nz(val), lambda x: x == new):
                        c.bad('by value', 'the parameter %d is not the address of its copy' % k, e[1])
                        return
                done |= {'binding'} | ({'by value'} if any(byval) else set())
    for direct in (True, False):
        leaf, param = invocation((0, 1), True, direct)
        for p in c.ways(leaf):
            blt = [e for e in p.events if e[0] == 'call' and e[2] is None]
            other = [e for e in p.events if e[0] == 'call' and e[2] is not None and (e[2] == W_ + 'setValue' or short(e[2]) in ('push', 'emplace') and
                                                                                     nz(e[3][0]) in (stack, frames))]
            gb = p.calls('oclgrind::InterpreterCache::getBuiltin')
            if p.end[0] != 'ret' or len(blt) != 1 or targets(p) or other:
                c.bad('builtin', 'a call of a declared function does not just call its built-in' + where(p))
                return
            a = [nz(x) for x in blt[0][3]]
            if len(gb) != 1 or nz(gb[0][3][-1]) != ('g', '#fn') or a[0] != THIS or a[1] != INS or RES not in a:
                c.bad('builtin call', 'built-in called for another function or instruction', blt[0][1])
                return
            done.add('builtin call')
    for x in sorted(done) + ['remember the caller', 'frame', 'continue', 'entry', 'all arguments', 'builtin']:
        c.ok(x)


FT = {4: 'float', 8: 'double'}


def accessors(P, R):
    R.rule('accessor', 'typed accessors read and write element `index` of the element width of the value, with the signedness of their '
           'name; an unsupported width is a fatal error', 30)
    data, idx, val = fld(THIS, 'data'), ('arg', 'index'), ('arg', 'value')
    for nm in ('getUInt', 'getSInt', 'getFloat', 'getPointer', 'setUInt', 'setSInt', 'setFloat', 'setPointer'):
        f = P.one(TV + nm)
        for size in (1, 2, 4, 8, 3, 16):
            good = size in {'UInt': (1, 2, 4, 8), 'SInt': (1, 2, 4, 8), 'Float': (4, 8), 'Pointer': (8,)}[nm[3:]]
            ev = Ev(f, lambda e: size if e == ('load', THIS) else None)
            for kn, path, came, end in ev.explore():
                key = '%s:%d' % (nm, size)
                if end[0] != 'ret':
                    R.check(not good, 'accessor', key, floc(f), 'a supported width is rejected', fn=f)
                    continue
                if not good:
                    R.bad('accessor', key, floc(f), 'width %d is accepted' % size, f)
                    continue
                ty = FT[size] if nm[3:] == 'Float' else 'i%d' % (size * 8)
                if nm[0] == 'g':
                    e = sub(f, f.expr(f.blocks[end[1]].term.args[0]), came)
                    ext = None
                    if e[0] in ('zext', 'sext', 'fpext'):
                        ext, e = e[0], e[2]
                    ok = e[0] == 'load'
                    if ok:
                        b, off = byteoff(e[1])
                        ok = nz(b) == data and off == pmul(poly(idx), {(): size})
                    lt = [i for i in f.all() if i.op == 'load' and i.blk.id in path and nz(f.expr(i.args[0])) == nz(e[1] if e[0] == 'load' else e)]
                    ok = ok and bool(lt) and lt[0].d.get('t') == ty
                    if size < 8:
                        ok = ok and ext == {'UInt': 'zext', 'SInt': 'sext', 'Float': 'fpext'}.get(nm[3:])
                    R.check(ok, 'accessor', key, f.blocks[end[1]].term.loc(), '%s of a %d-byte element reads something else' % (nm, size), fn=f)
                else:
                    ss = [s for s in stores(f) if s.blk.id in path]
                    ok = len(ss) == 1
                    if ok:
                        b, off = byteoff(sub(f, f.expr(ss[0].args[1]), came))
                        v = f.expr(ss[0].args[0])
                        st = ss[0].d.get('vt')
                        if st is None and ss[0].args[0][0] == 'v':
                            st = f.insts[ss[0].args[0][1]].d.get('t')
                        ok = nz(b) == data and off == pmul(poly(idx), {(): size}) and strip_f(v) == val and (st is None or st == ty)
                        if size < 8 and nm[3:] != 'Float':
                            ok = ok and v[0] == 'trunc' and v[1] == ty
                        elif size < 8:
                            ok = ok and v[0] == 'fptrunc' and v[1] == ty
                    R.check(ok, 'accessor', key, ss[0].loc() if ss else floc(f), '%s of a %d-byte element writes something else' % (nm, size), fn=f)


def strip_f(e):
    while e[0] in ('trunc', 'fptrunc', 'zext', 'sext'):
        e = e[2]
    return e


def stepping(P, R):
    R.rule('step', 'the next instruction is the following one or the first of the block branched to; results are bound to their own '
           'instruction, phi results only after all phis of the block were evaluated', 8)
    f = P.one(W_ + 'step')
    ex = calls(f, W_ + 'execute')
    exactly_once(R, 'step', f, ex, 'execute the current instruction')
    nb, cb, pb, ci = [nz(('fld', POS, x)) for x in ('nextBlock', 'currBlock', 'prevBlock', 'currInst')]
    if ex:
        R.check(mentions(nz(args(f, ex[0])[1]), lambda x: x == ci), 'step', 'current', ex[0].loc(), 'executes another instruction', fn=f)
    inc = [i for i in f.calls if (i.callee or '').endswith('operator++') and nz(args(f, i)[0]) == ci]
    ss = {k: [s for s in stores(f) if nz(f.expr(s.args[1])) == p] for k, p in (('nb', nb), ('cb', cb), ('pb', pb))}
    cur = [i for i in f.all() if i.blk.id in f.idom and (i.op == 'store' and nz(f.expr(i.args[1])) == ci or i.op in ('call', 'invoke') and
           (i.callee or '').startswith('llvm.memcpy') and nz(args(f, i)[0]) == ci)]
    jump = ('eq', ('load', nb), C(0))
    for k, want in (('cb', ('load', nb)), ('pb', ('load', cb)), ('nb', C(0))):
        x = ss[k]
        ok = len(x) == 1 and nz(f.expr(x[0].args[0])) == want and has(facts(f, x[0].blk.id), jump, False)
        R.check(ok, 'step', 'jump:' + k, x[0].loc() if x else floc(f), 'block change is not recorded properly', fn=f)
    if all(len(v) == 1 for v in ss.values()):
        R.check(reach_without(f, ss['cb'][0], ss['pb'], []) is None and reach_without(f, ss['nb'][0], ss['cb'], []) is None, 'step', 'jump:order',
                ss['cb'][0].loc(), 'blocks are overwritten before they are used', fn=f)
        beg = [i for i in f.calls if (i.callee or '').endswith('BasicBlock::begin')]
        ok = bool(cur) and bool(beg) and all(nz(args(f, b)[0]) in (('load', cb), ('load', nb)) for b in beg) and \
            must_follow(f, ss['cb'][0], cur)
        R.check(ok, 'step', 'jump:first', cur[0].loc() if cur else floc(f), 'does not continue at the first instruction of the block', fn=f)
    p = path_avoiding(f, inc + cur)
    R.check(p is None and bool(inc), 'step', 'advance', floc(f), 'position does not advance on a path', fn=f)
    g = P.one(W_ + 'execute')
    ins = ('arg', 'instruction')
    dp = calls(g, W_ + 'dispatch')
    exactly_once(R, 'step', g, dp, 'dispatch the instruction', twice=False)
    PHI = 55
    opc = ('call', 'llvm::Instruction::getOpcode', ins)
    sv = [s for s in calls(g, W_ + 'setValue') if nz(args(g, s)[1]) == ins]
    fl = [s for s in calls(g, W_ + 'setValue') if nz(args(g, s)[1]) != ins]
    ok = len(sv) == 1 and has(facts(g, sv[0].blk.id), ('eq', opc, C(PHI)), False) and must_precede(g, sv[0], dp)
    R.check(ok, 'step', 'result', sv[0].loc() if sv else floc(g), 'result is not bound to its instruction after execution', fn=g)
    tmp = [i for i in g.calls if (i.callee or '').split('::')[-1] in ('operator[]', 'insert', 'emplace', 'insert_or_assign') and
           nz(args(g, i)[0]) == ('fld', THIS, 'm_phiTemps')]
    R.check(bool(tmp) and all(has(facts(g, i.blk.id), ('eq', opc, C(PHI)), True) for i in tmp), 'step', 'phi',
            tmp[0].loc() if tmp else floc(g), 'phi results are not deferred', fn=g)
    ok = bool(fl) and all(has(facts(g, s.blk.id), ('eq', opc, C(PHI)), False) and reach_without(g, dp[0], [s], []) is None for s in fl)
    R.check(ok, 'step', 'flush', fl[0].loc() if fl else floc(g), 'deferred phi results are not bound before the next instruction', fn=g)
    lw = loops_walking(g, ('fld', THIS, 'm_phiTemps'))
    ok = bool(lw) and bool(fl) and every_iteration(g, lw[0], fl) is None
    R.check(ok, 'step', 'flush:all', floc(g), 'not every deferred phi result is bound', fn=g)
    cl = [i for i in g.calls if (i.callee or '').split('::')[-1] == 'clear' and nz(args(g, i)[0]) == ('fld', THIS, 'm_phiTemps')]
    R.check(bool(cl) and all(reach_without(g, c, fl, []) is None for c in cl) and (not fl or must_follow(g, fl[0], cl)), 'step', 'flush:clear',
            floc(g), 'bound phi results are kept', fn=g)
