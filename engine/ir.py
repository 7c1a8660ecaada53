"""Program model over the JSON facts written by tool/irdump.

Everything here is a static view: functions, control-flow graphs, dominators and
canonical expression trees.  Nothing executes or symbolically runs the program.
"""
import json
import re
from functools import lru_cache


class Inst:
    __slots__ = ('fn', 'id', 'blk', 'pos', 'op', 'd')

    def __init__(self, fn, blk, pos, d):
        self.fn, self.blk, self.pos, self.d = fn, blk, pos, d
        self.id, self.op = d['i'], d['o']

    @property
    def line(self):
        return self.d.get('l', self.fn.line)

    @property
    def args(self):
        return self.d.get('a', [])

    @property
    def callee(self):
        """Qualified name of what a call may reach (virtual calls are resolved
        to Class::method); None for an unresolved indirect call."""
        if self.op not in ('call', 'invoke'):
            return None
        if 'vc' in self.d:
            return self.d['vc']
        if 'c' in self.d:
            return self.fn.prog.qual(self.d['c'])
        return None

    @property
    def callee_link(self):
        return self.d.get('c')

    def loc(self):
        return '%s:%s' % (self.fn.relfile(self.d.get('lf')), self.line)

    def __repr__(self):
        return '<%s#%d %s>' % (self.fn.qual, self.id, self.op)


class Block:
    __slots__ = ('fn', 'id', 'insts', 'succs', 'preds')

    def __init__(self, fn, i):
        self.fn, self.id, self.insts, self.succs, self.preds = fn, i, [], [], []

    @property
    def term(self):
        return self.insts[-1]


def distance(x, y):
    """bytes from address y to address x, when x is y moved by an index"""
    def mul(n, w):
        return n if w == 1 else ('c', n[1] * w) if n[0] == 'c' else ('mul', ('c', w), n)
    if x[0] in ('ptr', 'idx') and len(x) == 4 and x[3]:
        if x[1] == y:
            return mul(x[2], x[3])
    if x[0] == 'cgep' and x[1] == y:
        return ('c', x[2])
    return None


class Fn:
    def __init__(self, prog, d, tu):
        self.prog, self.d, self.tu = prog, d, tu
        self.name, self.qual, self.file, self.line = d['name'], d['qual'], d['file'], d['line']
        self.params = d['params']
        self.blocks = []
        self.insts = {}
        for bi, bl in enumerate(d['blocks']):
            b = Block(self, bi)
            for p, e in enumerate(bl):
                i = Inst(self, b, p, e)
                b.insts.append(i)
                self.insts[i.id] = i
            self.blocks.append(b)
        for b in self.blocks:
            b.succs = list(b.term.d.get('s', []))
            for s in b.succs:
                self.blocks[s].preds.append(b.id)
        self._dom = self._pdom = None
        self._ex, self._open, self._low = {}, {}, 1 << 30
        self._uses = None

    # -- naming
    def relfile(self, f=None):
        f = f or self.file
        i = f.find('/src/')
        return f[i + 1:] if i >= 0 else f

    def __repr__(self):
        return '<Fn %s>' % self.qual

    @property
    def short(self):
        return self.qual.split('::')[-1]

    @property
    def calls(self):
        return [i for i in self.all() if i.op in ('call', 'invoke')]

    def all(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    def calls_to(self, *names):
        r = []
        for i in self.calls:
            c = i.callee
            if c is None:
                continue
            for n in names:
                if c == n or c.endswith('::' + n):
                    r.append(i)
                    break
        return r

    def param_index(self, name):
        for k, p in enumerate(self.params):
            if p.get('dn', p['n']) == name or p['n'] == name:
                return k
        return None

    def param_type(self, k):
        return self.params[k].get('dt', self.params[k]['t'])

    @property
    def uses(self):
        if self._uses is None:
            u = {}
            for i in self.all():
                for o in i.operands():
                    if o and o[0] == 'v':
                        u.setdefault(o[1], []).append(i)
            self._uses = u
        return self._uses

    # -- dominators
    def _domtree(self, nodes, preds, root):
        order, seen = [], set()
        succ = {}
        for n in nodes:
            for p in preds[n]:
                succ.setdefault(p, []).append(n)
        stack = [(root, iter(succ.get(root, [])))]
        seen.add(root)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ.get(s, []))))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        num = {n: k for k, n in enumerate(order)}
        idom = {root: root}
        ch = True
        while ch:
            ch = False
            for n in order:
                if n == root:
                    continue
                new = None
                for p in preds[n]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while num[a] > num[b]:
                                    a = idom[a]
                                while num[b] > num[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(n) != new:
                    idom[n] = new
                    ch = True
        return idom

    @property
    def idom(self):
        if self._dom is None:
            self._dom = self._domtree([b.id for b in self.blocks],
                                      {b.id: b.preds for b in self.blocks}, 0)
        return self._dom

    def dominates_block(self, a, b):
        """block a dominates block b (reflexive)"""
        idom = self.idom
        if b not in idom:
            return True     # unreachable
        while True:
            if a == b:
                return True
            n = idom[b]
            if n == b:
                return False
            b = n

    def dominates(self, i, j):
        if i.blk is j.blk:
            return i.pos < j.pos
        return self.dominates_block(i.blk.id, j.blk.id)

    def reachable_from(self, bid, avoid=()):
        seen, st = set(), [bid]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st.extend(self.blocks[b].succs)
        return seen

    @property
    def loops(self):
        """list of (header, set of blocks)"""
        if not hasattr(self, '_loops'):
            r = {}
            for b in self.blocks:
                for s in b.succs:
                    if b.id in self.idom and self.dominates_block(s, b.id):
                        body = {s}
                        st = [b.id]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(self.blocks[x].preds)
                        r.setdefault(s, set()).update(body)
            self._loops = sorted(r.items(), key=lambda x: len(x[1]))
        return self._loops

    def loop_of(self, bid):
        for h, body in self.loops:
            if bid in body:
                return h, body
        return None

    def error_exit(self, bid):
        """block ends in unreachable (throw / abort)"""
        return self.blocks[bid].term.op in ('unreachable', 'resume')

    def ret_insts(self):
        return [b.term for b in self.blocks if b.term.op == 'ret']

    # -- expressions
    def expr(self, o, depth=0):
        k = o[0]
        if k == 'v':
            i = self.insts.get(o[1])
            return self.iexpr(i)
        if k == 'a':
            return ('arg', self.params[o[1]].get('dn') or self.params[o[1]]['n'] or 'arg%d' % o[1])
        if k == 'c':
            return ('c', o[1])
        if k == 'null':
            return ('c', 0)
        if k == 's':
            return ('s', o[1])
        if k == 'f':
            return ('f', float(o[1]) if o[1] not in ('+Inf', '-Inf', 'NaN') else o[1])
        if k == 'g':
            return ('g', o[1])
        if k == 'fn':
            return ('fn', self.prog.qual(o[1]))
        if k == 'cgep':
            return ('cgep', self.expr(o[1]), o[2])
        if k == 'ce':
            return ('ce', o[1]) + tuple(self.expr(x) for x in o[2:])
        return tuple(_freeze(o))

    def iexpr(self, i):
        e = self._ex.get(i.id)
        if e is None:
            d = len(self._open)
            self._open[i.id] = d
            self._ex[i.id] = ('rec', i.id)
            low, self._low = self._low, 1 << 30
            e = self._iexpr(i)
            del self._open[i.id]
            if self._low < d:
                del self._ex[i.id]      # depends on an enclosing evaluation: not the value on its own
            else:
                self._ex[i.id] = e
            self._low = min(low, self._low if self._low < d else 1 << 30)
        elif e[0] == 'rec' and i.id in self._open:
            self._low = min(self._low, self._open[i.id])
        return e

    def _iexpr(self, i):
        op, a = i.op, i.args
        if op == 'gep':
            return self._gep(i)
        if op == 'load':
            if a[0][0] == 'v':
                al = self.insts.get(a[0][1])
                if al is not None and al.op == 'alloca':
                    r = self.alloca_value(al)
                    if r is not None and r[0] == 'value':
                        return r[1]
            p = self.expr(a[0])
            return ('load', p)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast'):
            x = self.expr(a[0])
            if op in ('zext', 'sext', 'trunc'):
                if x[0] == 'c' and op != 'trunc':
                    return x
                return (op, i.d['t'], x)
            return x
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            return (op, i.d['t'], self.expr(a[0]))
        if op in ('add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul'):
            x, y = self.expr(a[0]), self.expr(a[1])
            if x[0] == 'c' or (y[0] != 'c' and repr(y) < repr(x)):
                x, y = y, x
            return (op, x, y)
        if op in ('icmp', 'fcmp'):
            x, y = self.expr(a[0]), self.expr(a[1])
            return (op, i.d['p'], x, y)
        if op == 'sub' and i.d.get('t') == 'i64':
            x, y = self.expr(a[0]), self.expr(a[1])
            return distance(x, y) or ('sub', x, y)
        if op == 'select':
            return ('select',) + tuple(self.expr(x) for x in a)
        if op == 'phi':
            vals = {tuple(_freeze(x[0])) for x in a}
            return ('phi', i.id)
        if op in ('call', 'invoke'):
            c = i.callee
            args = tuple(self.expr(x) for x in a)
            if c is None:
                return ('icall', self.expr(i.d['cv']) if 'cv' in i.d else None) + args
            return ('call', c) + args
        if op == 'alloca':
            r = self.alloca_value(i)
            if r is not None and r[0] == 'ptrto':
                return r
            if r is not None and r[0] == 'copyof':
                return r[1]
            return ('alloca', i.id)
        if op == 'extractvalue':
            return ('xv', tuple(i.d['x']), self.expr(a[0]))
        return (op,) + tuple(self.expr(x) if x and isinstance(x, list) else x for x in a)

    READERS = re.compile(r'operator<<|^std::(min|max)<|::find$|::count$|::operator\[\]$|::push_back$|::push$|'
                         r'::insert$|::at$|::emplace|::lower_bound$|::erase$|::TypedValue::get|::isSet$|'
                         r'::getPointer$|operator==|operator!=|::lookup$')
    CTORS = re.compile(r'(Size3::Size3|::basic_string(<[^:]*>)?|StringRef::StringRef)$')

    def alloca_value(self, al):
        """What a never-reassigned local holds: ('value', e) for a scalar stored
        once, ('ptrto', e) for an aggregate that is a plain copy of value e,
        ('copyof', p) for one memcpy'd from pointer p; None otherwise."""
        if not hasattr(self, '_al'):
            self._al = {}
        if al.id in self._al:
            return self._al[al.id]
        self._al[al.id] = None
        stores, memcpys, srets, other, ctors = [], [], [], [], []
        st = [(al, True)]
        seen = set()
        while st:
            x, whole = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            for u in self.uses.get(x.id, []):
                if u.op == 'gep':
                    st.append((u, False))
                elif u.op == 'store':
                    if u.args[1] == ['v', x.id]:
                        stores.append((u, whole))
                    else:
                        other.append(u)
                elif u.op in ('call', 'invoke'):
                    c = u.callee or ''
                    if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
                        if u.args[0] == ['v', x.id]:
                            memcpys.append((u, whole))
                    elif 'sret' in u.d and u.args[u.d['sret']] == ['v', x.id]:
                        srets.append(u)
                    elif c.startswith('llvm.'):
                        other.append(u)
                    elif u.args and u.args[0] == ['v', x.id] and whole and self.CTORS.search(c):
                        ctors.append(u)
                    elif self.READERS.search(c):
                        pass
                    else:
                        other.append(u)
                elif u.op in ('load', 'icmp'):
                    pass
                else:
                    other.append(u)
        r = None
        ncalls = [o for o in other if o.op in ('call', 'invoke')]
        bad = [o for o in other if o.op not in ('call', 'invoke') or not self._reads_only(o, al)]
        if len(stores) == 1 and stores[0][1] and not memcpys and not srets and not ctors and not bad:
            v = self.expr(stores[0][0].args[0])
            r = ('value', v)
        elif stores and not memcpys and not srets and not ctors and not bad:
            xs = set()
            for u, _ in stores:
                v = self.expr(u.args[0])
                xs.add(v[2] if v[0] == 'xv' else None)
            if len(xs) == 1 and None not in xs:
                r = ('ptrto', xs.pop())
        elif len(memcpys) == 1 and not stores and not srets and not ctors and not bad:
            u, whole = memcpys[0]
            if whole:
                r = ('copyof', self.expr(u.args[1]))
        elif len(srets) == 1 and not stores and not memcpys and not ctors and not bad:
            u = srets[0]
            a = tuple(self.expr(x) for k, x in enumerate(u.args) if k != u.d['sret'])
            r = ('ptrto', ('call', u.callee) + a)
        elif len(ctors) == 1 and not stores and not memcpys and not srets and not bad:
            u = ctors[0]
            r = ('ptrto', ('new', u.callee) + tuple(self.expr(x) for x in u.args[1:]))
        self._al[al.id] = r
        return r

    def _reads_only(self, call, al):
        """the callee cannot modify the object: its parameter is by value, a
        const reference, or the call is to a const-like accessor"""
        c = call.d.get('c')
        f = self.prog.fns.get(c) if c else None
        name = call.callee or ''
        if name.split('::')[-1].startswith('~'):
            return True
        if name.endswith('::clone') or '::get' in name:
            return True
        k = None
        for n, a in enumerate(call.args):
            if a == ['v', al.id]:
                k = n
        if k is None:
            return False
        if f is not None:
            t = f.params[k].get('dt', '') if k < len(f.params) else ''
            return '&' not in t and '*' not in t or t.startswith('const ')
        sig = call.d.get('pt')
        return False

    def _gep(self, i):
        e = self.expr(i.args[0])
        for p in i.d['p']:
            if p[0] == 'f':
                e = ('fld', e, p[1])
            elif p[0] == 'i':
                e = ('idx', e, self.expr(p[1]), p[2])
            elif p[0] == 'p':
                e = ('ptr', e, self.expr(p[1]), p[2])
            else:
                e = ('?', e)
        return e

    # -- control conditions
    def edge_cond(self, b, s):
        """Condition literal (expr, polarity) or ('switch', expr, values) taken
        on edge b->s, None when unconditional/ambiguous."""
        t = self.blocks[b].term
        if t.op == 'br' and t.args:
            ss = t.d['s']
            if ss[0] == ss[1]:
                return None
            return ('br', t.args[0], s == ss[0])
        if t.op == 'switch':
            vals = [v for v, x in t.d['cases'] if x == s]
            if s == t.d['default']:
                others = [v for v, x in t.d['cases'] if x != s]
                return ('swdef', t.args[0], others)
            return ('sw', t.args[0], vals)
        return None

    def guards(self, bid):
        """Condition literals that hold whenever block bid is entered: for every
        dominating edge (edge b->s such that every path to bid takes it)."""
        if not hasattr(self, '_guards'):
            self._guards = {}
        if bid in self._guards:
            return self._guards[bid]
        r = []
        n = bid
        chain = []
        while True:
            chain.append(n)
            p = self.idom.get(n, n)
            if p == n:
                break
            n = p
        for n in chain:
            preds = [p for p in self.blocks[n].preds if p in self.idom]
            # a single entry edge (ignoring back edges dominated by n)
            ps = [p for p in preds if not self.dominates_block(n, p)]
            if len(ps) == 1:
                c = self.edge_cond(ps[0], n)
                if c:
                    r.append((ps[0], n, c))
            elif len(set(ps)) > 1:
                # merge of several edges: each may carry the same switch
                srcs = set(ps)
                if len(srcs) == 1:
                    pass
        self._guards[bid] = r
        return r


def _freeze(x):
    if isinstance(x, list):
        return tuple(_freeze(y) for y in x)
    return x


def _ops(self):
    out = []
    if self.op == 'phi':
        out += [x[0] for x in self.args]
    elif self.op == 'gep':
        out += self.args
        for p in self.d['p']:
            if p[0] in ('i', 'p'):
                out.append(p[1])
    else:
        out += self.args
        if 'cv' in self.d:
            out.append(self.d['cv'])
    return out


Inst.operands = _ops


class Program:
    def __init__(self):
        self.fns = {}       # mangled -> Fn
        self.inlined = {}   # new helper functions, present at their callers
        self.by_qual = {}   # qual -> [Fn]
        self.globals = {}
        self.records = {}
        self.enums = {}
        self.new = []
        self.tus = []

    def add(self, data, tu):
        self.tus.append(tu)
        for d in data['functions']:
            if d.get('inlined'):
                self.inlined[d['name']] = Fn(self, d, tu)
                continue
            if d['name'] in self.fns and not d.get('internal'):
                continue
            f = Fn(self, d, tu)
            key = d['name'] if d['name'] not in self.fns else d['name'] + '@' + tu
            self.fns[key] = f
            self.by_qual.setdefault(f.qual, []).append(f)
        for k, v in data['globals'].items():
            self.globals.setdefault(k, v)
        self.records.update({k: v for k, v in data['records'].items() if k not in self.records})
        self.enums.update(data['enums'])
        self.new += data['new']

    @lru_cache(maxsize=None)
    def qual(self, mangled):
        f = self.fns.get(mangled)
        if f:
            return f.qual
        return demangle_name(mangled)

    def get(self, qual):
        """the functions with this (suffix of a) qualified name"""
        if qual in self.by_qual:
            return self.by_qual[qual]
        return [f for q, fs in self.by_qual.items() if q.endswith('::' + qual) for f in fs]

    def one(self, qual):
        r = self.get(qual)
        if len(r) != 1:
            raise Broken('anchor %s: %d definitions found' % (qual, len(r)))
        return r[0]


class Broken(Exception):
    """analysis broken: an anchor vanished or a rule matched too few instances"""


_dem = {}


def load_demangler(names):
    import subprocess
    todo = [n for n in names if n.startswith('_Z') and n not in _dem]
    if todo:
        out = subprocess.run(['c++filt', '-p'], input='\n'.join(todo), text=True,
                             capture_output=True).stdout.split('\n')
        for n, d in zip(todo, out):
            _dem[n] = d


def demangle_name(n):
    return _dem.get(n, n)


# ------------------------------------------------------------ printing
def show(e, fn=None, d=0):
    if not isinstance(e, tuple) or not e:
        return str(e)
    k = e[0]
    if d > 12:
        return '...'
    s = lambda x: show(x, fn, d + 1)
    if k == 'c':
        return str(e[1])
    if k == 's':
        return json.dumps(e[1])
    if k == 'arg':
        return e[1]
    if k == 'fld':
        return '&%s->%s' % (s(e[1]), e[2])
    if k == 'load':
        x = e[1]
        if x[0] == 'fld':
            return '%s->%s' % (s(x[1]), x[2])
        if x[0] == 'idx':
            return '%s[%s]' % (s(x[1]).lstrip('&'), s(x[2]))
        if x[0] == 'ptr':
            return '%s[%s]' % (s(x[1]), s(x[2]))
        return '*%s' % s(x)
    if k == 'idx':
        return '&%s[%s]' % (s(e[1]).lstrip('&'), s(e[2]))
    if k == 'ptr':
        return '(%s + %s*%d)' % (s(e[1]), s(e[2]), e[3])
    if k == 'call':
        return '%s(%s)' % (e[1], ', '.join(s(x) for x in e[2:]))
    if k == 'icmp' or k == 'fcmp':
        return '(%s %s %s)' % (s(e[2]), e[1], s(e[3]))
    if k in ('phi', 'alloca', 'rec'):
        n = ''
        if fn is not None:
            i = fn.insts.get(e[1])
            if i is not None:
                n = i.d.get('dn') or i.d.get('n', '')
        return '%s%%%d(%s)' % (k, e[1], n)
    if k in ('zext', 'sext', 'trunc'):
        return '%s<%s>(%s)' % (k, e[1], s(e[2]))
    if k in ('add', 'mul', 'and', 'or', 'xor', 'sub', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
        return '(%s %s %s)' % (s(e[1]), k, s(e[2]))
    return '%s(%s)' % (k, ', '.join(s(x) for x in e[1:]))


def dump(fn, out=print):
    out('== %s  [%s:%s] params=%s' % (fn.qual, fn.relfile(), fn.line,
                                      [(p.get('dn') or p['n'], p.get('dt')) for p in fn.params]))
    for b in fn.blocks:
        out(' B%d: preds=%s' % (b.id, b.preds))
        for i in b.insts:
            if i.op in ('gep', 'load', 'icmp', 'zext', 'sext', 'trunc', 'add', 'sub', 'mul', 'alloca', 'and', 'or', 'shl') and i.op != 'alloca':
                continue
            if i.op == 'store':
                out('   %d@%s: *%s = %s' % (i.id, i.line, show(fn.expr(i.args[1]), fn), show(fn.expr(i.args[0]), fn)))
            elif i.op == 'phi':
                out('   %d phi(%s) %s' % (i.id, i.d.get('n'), [(show(fn.expr(x[0]), fn), 'B%d' % x[1]) for x in i.args]))
            elif i.op == 'br':
                out('   %d@%s br %s -> %s' % (i.id, i.line, show(fn.expr(i.args[0]), fn) if i.args else '', i.d['s']))
            elif i.op == 'switch':
                out('   %d@%s switch %s %s default %s' % (i.id, i.line, show(fn.expr(i.args[0]), fn), i.d['cases'], i.d['default']))
            else:
                out('   %d@%s %s' % (i.id, i.line, show(fn.iexpr(i), fn) if i.op != 'ret' else 'ret ' + ', '.join(show(fn.expr(x), fn) for x in i.args)))
