"""C12: the name table is read out of the initialiser's IR and every documented name is resolved through it the way
addBuiltin resolves it; the implementation and selector found are compared with an oracle derived from the OpenCL name.
Selector helpers are compared with the formula of their name, lane-wise drivers with the lane-wise application, and the
lookup and the call are followed path by path."""
from common import *
from flow import Flow

TECHNIQUE = 'table extraction from the IR with symbolic name resolution; path-wise rules over lookup, dispatch and lane drivers'
TUS = ['WorkItemBuiltins', 'WorkItem']
B = 'oclgrind::WorkItemBuiltins::'

F1 = 'acos acosh asin asinh atan atanh cbrt ceil cos cosh erfc erf exp exp2 expm1 fabs floor lgamma log log2 log10 log1p logb rint ' \
     'round sin sinh sqrt tan tanh tgamma trunc'.split()
F2 = 'atan2 copysign fdim fmod hypot pow remainder'.split()
H1 = {'acospi': 'acospi', 'asinpi': 'asinpi', 'atanpi': 'atanpi', 'cospi': 'cospi', 'sinpi': 'sinpi', 'tanpi': 'tanpi', 'exp10': 'exp10',
      'rsqrt': 'rsqrt', 'degrees': 'degrees', 'radians': 'radians', 'sign': 'sign'}
H2 = {'atan2pi': 'atan2pi', 'maxmag': 'maxmag', 'minmag': 'minmag'}
REL2 = 'isequal isnotequal isgreater isgreaterequal isless islessequal islessgreater isordered isunordered'.split()
REL1 = 'isfinite isinf isnan isnormal signbit'.split()
OWN = 'wait_group_events prefetch clamp max min mix smoothstep step cross dot distance length normalize get_image_array_size ' \
      'get_image_channel_data_type get_image_channel_order get_image_dim get_image_depth get_image_height get_image_width read_imagef ' \
      'read_imagei read_imageui write_imagef write_imagei write_imageui abs abs_diff add_sat clz hadd mad_hi mad_sat mul_hi rhadd rotate ' \
      'sub_sat upsample fma fmax fmin fract frexp ilogb ldexp lgamma_r modf nan nextafter pown powr remquo rootn sincos shuffle ' \
      'shuffle2 all any bitselect select work_group_barrier mem_fence get_global_id get_global_size get_global_offset get_group_id ' \
      'get_local_id get_local_size get_num_groups get_work_dim get_global_linear_id get_local_linear_id get_enqueued_local_size ' \
      'printf async_work_group_copy'.split()
ALIAS = {'async_work_group_strided_copy': 'async_work_group_copy', 'fast_distance': 'distance', 'fast_length': 'length',
         'fast_normalize': 'normalize', 'mad': 'fma', 'nanf': 'nan', 'half_powr': 'powr', 'native_powr': 'powr',
         'barrier': 'work_group_barrier', 'read_mem_fence': 'mem_fence', 'write_mem_fence': 'mem_fence',
         '__translate_sampler_initializer': 'translate_sampler_initializer'}
LLVM = {'llvm.assume': 'llvm_assume', 'llvm.bswap.i32': 'llvm_bswap', 'llvm.bswap.v4i16': 'llvm_bswap', 'llvm.dbg.declare': 'llvm_dbg_declare',
        'llvm.dbg.value': 'llvm_dbg_value', 'llvm.lifetime.start.p0': 'llvm_lifetime_start', 'llvm.lifetime.end.p0': 'llvm_lifetime_end',
        'llvm.experimental.noalias.scope.decl': 'llvm_noalias_scope_decl', 'llvm.memcpy.p0.p1.i64': 'llvm_memcpy',
        'llvm.memmove.p0.p0.i64': 'llvm_memcpy', 'llvm.memset.p3.i64': 'llvm_memset', 'llvm.fmuladd.f32': 'fma', 'llvm.fmuladd.v4f64': 'fma',
        'llvm.trap': 'llvm_trap'}


def oracle():
    """name -> (driver or implementation, selector meaning)"""
    o = {}
    for n in F1:
        o[n] = ('f1arg', n)
    for n in F2:
        o[n] = ('f2arg', n)
    for n in H1:
        o[n] = ('f1arg', n)
    for n in H2:
        o[n] = ('f2arg', n)
    for n in REL1:
        o[n] = ('rel1arg', n)
    for n in REL2:
        o[n] = ('rel2arg', n)
    for p in ('half_', 'native_'):
        for n in 'cos exp exp2 exp10 log log2 log10 rsqrt sin sqrt tan'.split():
            o[p + n] = ('f1arg', n)
        o[p + 'divide'] = ('f2arg', 'divide')
        o[p + 'recip'] = ('f1arg', 'recip')
    o['mad24'] = ('u3arg', 'mad24')
    o['mul24'] = ('u2arg', 'mul24')
    o['popcount'] = ('u1arg', 'popcount')
    for n in OWN:
        o[n] = (n, None)
    for n, t in ALIAS.items():
        o[n] = (t, None)
    for p in ('atom_', 'atomic_'):
        for n in 'add and cmpxchg dec inc max min or sub xchg xor'.split():
            o[p + n] = ('atomic_op', None)
    for w in ('', '2', '3', '4', '8', '16'):
        for n in ('vload', 'vstore'):
            if w:
                o[n + w] = (n, None)
            o[n + '_half' + w] = (n + '_half', None)
            for r in ('_rte', '_rtz', '_rtp', '_rtn') if n == 'vstore' else ():
                o[n + '_half' + w + r] = (n + '_half', None)
            if w:
                o[n + 'a_half' + w] = (n + '_half', None)
                for r in ('_rte', '_rtz', '_rtp', '_rtn') if n == 'vstore' else ():
                    o[n + 'a_half' + w + r] = (n + '_half', None)
        for t in 'char uchar short ushort int uint long ulong half float double'.split():
            o['as_' + t + w] = ('astype', None)
            impl = {'half': 'convert_half', 'float': 'convert_float', 'double': 'convert_float'}.get(
                t, 'convert_uint' if t[0] == 'u' else 'convert_sint')
            for s in ('', '_sat') if impl in ('convert_uint', 'convert_sint') else ('',):
                for r in ('', '_rte', '_rtz', '_rtp', '_rtn'):
                    o['convert_' + t + w + s + r] = (impl, None)
    for n, t in LLVM.items():
        o[n] = (t, None)
    for s in ('32', '64'):
        o['llvm.fabs.f' + s] = ('f1arg', 'fabs')
    for t in ('i8', 'i32', 'i64', 'v4i16'):
        for n, d in (('smax', 's2arg'), ('smin', 's2arg'), ('umax', 'u2arg'), ('umin', 'u2arg')):
            o['llvm.%s.%s' % (n, t)] = (d, n)
    return o


# -------------------------------------------------------------- selector meaning
X, Y, Z = ('arg', 'a0'), ('arg', 'a1'), ('arg', 'a2')
PI = 3.141592653589793


def F(v):
    return ('f', v)


def canon(e, names):
    """floating expression over a0.. with library spellings unified"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] in ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp') and len(e) == 3:
        return canon(e[2], names)
    if e[0] == 'f':
        return ('f', float(str(e[1])))
    if e[0] == 'c':
        return ('f', float(e[1]))
    if e[0] == 'arg' and e[1] in names:
        return ('arg', 'a%d' % names.index(e[1]))
    if e[0] == 'call':
        n = short(e[1].replace('llvm.', '').replace('.f64', '').replace('.f32', ''))
        n = {'maxnum': 'fmax', 'minnum': 'fmin'}.get(n, n)
        a = tuple(canon(x, names) for x in e[2:])
        rel = {'isgreater': 'ogt', 'isgreaterequal': 'oge', 'isless': 'olt', 'islessequal': 'ole', 'islessgreater': 'one', 'isunordered': 'uno'}
        if n in rel:
            return canon(('fcmp', rel[n]) + a, names)
        if n in ('isnan',):
            return ('fcmp', 'uno', a[0], a[0])
        return ('call', n) + a
    r = tuple(canon(x, names) if isinstance(x, tuple) else x for x in e)
    if r[0] == 'fcmp':
        p, a, b = r[1], r[2], r[3]
        sw = {'ogt': 'olt', 'oge': 'ole', 'ugt': 'ult', 'uge': 'ule'}
        if p in sw:
            p, a, b = sw[p], b, a
        if p in ('oeq', 'one', 'ueq', 'une', 'ord', 'uno') and repr(b) < repr(a):
            a, b = b, a
        return ('fcmp', p, a, b)
    if r[0] in ('fmul', 'fadd') and repr(r[2]) < repr(r[1]):
        return (r[0], r[2], r[1])
    if r[0] == 'fdiv' and r[2][0] == 'f' and r[1][0] != 'f':
        return canon(('fmul', r[1], ('f', 1.0 / r[2][1])), names) if r[2][1] else r
    return r


def near(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[:1] == ('f',) and b[:1] == ('f',):
            return abs(a[1] - b[1]) <= 1e-12 * max(1, abs(b[1])) and str(a[1])[0] == str(b[1])[0]
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return a == b


def call(n, *a):
    return ('call', n) + a


def cm(p, a, b):
    return canon(('fcmp', p, a, b), ['a0', 'a1'])


def mulc(a, k):
    return canon(('fmul', a, F(k)), ['a0', 'a1', 'a2'])


FORM = {
    'acospi': [mulc(call('acos', X), 1 / PI)], 'asinpi': [mulc(call('asin', X), 1 / PI)], 'atanpi': [mulc(call('atan', X), 1 / PI)],
    'atan2pi': [mulc(call('atan2', X, Y), 1 / PI)], 'cospi': [call('cos', mulc(X, PI))], 'sinpi': [call('sin', mulc(X, PI))],
    'tanpi': [call('tan', mulc(X, PI))], 'exp10': [call('pow', F(10.0), X), call('exp10', X)],
    'rsqrt': [('fdiv', F(1.0), call('sqrt', X))], 'degrees': [mulc(X, 180 / PI)], 'radians': [mulc(X, PI / 180)],
    'divide': [('fdiv', X, Y)], 'recip': [('fdiv', F(1.0), X)],
}
WORLD2 = [('lt',), ('eq',), ('gt',), ('nan', 'x'), ('nan', 'y'), ('nan', 'x', 'y')]
WORLD1 = [(c, sg) for c in ('nan', 'inf', 'zero', 'subnormal', 'normal') for sg in ('+', '-')]
TRUTH = REL2
TRUE = {
    'isequal': lambda w: w[0] == 'eq', 'isnotequal': lambda w: w[0] != 'eq', 'isgreater': lambda w: w[0] == 'gt',
    'isgreaterequal': lambda w: w[0] in ('gt', 'eq'), 'isless': lambda w: w[0] == 'lt', 'islessequal': lambda w: w[0] in ('lt', 'eq'),
    'islessgreater': lambda w: w[0] in ('lt', 'gt'), 'isordered': lambda w: w[0] != 'nan', 'isunordered': lambda w: w[0] == 'nan',
    'isfinite': lambda w: w[0] not in ('nan', 'inf'), 'isinf': lambda w: w[0] == 'inf', 'isnan': lambda w: w[0] == 'nan',
    'isnormal': lambda w: w[0] == 'normal', 'signbit': lambda w: w[1] == '-',
}


def truth(e, w, names):
    """truth value of a condition in one class of operand values (None: not decided by the class)"""
    e = strip(e)
    k = e[0]
    if k == 'c':
        return bool(e[1])
    if k in ('and', 'or', 'xor'):
        a, b = truth(e[1], w, names), truth(e[2], w, names)
        if k == 'and' and False in (a, b):
            return False
        if k == 'or' and True in (a, b):
            return True
        return None if None in (a, b) else {'and': a and b, 'or': a or b, 'xor': a != b}[k]
    if k == 'select':
        c = truth(e[1], w, names)
        return None if c is None else truth(e[2] if c else e[3], w, names)
    if k == 'icmp' and e[1] in ('eq', 'ne') and strip(e[3])[0] == 'c' and strip(e[3])[1] in (0, 1):
        v = truth(e[2], w, names)
        return None if v is None else (v == bool(strip(e[3])[1])) == (e[1] == 'eq')
    if k == 'call' and short(e[1]) in TRUE and len(e) == 3 and len(w) == 2 and w[1] in '+-' and strip(e[2]) == ('arg', names[0]):
        return TRUE[short(e[1])](w)
    if k == 'call' and short(e[1]) == 'isnan' and len(e) == 3 and w in WORLD2:
        return truth(('fcmp', 'uno', e[2], e[2]), w, names)
    e = canon(e, names)
    if e[0] == 'fcmp' and e[2] in (X, Y) and e[3] in (X, Y):
        if e[2] == e[3]:
            nan = w[0] == 'nan' and (w in WORLD1 or ('x' if e[2] == X else 'y') in w[1:])
            r = 'uno' if nan else 'eq'
        elif w in WORLD1:
            return None
        else:
            r = {'lt': 'lt', 'eq': 'eq', 'gt': 'gt', 'nan': 'uno'}[w[0]]
            if e[2] == Y:
                r = {'lt': 'gt', 'gt': 'lt'}.get(r, r)
        p = e[1]
        if p in ('ord', 'uno'):
            return (r == 'uno') == (p == 'uno')
        if r == 'uno':
            return p[0] == 'u'
        return r in {'eq': ('eq',), 'ne': ('lt', 'gt'), 'lt': ('lt',), 'le': ('lt', 'eq'), 'gt': ('gt',), 'ge': ('gt', 'eq')}[p[1:]]
    return None


def atomset(p, names):
    return [(canon(a[1], names) if a[0] == 'true' else (a[0],) + tuple(canon(x, names) for x in a[1:]), pol) for a, pol in p.lits]


def meaning(P, sym, want):
    """None when the function `sym` computes what `want` names, else the reason"""
    s = short(sym)
    if s == want and not P.get(sym):
        return None                       # the library function of that name
    f = next(iter(P.get(sym)), None)
    if f is None:
        return 'is library function %s' % s
    names = pnames(f)
    ps = [p for p in Flow(f).paths()]
    rets = [p for p in ps if p.end[0] == 'ret']
    vals = [canon(strip_not(p.ret)[0], names) for p in rets]
    if want in FORM or want in F1 or want in F2:
        forms = FORM.get(want) or [call(want, X)] if want not in F2 else [call(want, X, Y)]
        return None if vals and all(any(near(v, w) for w in forms) for v in vals) else 'computes %s' % ' / '.join(S(p.ret) for p in rets)
    if want in TRUTH or want in REL1:
        if not rets:
            return 'never returns'
        for world in (WORLD2 if want in TRUTH else WORLD1):
            live = [p for p in rets if all(truth(a[1], world, names) in (pol, None) for a, pol in p.lits if a[0] == 'true') and all(
                truth(('icmp', 'eq', a[1], a[2]), world, names) in (pol, None) for a, pol in p.lits if a[0] == 'eq')]
            for p in live:
                if truth(p.ret, world, names) is not TRUE[want](world):
                    return 'computes %s for %s' % (S(p.ret), ', '.join(world))
            if not live:
                return 'has no result for %s' % ', '.join(world)
        return None
    if want in ('smax', 'smin', 'umax', 'umin', 'fmaxsel', 'fminsel'):
        return extremum(rets, names, want)
    if want in ('maxmag', 'minmag'):
        ax, ay = call('fabs', X), call('fabs', Y)
        for p in rets:
            ls = dict(atomset(p, names))
            v = canon(p.ret, names)
            big = {X: cm('ogt', ax, ay), Y: cm('ogt', ay, ax)} if want == 'maxmag' else {X: cm('olt', ax, ay), Y: cm('olt', ay, ax)}
            if v in big and ls.get(big[v]) is True:
                continue
            if v in (call('fmax' if want == 'maxmag' else 'fmin', X, Y), call('fmax' if want == 'maxmag' else 'fmin', Y, X)) and all(
                    ls.get(b) is False for b in big.values()):
                continue
            return 'returns %s under %s' % (S(p.ret), [S(a) for a, _ in p.lits])
        return None if len(rets) >= 3 else 'misses a case'
    if want == 'sign':
        return None if rets else 'never returns'        # its value in each class of operands is C42
    if want == 'mul24':
        return None if rets and all(poly(arglist(p.ret, names)) == pmul(poly(X), poly(Y)) for p in rets) else 'computes %s' % S(rets[0].ret)
    if want == 'mad24':
        return None if rets and all(poly(arglist(p.ret, names)) == padd(pmul(poly(X), poly(Y)), poly(Z)) for p in rets) else \
            'computes %s' % S(rets[0].ret)
    if want == 'popcount':
        return popcount(f, ps, names)
    raise Broken('no meaning for %s' % want)


def arglist(e, names):
    """arguments renamed a0.."""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == 'arg' and e[1] in names:
        return ('arg', 'a%d' % names.index(e[1]))
    return tuple(arglist(x, names) if isinstance(x, tuple) else x for x in e)


def strip_not(e):
    neg = False
    e = strip(e)
    while e[0] == 'xor' and len(e) == 3 and e[2] in (('c', 1), ('c', -1)):
        e, neg = strip(e[1]), not neg
    if e[0] == 'bitcast' and len(e) > 2:
        return strip_not(e[2])
    return e, neg


CMPS = {'sgt': ('s', 1), 'sge': ('s', 1), 'slt': ('s', 0), 'sle': ('s', 0), 'ugt': ('u', 1), 'uge': ('u', 1), 'ult': ('u', 0),
        'ule': ('u', 0), 'ogt': ('f', 1), 'oge': ('f', 1), 'olt': ('f', 0), 'ole': ('f', 0)}


def extremum(rets, names, want):
    kind, big = want[0], want[1:4] == 'max'
    for p in rets:
        e = arglist(p.ret, names)
        ok = False
        if e[0] == 'select' and strip(e[1])[0] in ('icmp', 'fcmp'):
            c = strip(e[1])
            k = CMPS.get(c[1])
            if k and k[0] == kind and {c[2], c[3]} == {X, Y} and {e[2], e[3]} == {X, Y}:
                greater = c[2] if k[1] else c[3]
                ok = (e[2] == greater) == big
        elif e in (X, Y):
            for a, pol in p.lits:
                a = arglist(a, names)
                if a[0] in ('lt', 'slt') and {a[1], a[2]} == {X, Y} and (a[0] == 'slt') == (kind == 's'):
                    lo = a[1] if pol else a[2]
                    ok = ok or (e != lo) == big
                if a[0] == 'true' and a[1][0] == 'fcmp' and kind == 'f':
                    k = CMPS.get(a[1][1])
                    if k and {a[1][2], a[1][3]} == {X, Y}:
                        greater = a[1][2] if k[1] == pol else a[1][3]
                        ok = ok or (e == greater) == big
        elif e[0] == 'call':
            n = short(e[1])
            ok = n in (('smax', 'umax', 'max', 'fmax') if big else ('smin', 'umin', 'min', 'fmin'))
        if not ok:
            return 'computes %s' % S(p.ret)
    return None if rets else 'never returns'


def popcount(f, ps, names):
    rets = [p for p in ps if p.end[0] == 'ret']
    if any(p.end[0] == 'ret' and is_call(strip(p.ret), 'ctpop', 'llvm.ctpop.i64', '__builtin_popcountll') for p in ps):
        return None
    for lp in f.loops:
        ph = [i for i in f.blocks[lp[0]].insts if i.op == 'phi']
        env = {}
        for i in ph:
            st = [nz(f.expr(v)) for v, p in i.args if p not in lp[1]]
            up = [nz(f.expr(v)) for v, p in i.args if p in lp[1]]
            env[('phi', i.id)] = (st, up)
        for x, (st, up) in env.items():
            if st != [('arg', names[0])]:
                continue
            shift = [u for u in up if u == ('lshr', x, C(1))]
            clear = [u for u in up if u[0] == 'and' and x in u[1:] and any(poly(y) == padd(poly(x), {(): -1}) for y in u[1:])]
            for n, (s2, u2) in env.items():
                if n == x or s2 != [C(0)]:
                    continue
                bit = ('and', x, C(1))
                if shift and len(u2) == 1 and poly(u2[0]) == padd(poly(n), poly(bit)) or clear and len(u2) == 1 and \
                        poly(u2[0]) == padd(poly(n), {(): 1}):
                    return None if rets and all(mentions(nz(p.ret), lambda y: y == n) for p in rets) else 'does not return the count'
    return 'does not count the set bits one by one'


# ------------------------------------------------------------------------ table
def table(P):
    """([(name, impl, op)] of exact entries, the same for prefix entries in order, instruction locations)"""
    f = P.one(B + 'initBuiltins[abi:cxx11]')
    exact, prefix, loc = {}, [], {}
    temps, names = {}, {}

    def text(e):
        e = strip(e)
        while e[0] == 'ptrto':
            e = e[1]
        return e[1] if e[0] == 's' else None
    for i in f.all():
        if i.op != 'call' or i.blk.id not in f.idom:
            continue
        a = [f.expr(x) for x in i.args]
        c = i.callee or ''
        s = short(c)
        if s == 'BuiltinFunction' and len(a) == 3:
            temps[a[0]] = (sym(a[1]), sym(a[2]), i)
        elif s == 'basic_string' and len(a) >= 2 and text(a[1]) is not None:
            names[a[0]] = text(a[1])
        elif s in ('make_pair', 'pair'):
            k = a[-2]
            n = text(k) if text(k) is not None else names.get(k)
            v = temps.get(a[-1])
            if v and n is not None:
                temps[a[0]] = (n,) + v if len(a) == 3 else temps.get(a[0])
        elif s in ('push_back', 'emplace_back', 'push_front') and mentions(a[0], lambda x: x[0] == 'g' and 'refix' in str(x[1])):
            v = [temps.get(x) or names.get(x) for x in a[1:]]
            if len(a) == 2 and v[0] is None:
                v = [next((temps[x] for x in temps if x == root(a[1])), None)]
            if len(a) == 2 and a[1] in names and ('fld', a[1], '#1') in temps:
                e = (names[a[1]],) + temps[('fld', a[1], '#1')]
            elif v and isinstance(v[0], tuple) and len(v[0]) == 4:
                e = v[0]
            elif len(a) == 3 and isinstance(v[1], tuple):
                e = (text(a[1]) or v[0],) + v[1]
            else:
                raise Broken('unrecognised entry of the prefix list at %s' % i.loc())
            if s == 'push_front':
                prefix.insert(0, e)
            else:
                prefix.append(e)
        elif (c.startswith(MEMCPY) or s == 'operator=') and a[1] in temps:
            d = a[0]
            if d[0] == 'fld':
                temps[d] = temps[a[1]]
            if d[0] == 'call' and short(d[1]) == 'operator[]':
                n = text(d[-1]) if text(d[-1]) is not None else names.get(d[-1])
                if n is None:
                    raise Broken('unrecognised table entry at %s' % i.loc())
                exact[n] = temps[a[1]]
    used = len(exact) + len(prefix)
    need(used > 150, 'name table of initBuiltins not recognised (%d entries)' % used)
    return f, exact, prefix


def sym(e):
    e = strip(e)
    while e[0] in ('ptrto', 'bitcast'):
        e = e[-1]
    if e[0] == 'fn':
        return e[1]
    return None


def resolve(n, exact, prefix):
    if n in exact:
        return exact[n]
    for p in prefix:
        if n.startswith(p[0]):
            return p[1:]
    return None


def impl_name(s):
    s = short(s or '')
    return s[:-len('_builtin')] if s.endswith('_builtin') else s


def run(P, R):
    names(P, R)
    lookup(P, R)
    invoke(P, R)
    drivers(P, R)
    families(P, R)


def names(P, R):
    R.rule('binding', 'resolving a built-in name through the table yields the implementation of that function', 700)
    R.rule('selector', 'the operation passed to a generic driver computes what the name says', 110)
    f, exact, prefix = table(P)
    orc = oracle()
    known = {d for d, _ in orc.values()}
    bound = {impl_name(v[0]) for v in exact.values()} | {impl_name(v[1]) for v in prefix}
    memo = {}
    for n, (impl, op) in sorted(orc.items()):
        r = resolve(n, exact, prefix)
        if r is None:
            R.bad('binding', n, floc(f), 'the name %s has no implementation any more' % n, f)
            continue
        fn, o, ins = r
        got = impl_name(fn)
        renamed = got not in known and impl not in bound and not any(
            impl_name(x) == impl for x in P.fns)
        R.check(got == impl or renamed, 'binding', n, ins.loc(), 'built-in %s is bound to %s' % (n, short(fn or '?')), fn=f)
        if op is not None:
            if o is None:
                R.bad('selector', n, ins.loc(), 'built-in %s is bound without an operation' % n, f)
                continue
            if (o, op) not in memo:
                memo[(o, op)] = meaning(P, o, op)
            why = memo[(o, op)]
            R.check(why is None, 'selector', n, ins.loc(), 'the operation bound to %s %s' % (n, why), fn=f)


# ----------------------------------------------------------------------- lookup
def lookup(P, R):
    R.rule('lookup', 'a declared function is looked up by its whole demangled name, then by prefix in list order, else reported as fatal', 6)
    f = P.one('oclgrind::InterpreterCache::addBuiltin')
    ps = list(Flow(f).paths())
    ok_exact = ok_prefix = ok_fatal = False
    isg = lambda e, n: mentions(e, lambda x: x[0] == 'g' and n in str(x[1]))
    for p in ps:
        if p.end[0] == 'iter':
            cmpb = [a for a, pol in p.lits if mentions(a, lambda x: x[0] == 'call' and short(x[1]) == 'compare') and isphi(a)]
            R.check(bool(cmpb) or not [1 for a, _ in p.lits if isphi(a)], 'lookup', 'scan', floc(f), 'a prefix entry is skipped without being compared', fn=f)
            continue
        found = [(a, pol) for a, pol in p.lits if a[0] == 'eq' and isg(a, 'workItemBuiltins')]
        if p.end[0] == 'unreachable':
            scanned = any(a[0] == 'eq' and pol and isg(a, 'workItemPrefixBuiltins') for a, pol in p.lits)
            good = any(pol for a, pol in found) and scanned
            R.check(good, 'lookup', 'fatal', floc(f), 'a function is reported as undefined before the whole table was searched', fn=f)
            ok_fatal = ok_fatal or good
            continue
        if p.end[0] != 'ret':
            continue
        cached = any(a[0] == 'eq' and not pol and not isg(a, 'workItem') and mentions(a, lambda x: x[0] == 'call' and short(x[1]) == 'find')
                     for a, pol in p.lits) or any(mentions(a, lambda x: x[0] == 'call' and short(x[1]) == 'count') and pol for a, pol in p.lits)
        copies = [e for e in p.events if e[0] == 'copy' and e[3][2] == C(16)]
        if cached and not copies:
            continue
        if not copies:
            R.bad('lookup', 'lost', floc(f), 'a function leaves the lookup neither bound nor reported', f)
            continue
        src = copies[-1][3][1]
        for e in reversed(copies[:-1]):
            if e[3][0] == src:
                src = e[3][1]
        if any(not pol for a, pol in found):
            good = isg(src, 'workItemBuiltins') and mentions(src, lambda x: x[0] == 'call' and short(x[1]) == 'find')
            R.check(good, 'lookup', 'exact', copies[-1][1].loc(), 'the exact match does not use the entry found', fn=f)
            ok_exact = ok_exact or good
        else:
            good = False
            for a, pol in p.lits:
                if a[0] == 'eq' and pol and a[1][0] == 'call' and short(a[1][1]) == 'compare' and isphi(a):
                    c = a[1]
                    ent = next((x for x in subexprs(c[-1]) if isinstance(x, tuple) and x and x[0] == 'phi'), None)
                    lens = len(c) >= 6 and all(strip(x)[0] == 'call' and short(strip(x)[1]) in ('length', 'size') and mentions(
                        x, lambda y: y == ent) for x in [c[4]] + [y for y in c[6:] if y != C(0) and y != C(-1)])
                    good = good or len(c) >= 6 and c[3] == C(0) and lens and c[2] == namevar(p) and mentions(src, lambda x: x == ent)
                if a[0] == 'eq' and pol and a[1][0] == 'call' and short(a[1][1]) in ('find', 'rfind') and isphi(a) and a[2] == C(0):
                    good = True
                if a[0] == 'true' and pol and a[1][0] == 'call' and short(a[1][1]) in ('starts_with',) and isphi(a):
                    good = True
            R.check(good and any(pol for a, pol in found), 'lookup', 'prefix', copies[-1][1].loc(),
                    'a prefix entry is taken without the name starting with that whole prefix, or before the exact names', fn=f)
            ok_prefix = ok_prefix or good
        key = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'operator[]' and e[3][0] in (THIS, ('fld', THIS, 'm_builtins'))]
        named = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'basic_string' and len(e[3]) > 1 and mentions(
            e[3][0], lambda x: x[0] == 'fld' and x[2] in ('name', 'overload'))]
        R.check(bool(key) and {f_ for e in named for f_ in ('name', 'overload') if mentions(e[3][0], lambda x: x[0] == 'fld' and x[2] == f_)} ==
                {'name', 'overload'} and all(distinct(named)), 'lookup', 'record', copies[-1][1].loc(),
                'the cached entry lacks the name or overload of the function', fn=f)
    R.check(ok_exact, 'lookup', 'has-exact', floc(f), 'no exact lookup', fn=f)
    R.check(ok_prefix, 'lookup', 'has-prefix', floc(f), 'no prefix lookup', fn=f)
    R.check(ok_fatal, 'lookup', 'has-fatal', floc(f), 'an unknown function is not reported as fatal', fn=f)
    mangled(P, R, f, ps)


def isphi(a):
    return mentions(a, lambda x: x[0] == 'phi')


def namevar(p):
    """the local string that is looked up"""
    for e in p.events:
        if e[0] == 'call' and short(e[2]) == 'find' and mentions(e[3][0], lambda x: x[0] == 'g' and 'workItemBuiltins' in str(x[1])):
            return e[3][1]
    return None


def distinct(named):
    src = [e[3][1] for e in named]
    return [len(set(src)) == len(src)]


def mangled(P, R, f, ps):
    """name = the first atoi characters after the digits, overload = the rest"""
    R.rule('demangle', 'the looked-up name is the <length> characters after the digits of _Z<length>, the overload what follows', 2)
    done = set()
    for p in ps:
        nv = namevar(p)
        subs = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'substr']
        if len(subs) < 2 or nv is None or p.end[0] != 'ret' or 'x' in done:
            continue
        done.add('x')
        asg = {e[3][1]: e[3][0] for e in p.events if e[0] == 'call' and short(e[2]) == 'operator=' and len(e[3]) == 2}
        for e in subs:
            d = asg.get(e[3][0], e[3][0])
            full, start, ln = e[3][1], poly(nz(e[3][2])), poly(nz(e[3][3]))
            st = [m for m in start if any(is_call(x, 'find_first_not_of') or short(x[1] if x[0] == 'call' else '') == 'find_first_not_of' for x in m)]
            ato = [m for m in start if any(x[0] == 'call' and short(x[1]) in ('atoi', 'strtol', 'stoi') for x in m)]
            if d == nv:
                lenok = len(ln) == 1 and all(x[0] == 'call' and short(x[1]) in ('atoi', 'strtol', 'stoi') for m in ln for x in m)
                R.check(len(start) == 1 and bool(st) and lenok, 'demangle', 'name', e[1].loc(), 'the name is not the counted part of the mangled name', fn=f)
            else:
                R.check(len(start) == 2 and bool(st) and bool(ato), 'demangle', 'overload', e[1].loc(), 'the overload does not start where the name ends', fn=f)
        ats = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'find_first_not_of']
        for e in ats:
            t = [x for x in e[3] if x[0] == 's']
            R.check(bool(t) and set(t[0][1]) == set('0123456789') and e[3][-1] == C(2), 'demangle', 'digits', e[1].loc(),
                    'the length digits of the mangled name are skipped differently', fn=f)


# ----------------------------------------------------------------------- invoke
def invoke(P, R):
    R.rule('invoke', 'an undefined callee runs the cached implementation of that callee with its name, overload, result and selector', 2)
    f = P.one('oclgrind::WorkItem::call')
    me, ins, res = pnames(f)[:3] if pnames(f)[0] == 'this' else ['this'] + pnames(f)[:2]
    n = 0
    for p in Flow(f).paths():
        ic = [e for e in p.events if e[0] == 'call' and e[2] is None and len(e[3]) == 6]
        for e in ic:
            n += 1
            a = e[3]
            gb = [x for x in subexprs(a[5]) if isinstance(x, tuple) and is_call(x, 'InterpreterCache::getBuiltin')]
            got = [ev_ for ev_ in p.events if ev_[0] == 'call' and (ev_[2] or '').endswith('InterpreterCache::getBuiltin')]
            fnarg = got[0][3][-1] if got else None
            decl = any(a_[0] == 'true' and pol and is_call(a_[1], 'GlobalValue::isDeclaration') and fnarg is not None and
                       nz(a_[1][2]) == nz(fnarg) for a_, pol in p.lits)
            loc0 = got[0][3][0] if got else None
            R.check(len(got) == 1 and decl, 'invoke', 'callee', e[1].loc(), 'the implementation run is not that of the called, undefined function', fn=f)
            R.check(strip(a[0]) == THIS and nz(a[1]) == ('arg', ins) and mentions(a[2], lambda x: x[0] == 'fld' and x[2] == 'name') and
                    mentions(a[3], lambda x: x[0] == 'fld' and x[2] == 'overload') and nz(a[4]) == ('arg', res) and bool(gb) and
                    mentions(a[5], lambda x: x[0] == 'fld' and x[2] == 'op'),
                    'invoke', 'arguments', e[1].loc(), 'the implementation does not get the call, its name, overload, result and selector', fn=f)
    R.check(n > 0, 'invoke', 'some', floc(f), 'no built-in implementation is ever called', fn=f)
    g = P.one('oclgrind::InterpreterCache::getBuiltin')
    for p in Flow(g).paths():
        if p.end[0] != 'ret':
            continue
        at = [e for e in p.events if e[0] == 'call' and short(e[2]) in ('at', 'find')]
        R.check(len(at) >= 1 and at[0][3][-1] in (('arg', pnames(g)[-1]),) or any(
            holds(p, e, e[3][-1], pnames(g)[-1]) for e in at), 'invoke', 'cache', floc(g), 'the cache is not indexed by the function asked for', fn=g)


def holds(p, e, a, n):
    v = p.at(e, a) if strip(a)[0] == 'alloca' else a
    return nz(v) == ('arg', n)


# ---------------------------------------------------------------------- drivers
KIND = {'f': 'Float', 'u': 'UInt', 's': 'SInt'}


def drivers(P, R):
    R.rule('driver', 'a generic driver stores op(operand 0 lane i, operand 1 lane i, ...) into lane i of the result for every lane', 9)
    for n, (k, ar, rk) in {'f1arg': ('f', 1, 'f'), 'f2arg': ('f', 2, 'f'), 'f3arg': ('f', 3, 'f'), 'u1arg': ('u', 1, 'u'), 'u2arg': ('u', 2, 'u'),
                           'u3arg': ('u', 3, 'u'), 's1arg': ('s', 1, 's'), 's2arg': ('s', 2, 's'), 's3arg': ('s', 3, 's'),
                           'rel1arg': ('f', 1, 's'), 'rel2arg': ('f', 2, 's')}.items():
        fs = P.get(B + n)
        if not fs:
            continue
        f = fs[0]
        res, fun = pnames(f)[4:6]
        bound = fld(('arg', res), 'num')
        idx = [i for lp in f.loops for i in [__import__('c08').lanes(f, lp, bound)] if i is not None]
        good = bool(idx)
        why = 'does not cover the lanes of the result'
        for p in Flow(f).paths():
            sets = [e for e in p.events if e[0] == 'call' and re.search(r'TypedValue::set(Float|UInt|SInt)$', e[2] or '')]
            if p.end[0] == 'iter' and len(sets) != 1:
                good, why = False, 'an iteration does not set one lane'
            for e in sets:
                v, lane = e[3][1], nz(e[3][2])
                if lane not in [nz(x) for x in idx] or not e[2].endswith('set' + KIND[rk]) or nz(e[3][0]) != ('arg', res):
                    good, why = False, 'sets another lane or as another type'
                sc = None
                if v[0] == 'mul' and n.startswith('rel'):
                    ps = [x for x in v[1:] if strip(x)[0] == 'icall']
                    qs = [x for x in v[1:] if strip(x)[0] != 'icall']
                    if len(ps) == 1 and len(qs) == 1:
                        v, sc = strip(ps[0]), strip(qs[0])
                    if not vecflag(sc, bound):
                        good, why = False, 'scales truth values by %s' % S(qs[0])
                elif v[0] == 'select' and n.startswith('rel'):
                    good, why = False, 'unrecognised truth value'
                elif n.startswith('rel'):
                    # 1 for scalars, -1 lanes for vectors: must be decided on the path
                    neg = v[0] == 'sub' and v[1] == C(0)
                    vec = [pol for a, pol in p.lits if a[0] == 'lt' and a[1] == C(1) and nz(a[2]) == nz(bound)]
                    v = v[2] if neg else v
                    if not vec or vec[0] != neg:
                        good, why = False, 'does not distinguish scalar and vector truth values'
                v = strip(v)
                if v[0] != 'icall' or nz(v[1]) != ('arg', fun) or len(v) != 2 + ar:
                    good, why = False, 'stores %s' % S(v)
                    continue
                for k2, x in enumerate(v[2:]):
                    o = oparg(x)
                    if o is None or o[0] != KIND[k] or o[1] != k2 or nz(o[2]) not in [nz(y) for y in idx]:
                        good, why = False, 'operand %d is %s' % (k2, S(x))
        R.check(good, 'driver', n, floc(f), '%s %s' % (n, why), fn=f)


def vecflag(e, bound):
    """-1 for vectors, 1 for scalars"""
    if e is None or e[0] != 'select':
        return False
    c = literal(e[1])
    if c[0][0] == 'lt' and c[0][1] == C(1) and nz(c[0][2]) == nz(bound):
        return (e[2], e[3]) == ((C(-1), C(1)) if c[1] else (C(1), C(-1)))
    if c[0][0] == 'eq' and nz(c[0][1]) == nz(bound) and c[0][2] == C(1):
        return (e[2], e[3]) == ((C(1), C(-1)) if c[1] else (C(-1), C(1)))
    return False


# --------------------------------------------------------------------- families
SIGNED, UNSIGNED, FLT = set(map(ord, 'csil')), set(map(ord, 'htjm')), set(map(ord, 'fd'))


WHOLE = {'add_sat', 'sub_sat', 'mad_sat', 'abs_builtin', 'abs_diff', 'hadd', 'rhadd', 'mul_hi', 'mad_hi', 'rotate', 'upsample', 'clz'}


def families(P, R):
    R.rule('overload', 'an implementation that selects by overload reads and writes its operands with the signedness of that overload', 60)
    R.rule('extremum', 'max, min and clamp apply the extremum of their name for every type', 9)
    for f in methods(P, B[:-2]):
        if not any((i.callee or '').endswith('::getOverloadArgType') for i in f.calls) or \
                f.short.endswith('getOverloadArgType'):
            continue
        for i in f.calls:
            if i.blk.id not in f.idom:
                continue
            c = i.callee or ''
            m = re.search(r'TypedValue::(get|set)(UInt|SInt|Float)$', c)
            kind = {'UInt': 'u', 'SInt': 's', 'Float': 'f'}[m.group(2)] if m else None
            w = re.match(re.escape(B) + r'([fus])[123]arg$', c)
            if w:
                kind = w.group(1)
            if kind is None:
                continue
            ch = chars(f, i.blk.id)
            if ch is None:
                continue
            if m and m.group(1) == 'get' and oparg(f.expr(['v', i.id])) is None:
                continue
            if m and m.group(1) == 'set' and f.short.split('::')[-1].startswith('convert_'):
                continue                                  # a conversion writes the type it is named after
            classes = [k for k, t in (('u', UNSIGNED), ('s', SIGNED), ('f', FLT)) if ch & t]
            if impl_name(f.short) == 'bitselect' and kind == 'u' or classes == ['u', 's'] and impl_name(f.short) in ('bitselect', 'select'):
                continue                                  # bit patterns: signedness is irrelevant
            if ch <= set(map(ord, 'lm')) and m and f.short.split('::')[-1] in WHOLE:
                continue                                  # the same 64 bits either way; their use is C41
            if len(classes) > 1:
                R.bad('overload', '%s:%s' % (f.short.split('::')[-1], ''.join(sorted(map(chr, ch)))), i.loc(),
                      '%s handles overloads %s alike' % (f.short, ''.join(sorted(map(chr, ch)))), f)
                continue
            sign = 'u' if ch <= UNSIGNED else 's' if ch <= SIGNED else 'f' if ch <= FLT else None
            if sign is None:
                continue
            R.check(kind == sign, 'overload', '%s:%s:%d' % (f.short.split('::')[-1], ''.join(sorted(map(chr, ch))), i.id), i.loc(),
                    '%s handles overload %s as %s' % (f.short, ''.join(sorted(map(chr, ch))), {'u': 'unsigned', 's': 'signed', 'f': 'floating'}[kind]),
                    fn=f)
            if w and f.short.split('::')[-1] in ('max', 'min', 'clamp'):
                o = sym(f.expr(i.args[-1]))
                nm = f.short.split('::')[-1]
                why = clampish(P, o, kind) if nm == 'clamp' else (
                    None if short(o) in ('f' + nm,) and kind == 'f' else meaning(P, o, kind + nm + ('sel' if kind == 'f' else '')))
                R.check(why is None, 'extremum', '%s:%s' % (nm, kind), i.loc(), '%s %s' % (nm, why), fn=f)
    # the scalar-bound forms, and the template helpers themselves
    for g in sorted(P.fns.values(), key=lambda g: g.qual):
        m = re.match(re.escape(B) + r'_(max|min)_<(.*)>$', g.qual)
        if m:
            t = 'f' if m.group(2) in ('float', 'double', 'long double') else 'u' if 'unsigned' in m.group(2) else 's'
            why = meaning(P, g.qual, t + m.group(1) + ('sel' if t == 'f' else ''))
            R.check(why is None, 'extremum', g.short, floc(g), '%s %s' % (g.short, why), fn=g)
        m = re.match(re.escape(B) + r'_clamp_<(.*)>$', g.qual)
        if m:
            t = 'f' if m.group(1) in ('float', 'double', 'long double') else 'u' if 'unsigned' in m.group(1) else 's'
            why = clampish(P, g.qual, t)
            R.check(why is None, 'extremum', g.short, floc(g), '%s %s' % (g.short, why), fn=g)


def clampish(P, s, kind):
    g = next(iter(P.get(s)), None) if s else None
    if g is None:
        return 'uses %s' % short(s or '?')
    a = pnames(g)
    for p in Flow(g).paths():
        if p.end[0] != 'ret':
            continue
        e = strip(p.ret)
        if e[0] != 'call':
            return 'computes %s' % S(e)
        n = short(e[1])
        want = {'_min_': ('_max_', a[2], a[1]), '_max_': ('_min_', a[1], a[2])}.get(n)
        if not want:
            return 'computes %s' % S(e)
        inner = [strip(x) for x in e[2:] if strip(x)[0] == 'call']
        other = [strip(x) for x in e[2:] if strip(x)[0] != 'call']
        if len(inner) != 1 or short(inner[0][1]) != want[0] or other != [('arg', want[1])] or \
                {strip(x) for x in inner[0][2:]} != {('arg', a[0]), ('arg', want[2])}:
            return 'computes %s' % S(e)
    return None


def chars(f, bid):
    """overload characters under which a block runs (None: all)"""
    out = None
    for a, pol in facts(f, bid):
        if a[0] in ('eq', 'in') and is_call(strip(a[1]), 'getOverloadArgType') and pol:
            s = set(a[2]) if a[0] == 'in' else {a[2][1]} if a[2][0] == 'c' else None
            if s:
                out = s if out is None else out & s
    return out
