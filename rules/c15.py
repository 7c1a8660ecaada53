"""C15: the functions that know about image formats are decided by constant propagation, one supported format at a time. The list of
supported formats is itself read off clGetSupportedImageFormats. For every one of its formats (channel order, data type) the
number of bytes of a pixel computed by the host must equal channel size times channels computed for kernels; the kernel-side
readers must load the channel that holds the wanted component from the address given by base, coordinates, layer and image
dimensions, as many bytes as a channel has, and convert them as the data type says; the writers must build a pixel with every
component in its channel and store it at the address of the same formula; the host must compose a fill colour in the same
order, width and scale. Dimensions an image does not have count as one at creation, wherever the size or an address is computed."""
import math
import struct
from common import *
from flow import Flow
import rt

TECHNIQUE = 'constant propagation through host and kernel image code for every supported format and chosen dimensions, compared with one layout table'
W = 'oclgrind::WorkItemBuiltins::'
TUS = ['runtime', 'async_queue', 'WorkItemBuiltins']
OPTS = ('--split-selects', '--extra-inline', r'(WorkItemBuiltins|\(anonymous namespace\))::(getChannelSize|getNumChannels|getInputChannel|hasZeroAlphaBorder|'
        r'getPixelSize|getNumDimensions|isImageArray|getNearestCoordinate|getCoordinate|getAdjacentCoordinates|interpolate|frac)$')
NOTE = ('Row and slice pitches of the host commands are C22, the bounds of their regions C21. Sampler arithmetic is decided at chosen coordinates only; linear '
        'filtering weights and the exact rounding of float32 arithmetic are not covered. Packed formats are not supported and not covered.')
ASSUMPTIONS = ['Memory::load and Memory::store access exactly the bytes they are given (C02/C03)']

DIMS = {'image_width': 5, 'image_height': 7, 'image_depth': 11, 'image_array_size': 13, 'image_type': 0x10F2}
BASE = 0x100000
ORDERS = {0x10B0: [0], 0x10B1: [3], 0x10B2: [0, 1], 0x10B3: [0, 3], 0x10B4: [0, 1, 2], 0x10B5: [0, 1, 2, 3], 0x10B6: [2, 1, 0, 3], 0x10B7: [3, 0, 1, 2],
          0x10B8: [0], 0x10B9: [0], 0x10BA: [0], 0x10BB: [0, 1], 0x10BC: [0, 1, 2]}
INTENSITY, LUMINANCE, ALPHA = 0x10B8, 0x10B9, 0x10B1
# orders whose border colour is transparent
ZERO = (0x10B1, 0x10B8, 0x10BA, 0x10B3, 0x10BB, 0x10BC, 0x10B7, 0x10B6, 0x10B5)
TYPES = {0x10D0: ('snorm', 1), 0x10D1: ('snorm', 2), 0x10D2: ('unorm', 1), 0x10D3: ('unorm', 2), 0x10D7: ('signed', 1), 0x10D8: ('signed', 2),
         0x10D9: ('signed', 4), 0x10DA: ('unsigned', 1), 0x10DB: ('unsigned', 2), 0x10DC: ('unsigned', 4), 0x10DD: ('half', 2), 0x10DE: ('float', 4)}
BUFFER, I2D, I3D, A2D, I1D, A1D, B1D = 0x10F0, 0x10F1, 0x10F2, 0x10F3, 0x10F4, 0x10F5, 0x10F6
CLASS = {'f': ('snorm', 'unorm', 'half', 'float'), 'i': ('signed',), 'ui': ('unsigned',)}
READER = {'f': 'readNormalizedColor', 'i': 'readSignedColor', 'ui': 'readUnsignedColor'}
GETTER = {'f': 'getFloat', 'i': 'getSInt', 'ui': 'getUInt'}


def leaf_for(order, typ, dims=DIMS, args=(), more=None):
    args = dict(args)

    def leaf(x):
        if more:
            r = more(x)
            if r is not None:
                return r
        if x[0] == 'arg' and x[1] in args:
            return args[x[1]]
        if x[0] != 'load':
            return None
        a = nz(x[1])
        n = a[2] if a[0] == 'fld' else None
        if n == 'image_channel_data_type':
            return typ
        if n in ('format', 'image_channel_order') or a in (('arg', 'format'), ('arg', 'image_format')):
            return order
        if n in dims:
            return dims[n]
        if n == 'desc' or a == ('arg', 'image_desc'):
            return dims['image_type']
        if n == 'address' or a == ('arg', 'image'):
            return BASE
        return None
    return leaf


class Odd(Exception):
    pass


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return float('inf') if x > 0 else float('-inf')


CMPS = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}


def ev(x, env, width=64):
    """value of an expression; integers are unsigned patterns except where a cast says otherwise"""
    r = env(x)
    if r is not None:
        return r
    k = x[0]
    if k == 'c':
        return x[1]
    if k == 'f':
        return x[1]
    if k in ('sext', 'zext', 'trunc') and len(x) == 3:
        v = ev(x[2], env)
        return int(v)
    if k in ('sitofp', 'uitofp', 'fpext', 'fptrunc'):
        v = float(ev(x[-1], env))
        return f32(v) if x[1] == 'float' else v
    if k in ('fptosi', 'fptoui'):
        v = ev(x[-1], env)
        return int(v)
    if k in ('fadd', 'fsub', 'fmul', 'fdiv') and len(x) == 3:
        a, b = ev(x[1], env), ev(x[2], env)
        return f32({'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[k]())
    if k in ('fcmp', 'icmp', 'cmp') and len(x) == 4:
        a, b = ev(x[2], env), ev(x[3], env)
        r = CMPS.get(x[1].lstrip('ous') if x[1] not in ('one', 'une', 'oeq', 'ueq', 'uno', 'ord') else x[1][1:])
        if r is not None:
            return r(a, b)
    if k == 'fneg':
        return -ev(x[1], env)
    if k in ('add', 'sub', 'mul') and len(x) == 3:
        a, b = ev(x[1], env), ev(x[2], env)
        return {'add': a + b, 'sub': a - b, 'mul': a * b}[k]
    if k in ('urem', 'srem', 'udiv', 'sdiv') and len(x) == 3:
        a, b = ev(x[1], env), ev(x[2], env)
        if k[0] == 'u':
            a, b = a % (1 << 64), b % (1 << 64)
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1) if b else 0
        return q if k.endswith('div') else a - q * b
    if k == 'load' and x[1][0] == 'call':
        return ev(x[1], env)
    if k == 'call':
        n = re.sub(r'<.*', '', x[1]).split('::')[-1]
        a = [ev(y, env) for y in x[2:]]
        if n in ('_clamp_', 'clamp') and len(a) == 3:
            return min(max(a[0], a[1]), a[2])
        if n in ('_min_', 'min', 'fmin', 'fminf') and len(a) == 2 or n.startswith('llvm.minnum'):
            return min(a[:2])
        if n in ('_max_', 'max', 'fmax', 'fmaxf') and len(a) == 2 or n.startswith('llvm.maxnum'):
            return max(a[:2])
        if n in ('rint', 'rintf', 'nearbyint') or n.startswith(('llvm.rint', 'llvm.nearbyint')):
            return float(round(a[0]))
        if n in ('floor', 'floorf') or n.startswith('llvm.floor'):
            return float(math.floor(a[0]))
        if n in ('fabs', 'fabsf', 'abs') or n.startswith('llvm.fabs'):
            return abs(a[0])
        if x[1].startswith(('llvm.fmuladd', 'llvm.fma')):
            return f32(a[0] * a[1] + a[2])
        if n == 'cl_half_to_float':
            return struct.unpack('e', struct.pack('H', int(a[0]) & 0xffff))[0]
        if n == 'cl_half_from_float' and a[1] == 0x3F000000 + 0 or n == 'cl_half_from_float' and len(a) == 2 and a[1] == 0:
            return struct.unpack('H', struct.pack('e', a[0]))[0]
    raise Odd(repr(x)[:1200])


def supported(P, R):
    f = P.one('clGetSupportedImageFormats')

    def cmp(pred, a, b):
        for x, y in ((a, b), (b, a)):
            if nz(y) == C(0) and nz(x)[0] == 'arg':
                return {'eq': False, 'ne': True}.get(pred)
    out = {}
    for p in Flow(f, limit=50000, maxiter=3000, cmp=cmp, leaf=lambda x: 1000 if x == ('arg', 'num_entries') else None).paths():
        for e in p.events:
            if e[0] == 'store':
                r, v, off = p.flow.key(e[2])
                if r == ('arg', 'image_formats') and not v and nz(e[3])[0] == 'c':
                    out.setdefault(off // 8, {})[off % 8] = nz(e[3])[1]
    got = [(d.get(0), d.get(4)) for k, d in sorted(out.items())]
    R.check(len(got) >= 20 and all(o in ORDERS and t in TYPES for o, t in got), 'formats', 'list', floc(f), 'a format without a layout is listed as supported: %s' %
            [('%x' % (o or 0), '%x' % (t or 0)) for o, t in got if o not in ORDERS or t not in TYPES][:4], fn=f)
    return [x for x in got if x[0] in ORDERS and x[1] in TYPES], f


def single(f, leaf, **kw):
    ps = [p for p in Flow(f, limit=20000, maxiter=500, leaf=leaf, **kw).paths()]
    return ps


def run(P, R):
    R.rule('formats', 'for every supported format the pixel size of the host is the channel size times the number of channels of the kernel side', 100)
    R.rule('address', 'kernels load and store an image element at base + ((layer * depth + z) * height + y) * width + x pixels', 100)
    R.rule('channel', 'each colour component is read from and written to the channel its format assigns to it', 100)
    R.rule('element', 'a channel is read, written and filled with the width, sign and scale of its data type', 100)
    R.rule('border', 'coordinates outside the image give the border colour, those inside load from it', 10)
    R.rule('coordinates', 'the image functions use the coordinates, layer and component they were called for', 10)
    R.rule('object', 'an image object holds the dimensions and format its storage was created for, and kernels are given those', 10)
    R.rule('query', 'image queries in kernels return the corresponding quantity', 7)
    fmts, gf = supported(P, R)
    tables(P, R, fmts)
    readers(P, R, fmts)
    writers(P, R, fmts)
    fill(P, R, fmts)
    coordinates(P, R)
    created(P, R, fmts)
    given(P, R)
    queries(P, R)


def tables(P, R, fmts):
    import build
    P = build.program(TUS[:1] + TUS[2:], ('--split-selects', '--extra-inline', '(?!)'))
    every = list(P.fns.values()) + list(P.inlined.values())
    ps = [g for g in every if g.qual.endswith('::getPixelSize')]
    cs, nc = [[g for g in every if g.qual == W + n] for n in ('getChannelSize', 'getNumChannels')]
    hn = [g for g in every if g.qual.endswith('::getNumChannels') and not g.qual.startswith(W)]
    if not (R.check(len(ps) == len(cs) == len(nc) == 1, 'formats', 'functions', 'src', 'the functions that give the size of a pixel are missing')):
        return

    def value(f, o, t, n=None):
        def more(x):
            return n if x[0] == 'call' and short(x[1]) == 'getNumChannels' else None
        r = [nz(p.ret) for p in single(f, leaf_for(o, t, more=more)) if p.end[0] == 'ret']
        return r[0][1] if len({repr(x) for x in r}) == 1 and r[0][0] == 'c' else None
    for o in sorted(ORDERS):
        own = {value(g, o, 0x10D0) for g in hn}
        for t in sorted(TYPES):
            h, c, n = value(ps[0], o, t, *own), value(cs[0], o, t), value(nc[0], o, t)
            want = len(ORDERS[o]) * TYPES[t][1]
            R.check(h is not None and c is not None and n is not None and h == c * n == want, 'formats', 'order %x type %x' % (o, t), floc(ps[0]),
                    'a pixel of order %x and type %x has %s bytes on the host, %s channels of %s bytes in kernels, and %d bytes by its format' % (o, t, h, n, c, want), fn=ps[0])
        for g in hn:
            R.check(own == {len(ORDERS[o])}, 'formats', 'channels %x' % o, floc(g), 'order %x has %s channels on the host' % (o, sorted(own, key=str)), fn=g)


def signed(v, w):
    return v - (1 << 8 * w) if v >> (8 * w - 1) & 1 else v


def readers(P, R, fmts):
    for kind, name in READER.items():
        fs = P.get(W + name)
        if not R.check(len(fs) == 1, 'address', name, 'src', '%s is missing' % name):
            continue
        f = fs[0]
        for o, t in fmts:
            k, w = TYPES[t]
            if k not in CLASS[kind]:
                continue
            comps = ORDERS[o]
            for c in range(4):
                for x, y, z, l in ((0, 0, 0, 0), (1, 2, 3, 4), (4, 6, 10, 12)):
                    dims = dict(DIMS)
                    if l:
                        # an array of 2D images has a depth of one
                        dims['image_depth'] = 1
                        z = 0
                    one(R, f, kind, o, t, comps, c, (x, y, z, l), dims)
        border(R, f, kind, fmts)


def one(R, f, kind, o, t, comps, c, at, dims):
    k, w = TYPES[t]
    x, y, z, l = at
    ps = single(f, leaf_for(o, t, dims, args=dict(i=x, j=y, k=z, layer=l, c=c)), loads=True)
    what = '%s of order %x, type %x, component %d' % (short(f.qual), o, t, c)
    if not R.check(all(p.end[0] == 'ret' for p in ps) and ps != [], 'channel', '%s %x %x' % (short(f.qual), o, t), floc(f), '%s: is not supported' % what, fn=f):
        return
    ch = comps.index(c) if c in comps else 0 if o == INTENSITY or o == LUMINANCE and c < 3 else None
    for p in ps:
        ld = [e for e in p.events if e[0] == 'call' and e[2] == 'oclgrind::Memory::load']
        ok_ = all((a[0] == 'true' and pol) or a[0] != 'true' for a, pol in p.lits)
        if ch is None:
            want = 1 if c == 3 and o != ALPHA else 0
            R.check(not ld and number(p.ret) == want, 'channel', '%s %x.%d' % (short(f.qual), o, c), floc(f), '%s: a component the format does not have reads as %s' % (what, show(p.ret, f)[:60]), fn=f)
            continue
        if not R.check(len(ld) == 1, 'channel', '%s %x.%d' % (short(f.qual), o, c), floc(f), '%s: a component of the format is not read from memory' % what, fn=f):
            continue
        e = ld[0]
        addr = BASE + (((l * dims['image_depth'] + z) * dims['image_height'] + y) * dims['image_width'] + x) * w * len(comps)
        got = nz(e[3][2])
        glob = any(x[0] == 'call' and short(x[1]) == 'getMemory' and x[3] == C(1) for x in [nz(e[3][0])]) or 'getGlobalMemory' in repr(e[3][0])
        good = got[0] == 'c' and (got[1] - addr) // (w * len(comps)) == 0
        R.check(glob and good, 'address', short(f.qual), e[1].loc(), '%s: the pixel at %s is looked up %s bytes away from its place' % (what, at, got[1] - addr if got[0] == 'c' else '?'), fn=f)
        if good:
            R.check((got[1] - addr) == ch * w, 'channel', '%s %x.%d' % (short(f.qual), o, c), e[1].loc(), '%s: reads byte %d of the pixel, not channel %d' % (what, got[1] - addr, ch), fn=f)
        R.check(nz(e[3][3]) == C(w), 'element', '%s %x' % (short(f.qual), t), e[1].loc(), '%s: loads %s bytes of a channel of %d' % (what, show(e[3][3], f), w), fn=f)
        if not ok_:
            continue
        buf = nz(e[3][1])
        rd = [i for i in p.events if i[0] == 'load' and nz(i[2]) == buf]
        ty = {1: ('i8',), 2: ('i16', 'half'), 4: ('float',) if k == 'float' else ('i32',)}[w]
        R.check(rd != [] and all(i[1].d.get('t') in ty for i in rd), 'element', '%s %x width' % (short(f.qual), t), floc(f), '%s: the bytes loaded are taken as %s' % (
            what, sorted({i[1].d.get('t') for i in rd})), fn=f)
        for v, res in samples(k, w):
            def env(y):
                if y[0] in ('sext', 'sitofp') and y[2][0] == 'load' and nz(y[2]) == ('load', buf):
                    return signed(v, w)
                if y[0] == 'load' and nz(y[1]) == buf:
                    return v
                return None
            if not taken(p, env, lambda y: signed(v, w) if y[0] == 'load' and nz(y[1]) == buf and k in ('snorm', 'signed') else env(y)):
                continue
            try:
                r = ev(p.ret, env)
                if k in ('signed', 'unsigned'):
                    r = int(r) & 0xffffffff
                    res = res & 0xffffffff
            except (Odd, ZeroDivisionError) as ex:
                r = str(ex)
            R.check(not isinstance(r, str) and abs(r - res) < 1e-4 * max(1, abs(res) / 10), 'element', '%s %x value' % (short(f.qual), t), floc(f),
                    '%s: a channel holding %s reads as %s instead of %s' % (what, v, r, res), fn=f)


def taken(p, env, senv):
    """whether the conditions of the path can hold for the value"""
    for a, pol in p.lits:
        try:
            if a[0] == 'true':
                r = bool(ev(a[1], env))
            elif a[0] in ('lt', 'slt', 'eq'):
                x, y = ev(a[1], senv if a[0] != 'lt' else env), ev(a[2], senv if a[0] != 'lt' else env)
                r = x == y if a[0] == 'eq' else x < y
            else:
                continue
        except (Odd, TypeError, IndexError):
            continue
        if r != pol:
            return False
    return True


def samples(k, w):
    top = 1 << 8 * w
    if k == 'float':
        return [(x, x) for x in (0.0, -1.5, 3.25)]
    if k == 'half':
        return [(struct.unpack('H', struct.pack('e', x))[0], x) for x in (0.0, -1.5, 3.25)]
    if k == 'snorm':
        m = top // 2 - 1
        return [(0, 0.0), (m, 1.0), (top - m, -1.0), (top // 2, -1.0), (m // 3, (m // 3) / m), (top - m // 3, -(m // 3) / m)]
    if k == 'unorm':
        return [(0, 0.0), (top - 1, 1.0), ((top - 1) // 3, ((top - 1) // 3) / (top - 1)), (top * 3 // 4, (top * 3 // 4) / (top - 1))]
    if k == 'signed':
        return [(0, 0), (5, 5), (top // 2 - 1, top // 2 - 1), (top // 2, -(top // 2)), (top - 3, -3)]
    return [(0, 0), (5, 5), (top // 2, top // 2), (top - 1, top - 1)]


def number(e):
    try:
        return ev(e, lambda x: None)
    except Odd:
        return None


def border(R, f, kind, fmts):
    seen = {}
    for o, t in fmts:
        if TYPES[t][0] in CLASS[kind]:
            seen.setdefault(o, t)
    for o, t in seen.items():
        for c in range(4):
            for i, at in enumerate(((-1, 0, 0), (5, 0, 0), (0, -1, 0), (0, 7, 0), (0, 0, -1), (0, 0, 11))):
                want = 1 if c == 3 and o not in ZERO else 0
                ps = single(f, leaf_for(o, t, args=dict(i=at[0], j=at[1], k=at[2], layer=0, c=c)))
                good = all(p.end[0] == 'ret' and number(p.ret) == want and not p.calls('oclgrind::Memory::load') for p in ps)
                R.check(good and ps != [], 'border', '%s %x' % (short(f.qual), o), floc(f), '%s of order %x at %s, component %d, does not give the border colour %d' % (
                    short(f.qual), o, at, c, want), fn=f)


def writes_value(k, w):
    """(component value, stored pattern)"""
    top = 1 << 8 * w
    if k == 'float':
        return [(x, x) for x in (0.0, -1.5, 3.25)]
    if k == 'half':
        return [(x, struct.unpack('H', struct.pack('e', x))[0]) for x in (0.0, -1.5, 3.25)]
    if k == 'snorm':
        m = top // 2 - 1
        return [(0.0, 0), (1.0, m), (3.0, m), (-1.0, -m), (-3.0, -m - 1), (0.3, round(f32(f32(0.3) * m)))]
    if k == 'unorm':
        m = top - 1
        return [(0.0, 0), (1.0, m), (3.0, m), (-1.0, 0), (0.3, round(f32(f32(0.3) * m)))]
    if k == 'signed':
        return [(0, 0), (7, 7), (-3, -3), (top // 2 - 1, top // 2 - 1), (-(top // 2), -(top // 2))]
    return [(0, 0), (7, 7), (top // 2, top // 2), (top - 1, top - 1)]


def writers(P, R, fmts):
    for kind in ('f', 'i', 'ui'):
        n = 'write_image' + kind
        fs = P.get(W + n)
        if not R.check(len(fs) == 1, 'address', n, 'src', '%s is missing' % n):
            continue
        f = fs[0]
        for o, t in fmts:
            if TYPES[t][0] not in CLASS[kind]:
                continue
            for vec, at in ((1, (3, 0, 0)), (2, (3, 6, 0)), (4, (3, 6, 9))):
                written(R, f, kind, o, t, vec, at)


def operand(x, k):
    """index of the element when x reads an element of argument k of the call"""
    if x[0] == 'call' and x[1].startswith('oclgrind::TypedValue::get') and len(x) == 4 and nz(x[3])[0] == 'c' and \
            mentions(x[2], lambda y: y[0] == 'call' and short(y[1]) == 'getArgOperand' and y[3] == C(k)):
        return nz(x[3])[1], short(x[1])
    return None


def written(R, f, kind, o, t, vec, at):
    k, w = TYPES[t]
    comps = ORDERS[o]
    what = '%s of order %x, type %x' % (short(f.qual), o, t)

    def more(x):
        if x[0] == 'call':
            if operand(x, 1):
                return at[operand(x, 1)[0]]
            n = short(x[1])
            if n == 'isVectorTy':
                return 1 if vec > 1 else 0
            if n == 'getNumElements':
                return vec
        if x[0] == 'load' and nz(x[1])[0] == 'load' and mentions(x[1], lambda y: y[0] == 'call' and short(y[1]) == 'getValue'):
            return BASE
        if x[0] == 'load' and mentions(x[1], lambda y: y[0] == 'call' and short(y[1]) == 'getArgOperand' and y[3] != C(0)):
            return None
        return None
    ps = single(f, leaf_for(o, t, more=more))
    if not R.check(ps != [] and all(p.end[0] == 'ret' for p in ps), 'channel', '%s %x %x' % (short(f.qual), o, t), floc(f), '%s: is not supported' % what, fn=f):
        return
    for p in ps:
        st = [e for e in p.events if e[0] == 'call' and e[2] == 'oclgrind::Memory::store']
        if not R.check(len(st) == 1, 'address', short(f.qual), floc(f), '%s: the pixel is not stored' % what, fn=f):
            continue
        e = st[0]
        addr = BASE + ((at[2] * DIMS['image_height'] + at[1]) * DIMS['image_width'] + at[0]) * w * len(comps)
        got = nz(e[3][2])
        glob = 'getGlobalMemory' in repr(e[3][0]) or nz(e[3][0])[0] == 'call' and short(nz(e[3][0])[1]) == 'getMemory' and nz(e[3][0])[3] == C(1)
        R.check(got == C(addr) and glob, 'address', short(f.qual), e[1].loc(), '%s: the pixel at %s is stored %s bytes away from its place' % (
            what, at, got[1] - addr if got[0] == 'c' else '?'), fn=f)
        R.check(nz(e[3][3]) == C(w * len(comps)), 'element', '%s %x size' % (short(f.qual), t), e[1].loc(), '%s: stores %s bytes for a pixel of %d' % (
            what, show(e[3][3], f), w * len(comps)), fn=f)
        acc = {operand(y, 2)[1] for x in p.events if x[0] == 'store' for y in walk(x[3]) if operand(y, 2)}
        # the 32 bits of an integer component are the same either way
        R.check(acc <= {GETTER[kind]} or kind != 'f' and acc <= {'getSInt', 'getUInt'}, 'element', short(f.qual) + ' operand', floc(f), '%s: takes its colour as %s' % (
            what, sorted(acc)), fn=f)
    if vec == 1:
        def comp(x):
            r = operand(x, 2)
            return r[0] if r else None

        def buffer(p):
            return p.flow.key([e for e in p.events if e[0] == 'call' and e[2] == 'oclgrind::Memory::store'][0][3][1])[0]
        composed(R, f, o, t, what, lambda v: Flow(f, limit=20000, maxiter=500, leaf=leaf_for(o, t, more=more), decide=chosen(comp, v)), comp, buffer)


def chosen(comp, values):
    def decide(c):
        try:
            r = ev(c, lambda y: values[comp(y)] if comp(y) in (0, 1, 2, 3) else None)
        except (Odd, IndexError, TypeError):
            return None
        return r if isinstance(r, bool) else None
    return decide


def walk(x):
    yield x
    for y in x[1:]:
        if isinstance(y, tuple) and y and isinstance(y[0], str):
            yield from walk(y)


def composed(R, f, o, t, what, flow, comp, buffer, clamped=True):
    """every component, converted, is put in its channel"""
    k, w = TYPES[t]
    comps = ORDERS[o]
    m = (1 << 8 * w) - 1
    tests = writes_value(k, w)
    if k in ('signed', 'unsigned'):
        tests = [([11, 22, 33, 44], [11, 22, 33, 44])] + [([v] * 4, [r] * 4) for v, r in tests]
    else:
        vs = [0.125, 0.25, 0.5, 0.75]
        tests = [(vs, [convert(v, k, w) for v in vs])] + [([v] * 4, [r] * 4) for v, r in tests]
    for n, (vals, want) in enumerate(tests):
        rule = 'element' if n else 'channel'
        for p in flow(vals).paths():
            if p.end[0] != 'ret' or buffer(p) is None:
                continue
            seen = {}
            for x in p.events:
                if x[0] == 'store':
                    r, v, off = p.flow.key(x[2])
                    if r == buffer(p) and not v:
                        seen[off] = x
            R.check(sorted(seen) == [i * w for i in range(len(comps))], 'channel', '%s %x %x' % (short(f.qual), o, t), floc(f), '%s: channels are put at bytes %s of a pixel with %d channels of %d' % (
                what, sorted(seen), len(comps), w), fn=f)
            for off, x in seen.items():
                if off % w or off // w >= len(comps):
                    continue
                vt = x[1].d.get('vt')
                R.check(vt in {1: ('i8',), 2: ('i16',), 4: ('float',) if k == 'float' else ('i32',)}[w], 'element', '%s %x width' % (short(f.qual), t), x[1].loc(),
                        '%s: a channel of %d bytes is written as %s' % (what, w, vt), fn=f)
                c = comps[off // w]
                res = want[c]
                try:
                    r = ev(x[3], lambda y: vals[comp(y)] if comp(y) in (0, 1, 2, 3) else None)
                    if k != 'float':
                        r, res = int(r) & m, int(res) & m
                except (Odd, OverflowError, ValueError) as ex:
                    r = str(ex)
                R.check(r == res, rule, '%s %x.%d' % (short(f.qual), o, off // w) if not n else '%s %x value' % (short(f.qual), t), x[1].loc(),
                        '%s: channel %d is written as %s instead of %s for colour %s' % (what, off // w, r, res, vals), fn=f)


def convert(v, k, w):
    if k == 'float':
        return v
    if k == 'half':
        return struct.unpack('H', struct.pack('e', v))[0]
    return round(f32(v * ((1 << 8 * w) - 1 if k == 'unorm' else (1 << 8 * w - 1) - 1)))


def fill(P, R, fmts):
    f = P.one('clEnqueueFillImage')
    for o, t in fmts:
        k, w = TYPES[t]
        what = 'clEnqueueFillImage of order %x, type %x' % (o, t)
        fl = [None]
        done = []

        def comp(x):
            if x[0] == 'load':
                r, v, off = fl[0].key(x[1])
                if r == ('arg', 'fill_color') and not v and off % 4 == 0:
                    return off // 4
            return None

        def more(x):
            if x[0] == 'load' and nz(x[1])[0] == 'fld' and nz(x[1])[2] == '#1':
                return o
            return None

        def cmp(pred, a, b):
            for x, y in ((a, b), (b, a)):
                if nz(y) == C(0) and nz(x)[0] == 'arg':
                    return {'eq': False, 'ne': True}.get(pred)
            # the region lies in the image (C21)
            return {'ult': False, 'ugt': False}.get(pred) if any(mentions(x, lambda y: y[0] == 'arg' and y[1] in ('origin', 'region')) for x in (a, b)) else None

        def flow(vals):
            fl[0] = Flow(f, limit=50000, maxiter=300, cmp=cmp, leaf=leaf_for(o, t, more=more), decide=chosen(comp, vals))
            return fl[0]

        def buffer(p):
            ct = [e for e in p.events if e[0] == 'call' and (e[2] or '').endswith('FillImageCommand::FillImageCommand')]
            if not p.calls('asyncEnqueue') or len(ct) != 1:
                return None
            done.append(1)
            return p.flow.key(ct[0][3][-1])[0]
        composed(R, f, o, t, what, flow, comp, buffer)
        R.check(done != [], 'channel', 'clEnqueueFillImage %x %x' % (o, t), floc(f), '%s: is rejected' % what, fn=f)


NONE, EDGE, CLAMP, REPEAT, MIRROR = 0, 2, 4, 6, 8
NORM, LINEAR = 1, 0x20
EXTENT = {'image_width': 5, 'image_height': 7, 'image_depth': 11, 'image_array_size': 13}


def nearest(mode, n, u, size):
    """(pixel index) of the OpenCL specification"""
    if mode == NONE:
        return math.floor(u)
    if mode == EDGE:
        return min(max(math.floor(u), 0), size - 1)
    if mode == CLAMP:
        return min(max(math.floor(u), -1), size)
    if mode == REPEAT:
        i = math.floor(f32(f32(n - math.floor(n)) * size))               # in the simulator's precision: the fraction may round to 1
        return i - size if i > size - 1 else i
    return min(math.floor(abs(n - 2 * round(0.5 * n)) * size), size - 1)


def adjacent(mode, n, u, size):
    """(first index, second index, unnormalised coordinate)"""
    if mode == REPEAT:
        u = (n - math.floor(n)) * size
    if mode == MIRROR:
        u = abs(n - 2 * round(0.5 * n)) * size
    a = math.floor(u - 0.5)
    b = a + 1
    if mode == EDGE:
        a, b = min(max(a, 0), size - 1), min(max(b, 0), size - 1)
    if mode == CLAMP:
        a, b = min(max(a, -1), size), min(max(b, -1), size)
    if mode == REPEAT:
        a, b = a + size if a < 0 else a, b - size if b > size - 1 else b
    if mode == MIRROR:
        a, b = max(a, 0), min(b, size - 1)
    return a, b, u


def colour(at, c):
    """a different value for every pixel and component"""
    i, j, k, l = at
    return (i * 7 + j * 31 + k * 113 + l * 257 + c * 1021) % 997


def expected(itype, sampler, at):
    dims = extent(itype)
    axes = {I1D: 1, A1D: 1, B1D: 1, I2D: 2, A2D: 2, I3D: 3}[itype]
    sizes = [dims['image_width'], dims['image_height'], dims['image_depth']]
    layer = min(max(round(at[axes]), 0), dims['image_array_size'] - 1) if itype in (A1D, A2D) else 0
    co = [at[k] if k < axes else 0 for k in range(3)]
    un = [c * n if sampler & NORM else c for c, n in zip(co, sizes)]
    mode = sampler & 0xE
    if not sampler & LINEAR:
        p = [nearest(mode, co[k], un[k], sizes[k]) if k < axes else 0 for k in range(3)]
        return [colour(p + [layer], c) for c in range(4)]
    pairs = [adjacent(mode, co[k], un[k], sizes[k]) if k < axes else (0, 0, 0.5) for k in range(3)]
    out = []
    for c in range(4):
        v = 0
        for pick in range(8):
            w, p = 1, []
            for k in range(3):
                a = (pairs[k][2] - 0.5) % 1
                b = pick >> k & 1
                p.append(pairs[k][b])
                w *= a if b else 1 - a
            v += w * colour(p + [layer], c)
        out.append(v)
    return out


def extent(itype):
    d = dict(EXTENT)
    if itype in (I1D, A1D, B1D):
        d['image_height'] = 1
    if itype != I3D:
        d['image_depth'] = 1
    if itype not in (A1D, A2D):
        d['image_array_size'] = 1
    d['image_type'] = itype
    return d


def coordinates(P, R):
    ints = {I1D: [(3,), (0,)], B1D: [(4,)], I2D: [(3, 5)], I3D: [(2, 5, 9)], A1D: [(3, 4), (1, 20), (2, 13), (2, -1)], A2D: [(2, 6, 11), (4, 1, -1), (0, 3, 13)]}
    for kind, rd in READER.items():
        name = 'read_image' + kind
        fs = P.get(W + name)
        if not R.check(len(fs) == 1, 'coordinates', name, 'src', '%s is missing' % name):
            continue
        f = fs[0]
        cases = []
        for it, ats in ints.items():
            for at in ats:
                cases.append((it, 'i', None, at))
                if it != B1D:
                    cases += [(it, 'i', m, at) for m in (NONE, EDGE, CLAMP)]
                    cases.append((it, 'f', CLAMP, tuple(x + 0.25 for x in at)))
        for it in (I1D, I2D, I3D, A1D, A2D):
            for m in (EDGE, CLAMP):
                for at in ((-0.75, 6.5, 12.5), (7.5, -3.25, -2.5)):
                    cases.append((it, 'f', m, at))
            for m in (NONE, EDGE, CLAMP, REPEAT, MIRROR):
                ats = [(0.3125, 0.8125, 0.4375)]
                if m != NONE:
                    ats += [(1.3125, -0.6875, 2.1875), (-0.0625, 1.9375, -3.03125), (-2.0 ** -40, 0.4375, -2.0 ** -33), (0.4375, -2.0 ** -40, 0.6875)]
                for at in ats:
                    at = at if it != A1D else (at[0], 4.75)
                    at = at if it != A2D else (at[0], at[1], 5.25)
                    cases.append((it, 'f', m | NORM, at))
                    if kind == 'f':
                        cases.append((it, 'f', m | NORM | LINEAR, at))
            if kind == 'f':
                cases += [(it, 'f', m | LINEAR, (2.375, 4.625, 6.5)) for m in (NONE, EDGE, CLAMP)]
        for it, ty, sampler, at in cases:
            lookup(R, f, kind, rd, it, ty, sampler, at)


def lookup(R, f, kind, rd, itype, ty, sampler, at):
    vec = {1: 1, 2: 2, 3: 4}[min(len(at), {I1D: 1, B1D: 1, I2D: 2, A1D: 2, A2D: 3, I3D: 3}[itype])]
    at = tuple(at) + (0, 0, 0)
    idx = 1 if sampler is None else 2
    what = '%s of image type %x, %s coordinates %s' % (short(f.qual), itype, {'i': 'integer', 'f': 'float'}[ty], at[:{1: 1, 2: 2, 4: 3}[vec]]) + (
        ' and sampler %x' % sampler if sampler is not None else '')

    def more(x):
        if x[0] == 'call':
            n = short(x[1])
            if n == 'arg_size':
                return idx + 1
            if n == 'getZExtValue':
                return sampler
            if n == 'isVectorTy':
                return 1 if vec > 1 else 0
            if n == 'getNumElements':
                return vec
            r = operand(x, idx)
            if r and r[0] < 4:
                return at[r[0]] if r[1] == 'getSInt' and ty == 'i' else ('f', float(at[r[0]])) if r[1] == 'getFloat' and ty == 'f' else None
        return None

    def last(pred, a, b):
        for x, y in ((a, b), (b, a)):
            if nz(y)[0] == 'c' and mentions(x, lambda z: z == ('arg', 'overload')):
                return {'eq': nz(y)[1] == ord(ty), 'ne': nz(y)[1] != ord(ty)}.get(pred)

    def env(y):
        if y[0] == 'call' and y[1] == W + rd and len(y) >= 9:
            a = [int(ev(z, env)) for z in y[4:9]]
            return colour(a[:4], a[4])
        return None

    def decide(c):
        try:
            r = ev(c, env)
        except (Odd, TypeError):
            return None
        return r if isinstance(r, bool) else None
    out = {}
    n = 0
    for p in Flow(f, limit=20000, maxiter=400, leaf=leaf_for(0x10B5, {'f': 0x10DE, 'i': 0x10D9, 'ui': 0x10DC}[kind], extent(itype), more=more), decide=decide).paths():
        # the last letter of the overload tells the type of the coordinates
        if p.end[0] != 'ret' or any(a[0] == 'eq' and last('eq', a[1], a[2]) not in (None, pol) for a, pol in p.lits):
            continue
        n += 1
        for e in p.calls('oclgrind::TypedValue::' + GETTER[kind].replace('get', 'set')):
            try:
                out.setdefault(int(ev(e[3][2], env)), set()).add(float(ev(e[3][1], env)))
            except (Odd, TypeError, IndexError) as ex:
                out.setdefault('?', set()).add(str(ex))
    want = expected(itype, sampler or 0, at)
    good = n > 0 and sorted(out, key=str) == [0, 1, 2, 3] and all(len(out[c]) == 1 and abs(list(out[c])[0] - want[c]) < 1e-2 for c in range(4))
    R.check(good, 'coordinates', '%s %x %s' % (short(f.qual), itype, 'linear' if sampler and sampler & LINEAR else 'nearest'), floc(f), '%s: does not give the pixel of those coordinates (%s instead of %s)' % (
        what, {k: sorted(v, key=str)[:2] for k, v in list(out.items())[:2]}, want[:2]), fn=f)


FIELDS = {'image_width': 8, 'image_height': 16, 'image_depth': 24, 'image_array_size': 32}


def created(P, R, fmts):
    fs = [g for g in list(P.fns.values()) + list(P.inlined.values()) if g.qual.endswith('::createImage')]
    fs = fs or P.get('clCreateImage')
    if not R.check(len(fs) == 1, 'object', 'createImage', 'src', 'the function that creates image objects is missing'):
        return
    f = fs[0]

    def cmp(pred, a, b):
        for x, y in ((a, b), (b, a)):
            if nz(y) == C(0) and (nz(x)[0] == 'arg' or nz(x)[0] == 'call' and short(nz(x)[1]) == 'createBuffer'):
                return {'eq': False, 'ne': True}.get(pred)
            # a buffer to make the image of
            if nz(y) == C(0) and nz(x)[0] == 'load' and nz(x)[1][0] == 'fld' and nz(x)[1][1] == ('arg', 'image_desc'):
                return {'eq': not made[0], 'ne': made[0]}.get(pred)
    made = [False]
    for it in (I1D, I2D, I3D, A1D, A2D, B1D):
        made[0] = it == B1D
        want = extent(it)
        for o, t in [x for x in fmts if x[1] in (0x10D0, 0x10DD, 0x10DE)]:
            dims = dict(EXTENT, image_type=it)
            size = want['image_width'] * want['image_height'] * want['image_depth'] * want['image_array_size'] * len(ORDERS[o]) * TYPES[t][1]
            n = 0
            for p in Flow(f, limit=20000, maxiter=100, cmp=cmp, leaf=leaf_for(o, t, dims)).paths():
                if p.end[0] != 'ret' or p.ret == C(0) or 'operator new' not in repr(nz(p.ret)):
                    continue
                n += 1
                cb = [e for e in p.events if e[0] == 'call' and short(e[2] or '') == 'createBuffer']
                if it != B1D:
                    R.check(len(cb) == 1 and any(nz(a) == C(size) for a in cb[0][3]), 'object', 'size %x' % it, floc(f), 'an image of type %x and order %x is given storage of %s instead of %d bytes' % (
                        it, o, [show(a, f)[:30] for a in cb[0][3]][2:3] if cb else None, size), fn=f)
                else:
                    # the storage is the buffer's
                    src = [e for e in p.events if e[0] == 'copy' and nz(e[3][0]) == nz(p.ret) or e[0] == 'call' and short(e[2] or '') == 'operator=' and nz(e[3][0]) == nz(p.ret)]
                    R.check(not cb, 'object', 'size %x' % it, floc(f), 'an image made of a buffer gets storage of its own', fn=f)
                for k in FIELDS:
                    v = nz(p.load(('fld', ('fld', p.ret, 'desc'), k), 8))
                    R.check(v == C(want[k]), 'object', '%s %x' % (k, it), floc(f), 'an image of type %x records %s for its %s instead of %d' % (it, show(v, f)[:40], k, want[k]), fn=f)
                at = p.flow.key(('fld', p.ret, 'desc'))[2]

                def from_(where, src, off, value):
                    v = nz(p.load(('cgep', p.ret, where), 4))
                    return v == C(value) or v[0] == 'load' and p.flow.key(v[1])[::2] == (('arg', src), off)
                R.check(from_(at, 'image_desc', 0, it), 'object', 'desc', floc(f), 'an image object does not record the description it was created with', fn=f)
                # the format lies before the description, with or without padding
                R.check(any(from_(at - d, 'image_format', 0, o) and from_(at - d + 4, 'image_format', 4, t) for d in (8, 12)), 'object', 'format', floc(f),
                        'an image object does not record the format it was created with', fn=f)
            R.check(n > 0, 'object', 'type %x' % it, floc(f), 'no image of type %x can be created' % it, fn=f)


def given(P, R):
    for name in ('clSetKernelArg', 'clCloneKernel'):
        f = P.one(name)
        n = 0
        for p in Flow(f, limit=20000).paths():
            for e in p.events:
                if not (e[0] == 'call' and e[2] == 'operator new' and nz(e[3][0]) == C(88)) or p.end[0] == 'unreachable':
                    continue
                n += 1
                img = ('call', 'operator new', C(88))
                a = nz(p.load(img, 8))
                mem = a[1][1] if a[0] == 'load' and a[1][0] == 'fld' and a[1][2] == 'address' else None
                R.check(mem is not None, 'object', name + ' address', floc(f), 'the image given to a kernel has address %s' % show(a, f)[:60], fn=f)
                cps = {p.flow.key(x[3][0])[2]: x for x in p.events if x[0] == 'copy' and p.flow.key(x[3][0])[0] == p.flow.key(img)[0]}
                for off, w, what in ((8, 8, '#1'), (16, 72, 'desc')):
                    x = cps.get(off)
                    src = nz(x[3][1]) if x else None
                    good = x is not None and nz(x[3][2]) == C(w) and src in (('fld', mem, what), ('fld', mem, 'format'))
                    if x is None:
                        # member by member
                        v = [nz(p.load(('cgep', img, off + d), 4)) for d in range(0, w, 8)]
                        good = mem is not None and all(mentions(y, lambda z: z == mem) for y in v)
                    R.check(good, 'object', '%s %s' % (name, {'#1': 'format'}.get(what, what)), floc(f), 'the image given to a kernel does not have the %s of the image object' % {
                        '#1': 'format'}.get(what, what), fn=f)
                later = p.events[p.events.index(e):]
                sets = [x for x in later if x[0] == 'call' and x[2] == 'oclgrind::Kernel::setArgument']
                R.check(sets != [], 'object', name + ' set', floc(f), 'the image is not made an argument of the kernel', fn=f)
        R.check(n > 0, 'object', name, floc(f), '%s gives no image to the kernel' % name, fn=f)


def queries(P, R):
    o, t = 0x10B6, 0x10D3
    table = {'get_image_width': [5], 'get_image_height': [7], 'get_image_depth': [11], 'get_image_array_size': [13], 'get_image_channel_order': [o],
             'get_image_channel_data_type': [t], 'get_image_dim': [5, 7, 11, 0]}
    import c12
    exact, prefix = c12.table(P)[1:]
    for name, want in table.items():
        impl = c12.resolve(name, exact, prefix)
        fs = P.get(impl[0].split('(')[0]) if impl and isinstance(impl[0], str) else [P.fns[impl[0]]] if impl and impl[0] in P.fns else P.get(W + name)
        if not R.check(len(fs) == 1, 'query', name, 'src', '%s is not implemented' % name):
            continue
        f = fs[0]
        for num in (2, 4) if name == 'get_image_dim' else (1,):
            def more(x):
                return num if x[0] == 'load' and nz(x[1])[0] == 'fld' and nz(x[1])[2] == 'num' else None
            got = {}
            for p in Flow(f, leaf=leaf_for(o, t, more=more)).paths():
                for e in p.calls('oclgrind::TypedValue::setUInt', 'oclgrind::TypedValue::setSInt'):
                    got.setdefault(nz(e[3][2]), set()).add(nz(e[3][1]))
            w = {C(i): {C(v)} for i, v in enumerate(want[:num])}
            R.check(got == w, 'query', '%s %d' % (name, num), floc(f), '%s does not return the %s of the image' % (name, name.replace('get_image_', '')), fn=f)
