"""C21: every path of every host transfer function that gets as far as enqueueing its command (or asking for a mapping).
The accesses of that command are read off its fields; the conditions that hold on the path must imply, without
wrap-around, that the bytes lie inside the object: offset and size for linear accesses, the chain of row and slice limits
for rectangles, each image dimension (by image type) for images.  The host access flags must have been found to permit the
access.  A path that reports an error enqueues nothing."""
from itertools import permutations
from common import *
import rt
import c20

TECHNIQUE = 'path conditions of every enqueue function against the bounds implied by the fields of the enqueued command'
TUS = rt.TUS
NOTE = 'Bounds are derived by matching inequalities in polynomial normal form; zero-sized linear requests are left to the implementation.'
ASSUMPTIONS = ['the row and slice layout of image storage is that of C15']

NO_ACCESS, WRITE_ONLY, READ_ONLY = 1 << 9, 1 << 7, 1 << 8
ARRAY1D, ARRAY2D = 0x10F5, 0x10F3
ACCESS = {'clEnqueueReadBuffer': 'r', 'clEnqueueReadBufferRect': 'r', 'clEnqueueWriteBuffer': 'w', 'clEnqueueWriteBufferRect': 'w',
          'clEnqueueMapBuffer': 'm', 'clEnqueueMapImage': 'm', 'clEnqueueReadImage': '>clEnqueueReadBufferRect',
          'clEnqueueWriteImage': '>clEnqueueWriteBufferRect'}
# image functions that hand a rectangle of bytes on: (image parameter, origin parameter)
IMAGES = {'clEnqueueReadImage': [('image', 'origin')], 'clEnqueueWriteImage': [('image', 'origin')],
          'clEnqueueCopyImage': [('src_image', 'src_origin'), ('dst_image', 'dst_origin')],
          'clEnqueueCopyImageToBuffer': [('src_image', 'src_origin')], 'clEnqueueCopyBufferToImage': [('dst_image', 'dst_origin')],
          'clEnqueueFillImage': [('image', 'origin')], 'clEnqueueMapImage': [('image', 'origin')]}
LINEAR = ['clEnqueueReadBuffer', 'clEnqueueWriteBuffer', 'clEnqueueCopyBuffer', 'clEnqueueFillBuffer', 'clEnqueueMapBuffer']
RECT = {'clEnqueueReadBufferRect': [('buffer_origin', 'address', 'buffer_offset')],
        'clEnqueueWriteBufferRect': [('buffer_origin', 'address', 'buffer_offset')],
        'clEnqueueCopyBufferRect': [('src_origin', 'src', 'src_offset'), ('dst_origin', 'dst', 'dst_offset')]}


def A(n):
    return ('arg', n)


def elem(a, i):
    """a[i] of an array of size_t"""
    return ('load', a) if i == 0 else ('load', ('ptr', a, C(i), None))


def size_of(o):
    return ('load', ('fld', o, 'size'))


def command(p):
    """the enqueued command and its fields {name or (name, index): value}"""
    e = [e for e in p.events if e[0] == 'call' and c20.last_name(e[2]) == 'asyncEnqueue']
    if not e:
        return None, {}, []
    cmd = strip(nz(e[0][3][2]))
    fs = {}
    args = []
    for x in p.events:
        if x[0] == 'store':
            a = x[2]
            i = 0
            if a[0] == 'idx' and a[2][0] == 'c':
                i, a = a[2][1], a[1]
            if a[0] == 'fld' and nz(a[1]) == cmd:
                fs[(a[2], i)] = nz(x[3])
        if x[0] == 'copy' and x[3][0][0] == 'fld' and nz(x[3][0][1]) == cmd and x[3][2][0] == 'c':
            for i in range(x[3][2][1] // 8):
                v = p.at(x, x[3][1] if i == 0 else ('cgep', x[3][1], 8 * i), 8) if x[3][1][0] == 'alloca' else elem(x[3][1], i)
                fs[(x[3][0][2], i)] = nz(v)
        if x[0] == 'call' and re.search(r'Command::\w+Command$', x[2] or '') and x[3] and nz(x[3][0]) == cmd:
            args = list(x[3])
    return cmd, fs, args


def split(e):
    """address -> (object, rest) where address is object->address + rest"""
    q = poly(nz(e))
    for m, c in q.items():
        if len(m) == 1 and c == 1 and m[0][0] == 'load' and m[0][1][0] == 'fld' and m[0][1][2] == 'address':
            rest = dict(q)
            del rest[m]
            return m[0][1][1], rest
    return None, None


def unpoly(q):
    e = None
    for m, c in sorted(q.items(), key=repr):
        t = C(c)
        for x in m:
            t = x if t == C(1) else ('mul', t, x)
        e = t if e is None else ('add', e, t)
    return e if e is not None else C(0)


def nowrap(fs, o, r):
    """facts imply that o + (r-1) does not wrap"""
    return atmost(fs, sub(r, C(1)), sub(C(-1), o)) or atmost(fs, o, sub(C(-1), sub(r, C(1)))) or \
        atmost(fs, r, sub(C(-1), o)) or atmost(fs, o, sub(C(-1), r))


def rect(fs, o, r, pitch, lim):
    """facts imply that the last byte of the rectangle is below lim"""
    if not nonzero(fs, lim):
        return 'is not known to be non-empty'
    why = 'is not compared with the size'
    for order in permutations(range(3)):
        space = sub(lim, C(1))
        ok = True
        for i in order:
            if not nonzero(fs, r[i]):
                why, ok = 'may have no extent in dimension %d' % i, False
                break
            if not nowrap(fs, o[i], r[i]):
                why, ok = 'may wrap in dimension %d' % i, False
                break
            last = add(o[i], sub(r[i], C(1)))
            if iszero(fs, pitch[i]):
                continue
            if not fits(fs, last, space, pitch[i]):
                ok = False
                if order == (0, 1, 2):
                    why = 'is not bounded in dimension %d' % i
                break
            space = sub(space, ('mul', last, pitch[i]))
        if ok:
            return None
    return why


def fits(fs, last, space, pitch):
    """facts imply last * pitch <= space without wrap"""
    if poly(nz(pitch)) == {(): 1} and atmost(fs, last, space):
        return True
    pl, ps, pp = poly(nz(last)), poly(nz(space)), poly(nz(pitch))
    for a, pol in fs:
        if a[0] == 'lt':
            x, y = nz(a[1]), nz(a[2])
            if not pol and x[0] == 'udiv' and poly(x[1]) == ps and poly(x[2]) == pp and poly(y) == pl:
                return True
            if pol and y[0] == 'udiv' and poly(y[1]) == ps and poly(y[2]) == pp and poly(x) == pl:
                return True
    return False


def image(p, fs, img, org, reg):
    """facts imply that the region lies inside the image"""
    desc = ('fld', img, 'desc')
    typ = ('load', desc)
    kind = None
    known = set()
    for a, pol in fs:
        if a[0] == 'eq' and nz(a[1]) == typ and a[2][0] == 'c':
            known.add(a[2][1])
            if pol:
                kind = a[2][1]
    dim = [('load', ('fld', desc, n)) for n in ('image_width', 'image_height', 'image_depth')]
    arr = ('load', ('fld', desc, 'image_array_size'))
    for i in range(3):
        o, r = elem(A(org), i), elem(A(reg), i)
        want = [dim[i]]
        if kind == ARRAY1D and i == 1 or kind == ARRAY2D and i == 2:
            want = [arr]
        elif kind is None and i == 1 and ARRAY1D not in known or kind is None and i == 2 and ARRAY2D not in known:
            return 'dimension %d does not depend on the image type' % i
        if not any(inside(fs, o, r, w) == 'yes' for w in want):
            return 'dimension %d is not bounded by the image' % i
        if not nonzero(fs, r):
            return 'dimension %d may be empty' % i
    return None


def masks(fs, obj):
    """host access flags known to be clear"""
    m = 0
    for a, pol in fs:
        if a[0] == 'eq' and pol and a[2] == C(0):
            x = nz(a[1])
            if x[0] == 'and' and x[2][0] == 'c' and x[1] == ('load', ('fld', obj, 'flags')):
                m |= x[2][1]
    return m


def mapped(fs, bits):
    """the map flags are known to include (True), not to include (False) any of bits, or undecided (None)"""
    for a, pol in fs:
        if a[0] == 'eq' and a[2] == C(0):
            x = nz(a[1])
            if x[0] == 'and' and x[2][0] == 'c' and x[1] == A('map_flags'):
                if not pol and x[2][1] & ~bits == 0:
                    return True
                if pol and bits & ~x[2][1] == 0:
                    return False
    return None


def run(P, R):
    R.rule('linear', 'the byte range of a linear transfer lies inside the object on every path that enqueues it', 5)
    R.rule('rect', 'every byte of a rectangular transfer lies inside the object on every path that enqueues it', 4)
    R.rule('image', 'the region of an image transfer lies inside the image, by image type, on every path that enqueues it', 8)
    R.rule('flags', 'host access that the flags of the object forbid is rejected with CL_INVALID_OPERATION', 8)
    R.rule('rejected', 'a call that reports an error has enqueued nothing', 20)
    R.rule('sub', 'a sub-buffer lies inside its parent', 1)
    fs_ = {f.qual: f for f in rt.entry_points(P)}
    for n in sorted(set(ACCESS) | set(IMAGES) | set(LINEAR) | set(RECT)):
        need(n in fs_, n)
    for n, f in sorted(fs_.items()):
        if n.startswith('clEnqueue'):
            one(P, R, f, n)
    f = fs_['clCreateSubBuffer']
    bad = None
    k = 0
    for p in rt.flow(f):
        if p.end[0] != 'ret' or p.ret == C(0):
            continue
        k += 1
        new = nz(p.ret)
        got = {e[2][2]: nz(e[3]) for e in p.stores() if e[2][0] == 'fld' and nz(e[2][1]) == new}
        par, off, size = got.get('parent'), got.get('offset'), got.get('size')
        if not (par and off and size) or inside(p.lits, local(p, off), local(p, size), size_of(par)) != 'yes':
            bad = 'is made without its range having been checked'
        obj, rest = split(got.get('address', C(0)))
        if not bad and (obj != par or poly(rest and unpoly(rest) or C(0)) != poly(off)):
            bad = 'does not start at its offset in the parent'
    R.check(bad is None and k, 'sub', 'clCreateSubBuffer', floc(f), 'a sub-buffer %s' % bad, fn=f)


def local(p, e):
    return e


def one(P, R, f, n):
    lin = rec = img = flg = rej = None
    reached = 0
    kinds = set()
    for p in rt.flow(f):
        fs = p.lits
        enq = [e for e in p.events if e[0] == 'call' and (c20.last_name(e[2]) == 'asyncEnqueue' or re.match('clEnqueue', e[2] or ''))]
        req = [e for e in p.events if e[0] == 'call' and (e[2] or '').endswith('Memory::mapBuffer')]
        if p.end[0] == 'ret':
            out = rt.outcome(f, p)
            if out is not None and out[0] == 'c' and out[1] < 0 and (enq or any(a for a in req if not nullmap(p, a))):
                rej = 'reports %d although the command was enqueued' % out[1]
        obj, forbidden = refused(p)
        if n in ACCESS and ACCESS[n][0] != '>' and p.end[0] == 'ret' and forbidden:
            out = rt.outcome(f, p)
            if out is not None and out != C(-59):
                flg = 'reports %s for forbidden host access' % (S(out) if out else 'nothing')
        if not enq and not req:
            continue
        reached += 1
        if n in ACCESS and ACCESS[n][0] != '>':
            flg = flg or flags(f, n, fs)
        if n in LINEAR:
            lin = lin or linear(p, fs, n, req)
        if n in RECT and enq:
            rec = rec or rectangle(p, fs, n)
        for im, org in IMAGES.get(n, []):
            img = img or image(p, fs, A(im), org, 'region')
            kinds |= {(a[2][1], pol) for a, pol in fs if a[0] == 'eq' and nz(a[1]) == ('load', ('fld', A(im), 'desc')) and a[2][0] == 'c'}
        if ACCESS.get(n, '')[:1] == '>':
            if any(e[2] != ACCESS[n][1:] for e in enq):
                flg = 'is not carried out by ' + ACCESS[n][1:]
    if n in LINEAR:
        R.check(lin is None and reached, 'linear', n, floc(f), '%s: %s' % (n, lin), fn=f)
    for org, *_ in RECT.get(n, []):
        R.check(rec is None and reached, 'rect', n + ':' + org, floc(f), '%s: the rectangle %s' % (n, rec), fn=f)
    for im, org in IMAGES.get(n, []):
        R.check(img is None and reached, 'image', n + ':' + im, floc(f), '%s: %s' % (n, img), fn=f)
    if n in ACCESS:
        R.check(flg is None and reached, 'flags', n, floc(f), '%s %s' % (n, flg), fn=f)
    if reached:
        R.check(rej is None, 'rejected', n, floc(f), '%s %s' % (n, rej), fn=f)


def nullmap(p, e):
    """the mapping asked for by e was refused"""
    r = ('call', e[2]) + tuple(e[3])
    return any(a[0] == 'eq' and pol and a[2] == C(0) and nz(a[1]) == nz(r) for a, pol in p.lits)


def refused(p):
    for a, pol in p.lits:
        if a[0] == 'eq' and not pol and a[2] == C(0):
            x = nz(a[1])
            if x[0] == 'and' and x[2][0] == 'c' and x[2][1] & (NO_ACCESS | READ_ONLY | WRITE_ONLY) and x[1][0] == 'load' and x[1][1][0] == 'fld' and \
                    x[1][1][2] == 'flags' and x[1][1][1][0] == 'arg' and x[1][1][1][1] in ('buffer', 'image'):
                return x[1][1][1], x[2][1]
    return None, None


def flags(f, n, fs):
    kind = ACCESS[n]
    obj = A('image' if 'Image' in n else 'buffer')
    m = masks(fs, obj)
    r, w = NO_ACCESS | WRITE_ONLY, NO_ACCESS | READ_ONLY
    if kind == 'r':
        return None if m & r == r and not m & READ_ONLY else 'reads without the flags permitting it'
    if kind == 'w':
        return None if m & w == w and not m & WRITE_ONLY else 'writes without the flags permitting it'
    for bits, need_, what in ((1, r, 'reading'), (6, w, 'writing')):
        t = mapped(fs, bits)
        if t is None:
            return 'does not decide whether it maps for %s' % what
        if t and m & need_ != need_:
            return 'maps for %s without the flags permitting it' % what
    return None


def linear(p, fs, n, req):
    if n == 'clEnqueueMapBuffer':
        for e in req:
            a, off, size = e[3][1:4]
            o, rest = split(a)
            if o != A('buffer') or rest:
                return 'maps another address'
            if inside(fs, off, size, size_of(o)) != 'yes':
                return 'asks for a mapping that was not found to lie inside the buffer'
        return None
    cmd, v, args = command(p)
    if cmd is None:
        return None
    ends = [v.get((k, 0)) for k in (('src', 'dst') if n == 'clEnqueueCopyBuffer' else ('address',))]
    size = v.get(('size', 0))
    for e in ends:
        o, rest = split(e) if e is not None else (None, None)
        if o is None or size is None:
            return 'the command has no address or size'
        if inside(fs, unpoly(rest), size, size_of(o)) != 'yes':
            return 'the range of the command was not found to lie inside %s' % S(o)
    return None


def rectangle(p, fs, n):
    cmd, v, args = command(p)
    if cmd is None:
        return None
    r = [v.get(('region', i)) for i in range(3)]
    if None in r:
        return 'has no region'
    for org, addr, off in RECT[n]:
        o, rest = split(v[(addr, 0)]) if (addr, 0) in v else (None, None)
        if o is None or rest:
            return 'starts at %s' % S(v.get((addr, 0)) or C(0))
        x = [elem(A(org), i) for i in range(3)]
        p1, p2 = v.get((off, 1)), v.get((off, 2))
        if p1 is None or p2 is None or (off, 0) not in v:
            return 'has no pitches'
        start = add(x[0], add(('mul', x[1], p1), ('mul', x[2], p2)))
        if poly(nz(start)) != poly(nz(v[(off, 0)])):
            return 'does not start at its origin'
        why = rect(fs, x, r, [C(1), p1, p2], size_of(o))
        if why:
            return why + ' (%s)' % S(o)
    return None
