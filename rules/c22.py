"""C22: the record a host function enqueues is rebuilt from the stores on each of its enqueueing paths (through the inline
constructor of the command) and compared, as polynomials over the arguments, with the request; functions that forward to a
rectangular transfer are compared at that call.  On the other side each Queue::execute* function is reduced to the memory
operations it performs: addresses become polynomials in the command fields and the trip numbers of the enclosing loops,
whose bounds must be the extents of the region.  Queue::execute must hand every command type to the function of its kind."""
from itertools import permutations, product
from common import *
from flow import Flow
import rt
import c20
import c21
from c08 import narrows
from c21 import A, elem

TECHNIQUE = 'symbolic field records of enqueued commands and induction-variable address polynomials of their execution'
TUS = rt.TUS + ['Queue']
NOTE = 'Fill colour conversion belongs to the image layout (C15); the effect of Memory::load/store/copy on bytes is C02/C03.'
ASSUMPTIONS = ['Size3::set copies the given number of components (C09)']


# ------------------------------------------------------------------ records
def record(p, obj):
    """{(field, index): value} written to obj on the path; ('bytes', source, n) for a private copy of n bytes"""
    fs = {}
    heap = {}
    size = {}           # local Size3 -> what set() gave it
    for x in p.events:
        if x[0] == 'call' and x[2] and 'Size3::' in x[2] and x[3] and x[3][0][0] == 'alloca':
            o = x[3][0]
            if last(x[2]) == 'set':
                size[o] = ('set',) + tuple(p.at(x, p.flow.comp(o, i), 8) for i in range(3)) + (nz(x[3][1]), nz(x[3][2]))
            else:
                size.pop(o, None)
        elif x[0] == 'store':
            a, i = x[2], 0
            if a[0] == 'idx' and a[2][0] == 'c':
                i, a = a[2][1], a[1]
            if a[0] == 'fld' and nz(a[1]) == obj:
                fs[(a[2], i)] = x[3]
        elif x[0] == 'copy':
            d, s, n = x[3][0], x[3][1], x[3][2]
            if d[0] == 'fld' and nz(d[1]) == obj and n[0] == 'c':
                if s in size and n[1] == 24:
                    fs[(d[2], 0)] = size[s]
                    continue
                for i in range(n[1] // 8):
                    fs[(d[2], i)] = p.at(x, s if i == 0 else ('cgep', s, 8 * i), 8) if s[0] == 'alloca' else elem(s, i)
            else:
                heap[nz(d)] = (nz(s), nz(n))
        elif x[0] == 'call' and last(x[2]) == 'set' and x[3] and x[3][0][0] == 'fld' and nz(x[3][0][1]) == obj:
            n = x[3][0][2]
            fs[(n, 0)] = ('set', fs.get((n, 0)), fs.get((n, 1)), fs.get((n, 2)), nz(x[3][1]), nz(x[3][2]))
        elif x[0] == 'call' and x[2] and x[2].endswith('Size3::operator=') and x[3][0][0] == 'fld' and nz(x[3][0][1]) == obj:
            if x[3][1] in size:
                fs[(x[3][0][2], 0)] = size[x[3][1]]
                continue
            for i in range(3):
                fs[(x[3][0][2], i)] = p.at(x, p.flow.comp(x[3][1], i), 8)
    for k, v in list(fs.items()):
        n = nz(v) if v is not None and v[0] != 'set' else None
        if n is not None and n[0] == 'call' and n[1] in ('operator new[]', 'operator new', 'malloc') and n in heap:
            s, b = heap[n]
            fs[k] = ('bytes', s, b) if b == n[2] else ('bytes', s, ('short', b))
    return fs


def last(c):
    return c20.last_name(c) if c else ''


def subst(e, m):
    if not isinstance(e, tuple):
        return e
    if e in m:
        return m[e]
    return tuple(subst(x, m) for x in e)


def ctors(P):
    """{class: [(conditions, {(field, i): value})]} of the command constructors"""
    out = {}
    for f in P.fns.values():
        m = re.match(r'oclgrind::(\w*Command)::(\w*Command)$', f.qual or '')
        if m and m[1] == m[2]:
            this = ('arg', pnames(f)[0])
            out[m[1]] = f, [(p.lits, record(p, this)) for p in Flow(f).paths() if p.end[0] == 'ret']
    return out


def enqueued(f, p, CT):
    """[(class, record)] of the command enqueued on the path"""
    e = [e for e in p.events if e[0] == 'call' and last(e[2]) == 'asyncEnqueue']
    if len(e) != 1:
        return None
    cmd = strip(nz(e[0][3][2]))
    own = record(p, cmd)
    for x in p.events:
        m = re.search(r'::(\w*Command)::(\w*Command)$', x[2] or '') if x[0] == 'call' else None
        if m and m[1] == m[2] and x[3] and nz(x[3][0]) == cmd and m[1] in CT:
            g, ps = CT[m[1]]
            mp = {('arg', n): v for n, v in zip(pnames(g), x[3])}
            out = []
            for lits, r in ps:
                cond = [(subst(a, mp), q) for a, q in lits]
                d = {}
                for k, v in r.items():
                    v = subst(v, mp)
                    if v is not None and v[0] == 'load' and v[1][0] in ('alloca', 'ptr') and root(v[1])[0] == 'alloca':
                        v = p.at(x, v[1], 8)
                    d[k] = v
                d.update({k: v for k, v in own.items()})
                out.append((m[1], d, cond))
            return out
    return None


# ------------------------------------------------------------------ requests
def address(o):
    return ('load', ('fld', A(o), 'address'))


def psize(o):
    def f(x):
        return is_call(x, 'getPixelSize') and mentions(x, lambda y: y == A(o))
    return f


def norm(e, img=None):
    """polynomial, with the quantities of an image named"""
    def leaf(x):
        for o in img or ():
            if x[0] == 'call' and last(x[1]) == 'getPixelSize' and len(x) == 3 and mentions(x, lambda y: y == A(o)) and \
                    x[2][0] == 'fld' and x[2][1] == A(o):
                return ('ps', o)
            for n, s in (('image_width', 'w'), ('image_height', 'h')):
                if x == ('load', ('fld', ('fld', A(o), 'desc'), n)):
                    return (s, o)
        return x
    return poly(nz(e), leaf) if e is not None else None


def sp(*terms):
    """sum of products of leaves"""
    r = {}
    for t in terms:
        q = {(): 1}
        for x in (t if isinstance(t, list) else [t]):
            q = pmul(q, x if isinstance(x, dict) else {(x,): 1} if not isinstance(x, int) else ({(): x} if x else {}))
        r = padd(r, q)
    return r


def known(fs, e, v):
    """truth of eq(e, v) on the path"""
    for a, pol in fs:
        if a[0] == 'eq' and nz(a[1]) == e and a[2] == C(v):
            return pol
    return None


def pitches(fs, row, slc, r0, r1):
    """effective pitches of a rectangular request: polynomials"""
    z = known(fs, A(row), 0)
    p1 = sp(A(row)) if z is False else r0 if z else None
    z = known(fs, A(slc), 0)
    p2 = sp(A(slc)) if z is False else (pmul(r1, p1) if p1 is not None else None) if z else None
    return p1, p2


def types(P):
    return {n: enum_val(P, 'CommandType', n) for n in
            'EMPTY COPY COPY_RECT FILL_BUFFER FILL_IMAGE KERNEL MAP NATIVE_KERNEL READ READ_RECT UNMAP WRITE WRITE_RECT'.split()}


def run(P, R):
    R.rule('record', 'the command that is enqueued holds the values of the request, on every path that enqueues it', 14)
    R.rule('forward', 'image transfers are forwarded as the rectangle of bytes of the requested region', 5)
    R.rule('mapping', 'the pointer returned by a map call is the mapping of the requested range', 2)
    R.rule('copied', 'a command keeps its own copy of the pattern, colour or arguments it was given', 3)
    R.rule('dispatch', 'a command of each type is executed once by the operation of that type', 13)
    R.rule('transfer', 'the execution of a linear command performs one memory operation with the values of the command', 6)
    R.rule('rectangle', 'the execution of a rectangular command touches every row (pixel) of the region once, at its address', 5)
    T = types(P)
    need(None not in T.values(), 'command types not found')
    CT = ctors(P)
    fs_ = {f.qual: f for f in rt.entry_points(P)}
    requests(P, R, fs_, CT, T)
    forwards(P, R, fs_)
    maps(P, R, fs_)
    copies(P, R, CT)
    dispatch(P, R, T)
    execution(P, R)


def requests(P, R, fs_, CT, T):
    def lin(name, typ, want):
        return name, typ, lambda fs: want

    def rectw(n, base, parts, extra):
        def w(fs):
            r = [sp(elem(A('region'), i)) for i in range(3)]
            out = dict(extra)
            for i in range(3):
                out[('region', i)] = r[i]
            for field, org, row, slc in parts:
                p1, p2 = pitches(fs, row, slc, r[0], r[1])
                if p1 is None or p2 is None:
                    return None
                o = [sp(elem(A(org), i)) for i in range(3)]
                out[(field, 0)] = padd(o[0], padd(pmul(o[1], p1), pmul(o[2], p2)))
                out[(field, 1)] = p1
                out[(field, 2)] = p2
            return out
        return n, base, w
    img = {(n, i): sp(elem(A(n), i)) for n in ('origin', 'region') for i in range(3)}
    img.update({('base', 0): sp(address('image')), ('rowPitch', 0): sp([('ps', 'image'), ('w', 'image')]),
                ('slicePitch', 0): sp([('ps', 'image'), ('w', 'image'), ('h', 'image')]), ('pixelSize', 0): sp(('ps', 'image'))})
    o = [elem(A('origin'), i) for i in range(3)]
    r = [elem(A('region'), i) for i in range(3)]
    row, slc = sp([('ps', 'image'), ('w', 'image')]), sp([('ps', 'image'), ('w', 'image'), ('h', 'image')])
    mapi = {('address', 0): sp(address('image')), ('flags', 0): sp(A('map_flags')),
            ('offset', 0): sp([('ps', 'image'), o[0]], [row, o[1]], [slc, o[2]]),
            ('size', 0): sp([('ps', 'image'), r[0]], [row, sp(r[1], -1)], [slc, sp(r[2], -1)])}
    W = [lin('clEnqueueReadBuffer', 'READ', {('ptr', 0): sp(A('ptr')), ('size', 0): sp(A('cb')),
                                             ('address', 0): sp(address('buffer'), A('offset'))}),
         lin('clEnqueueWriteBuffer', 'WRITE', {('ptr', 0): sp(A('ptr')), ('size', 0): sp(A('cb')),
                                               ('address', 0): sp(address('buffer'), A('offset'))}),
         lin('clEnqueueCopyBuffer', 'COPY', {('size', 0): sp(A('cb')), ('src', 0): sp(address('src_buffer'), A('src_offset')),
                                             ('dst', 0): sp(address('dst_buffer'), A('dst_offset'))}),
         lin('clEnqueueFillBuffer', 'FILL_BUFFER', {('size', 0): sp(A('cb')), ('address', 0): sp(address('buffer'), A('offset')),
                                                    ('pattern_size', 0): sp(A('pattern_size')),
                                                    ('pattern', 0): ('bytes', A('pattern'), A('pattern_size'))}),
         lin('clEnqueueMapBuffer', 'MAP', {('address', 0): sp(address('buffer')), ('offset', 0): sp(A('offset')),
                                           ('size', 0): sp(A('cb')), ('flags', 0): sp(A('map_flags'))}),
         lin('clEnqueueMapImage', 'MAP', mapi),
         lin('clEnqueueUnmapMemObject', 'UNMAP', {('address', 0): sp(address('memobj')), ('ptr', 0): sp(A('mapped_ptr'))}),
         lin('clEnqueueFillImage', 'FILL_IMAGE', img),
         lin('clEnqueueNativeKernel', 'NATIVE_KERNEL', {('func', 0): sp(A('user_func'))}),
         lin('clEnqueueNDRangeKernel', 'KERNEL', {('work_dim', 0): sp(A('work_dim'))}),
         lin('clEnqueueMarkerWithWaitList', 'EMPTY', {}), lin('clEnqueueBarrierWithWaitList', 'EMPTY', {}),
         lin('clEnqueueMigrateMemObjects', 'EMPTY', {}), lin('clEnqueueWaitForEvents', 'EMPTY', {}),
         rectw('clEnqueueReadBufferRect', 'READ_RECT',
               [('host_offset', 'host_origin', 'host_row_pitch', 'host_slice_pitch'),
                ('buffer_offset', 'buffer_origin', 'buffer_row_pitch', 'buffer_slice_pitch')],
               {('ptr', 0): sp(A('ptr')), ('address', 0): sp(address('buffer'))}),
         rectw('clEnqueueWriteBufferRect', 'WRITE_RECT',
               [('host_offset', 'host_origin', 'host_row_pitch', 'host_slice_pitch'),
                ('buffer_offset', 'buffer_origin', 'buffer_row_pitch', 'buffer_slice_pitch')],
               {('ptr', 0): sp(A('ptr')), ('address', 0): sp(address('buffer'))}),
         rectw('clEnqueueCopyBufferRect', 'COPY_RECT',
               [('src_offset', 'src_origin', 'src_row_pitch', 'src_slice_pitch'),
                ('dst_offset', 'dst_origin', 'dst_row_pitch', 'dst_slice_pitch')],
               {('src', 0): sp(address('src_buffer')), ('dst', 0): sp(address('dst_buffer'))})]
    for name, typ, want in W:
        f = fs_.get(name)
        need(f is not None, name + ' not found')
        seen = 0
        why = None
        for p in rt.flow(f):
            if p.end[0] != 'ret':
                continue
            c = enqueued(f, p, CT)
            if c is None:
                continue
            seen += 1
            for cls, rec, cond in c:
                w = want(p.lits)
                if w is None:
                    why = why or 'the effective pitches cannot be determined'
                    continue
                got = rec.get(('type', 0))
                if got is None or nz(got) != C(T[typ]):
                    why = why or 'the command type is %s instead of %s' % (S(nz(got)) if got is not None else 'not set', typ)
                for k, v in sorted(w.items()):
                    g = rec.get(k)
                    lab = k[0] if k[1] == 0 else '%s[%d]' % k
                    if g is None:
                        why = why or '%s is not set' % lab
                    elif isinstance(v, tuple):
                        if g[:1] != ('bytes',) or nz(g[1]) != v[1] or nz(g[2]) != v[2]:
                            why = why or '%s is not a copy of the %s bytes at %s' % (lab, show(v[2]), show(v[1]))
                    elif g[0] == 'bytes' or norm(g, ('image',)) != v:
                        why = why or '%s is %s instead of %s' % (lab, S(nz(g)) if g[0] != 'bytes' else 'a copy', pshow(v))
                    elif mentions(g, narrows):
                        why = why or '%s is truncated' % lab
                if typ == 'KERNEL':
                    why = why or ndrange(p, rec)
                if typ == 'NATIVE_KERNEL':
                    g = rec.get(('args', 0))
                    z = any(a[0] == 'eq' and nz(a[1]) == A('args') and a[2] == C(0) and pol for a, pol in cond)
                    if not (g == C(0) if z else g is not None and g[:1] == ('bytes',) and nz(g[1]) == A('args') and nz(g[2]) == A('cb_args')):
                        why = why or 'args is not a copy of the %s bytes' % show(A('cb_args'))
                if typ == 'FILL_IMAGE':
                    g = rec.get(('color', 0))
                    if g is None or g[:1] != ('bytes',) or norm(g[2], ('image',)) != sp(('ps', 'image')):
                        why = why or 'color is not a copy of one pixel'
        R.check(seen and not why, 'record', name, floc(f), why or 'no path enqueues a command', fn=f)


def ndrange(p, rec):
    k = rec.get(('kernel', 0))
    mk = [e for e in p.events if e[0] == 'call' and e[2] and e[2].endswith('Kernel::Kernel') and k is not None and nz(e[3][0]) == nz(k)]
    if not mk or nz(mk[0][3][1]) != ('load', ('fld', A('kernel'), 'kernel')):
        return 'the kernel is not a copy of the kernel of the request'
    for field, src, dflt in (('globalSize', 'global_work_size', 1), ('globalOffset', 'global_work_offset', 0), ('localSize', 'local_work_size', 1)):
        g = rec.get((field, 0))
        z = known(p.lits, A(src), 0)
        if g is not None and g[0] == 'set':
            if [x and nz(x) for x in g[1:4]] != [C(dflt)] * 3:
                return '%s has no default' % field
            if g[5] != A('work_dim'):
                return '%s does not have work_dim components' % field
            required = z and src == 'local_work_size' and any(
                e[0] == 'call' and last(e[2]) == 'getRequiredWorkGroupSize' and nz(e[3][1]) == g[4] for e in p.events)
            if g[4] != A(src) and not (z and src == 'global_work_size' and g[4][0] == 'alloca') and not required:
                return '%s is taken from %s' % (field, S(g[4]))
            if z and src != 'global_work_size' and not required:
                return '%s is read through NULL' % field
        elif z is not True:
            return '%s is not taken from %s' % (field, src)
        elif [rec.get((field, i)) and nz(rec.get((field, i))) for i in range(3)] != [C(dflt if src != 'global_work_size' else 0)] * 3:
            return '%s has no default' % field
    return None


# ------------------------------------------------------------------ forwarding
def forwards(P, R, fs_):
    ps = lambda i: ('ps', i)
    rowp = lambda i: sp([ps(i), ('w', i)])
    slcp = lambda i: sp([ps(i), ('w', i), ('h', i)])
    # name: (target, image naming the pixel size of the region, origins {callee param: ('img', image, origin)|('off', arg)|'zero'},
    #        plain {callee param: argument}, pitches {(row, slice): image | (row arg, slice arg) | None})
    F = {'clEnqueueReadImage': ('clEnqueueReadBufferRect', 'image',
                                {'buffer_origin': ('img', 'image', 'origin'), 'host_origin': 'zero'},
                                {'command_queue': 'command_queue', 'buffer': 'image', 'ptr': 'ptr', 'blocking_read': 'blocking_read'},
                                {('buffer_row_pitch', 'buffer_slice_pitch'): 'image',
                                 ('host_row_pitch', 'host_slice_pitch'): ('row_pitch', 'slice_pitch')}),
         'clEnqueueWriteImage': ('clEnqueueWriteBufferRect', 'image',
                                 {'buffer_origin': ('img', 'image', 'origin'), 'host_origin': 'zero'},
                                 {'command_queue': 'command_queue', 'buffer': 'image', 'ptr': 'ptr', 'blocking_write': 'blocking_write'},
                                 {('buffer_row_pitch', 'buffer_slice_pitch'): 'image',
                                  ('host_row_pitch', 'host_slice_pitch'): ('input_row_pitch', 'input_slice_pitch')}),
         'clEnqueueCopyImage': ('clEnqueueCopyBufferRect', 'src_image',
                                {'src_origin': ('img', 'src_image', 'src_origin'), 'dst_origin': ('img', 'dst_image', 'dst_origin')},
                                {'command_queue': 'command_queue', 'src_buffer': 'src_image', 'dst_buffer': 'dst_image'},
                                {('src_row_pitch', 'src_slice_pitch'): 'src_image', ('dst_row_pitch', 'dst_slice_pitch'): 'dst_image'}),
         'clEnqueueCopyImageToBuffer': ('clEnqueueCopyBufferRect', 'src_image',
                                        {'src_origin': ('img', 'src_image', 'src_origin'), 'dst_origin': ('off', 'dst_offset')},
                                        {'command_queue': 'command_queue', 'src_buffer': 'src_image', 'dst_buffer': 'dst_buffer'},
                                        {('src_row_pitch', 'src_slice_pitch'): 'src_image', ('dst_row_pitch', 'dst_slice_pitch'): None}),
         'clEnqueueCopyBufferToImage': ('clEnqueueCopyBufferRect', 'dst_image',
                                        {'src_origin': ('off', 'src_offset'), 'dst_origin': ('img', 'dst_image', 'dst_origin')},
                                        {'command_queue': 'command_queue', 'src_buffer': 'src_buffer', 'dst_buffer': 'dst_image'},
                                        {('src_row_pitch', 'src_slice_pitch'): None, ('dst_row_pitch', 'dst_slice_pitch'): 'dst_image'})}
    for name, (target, pix, orgs, plain, pts) in F.items():
        f, g = fs_.get(name), fs_.get(target)
        need(f is not None and g is not None, name + ' not found')
        prm = [x for x in pnames(g)]
        why, seen = None, 0
        imgs = {o for o in ('image', 'src_image', 'dst_image')}
        for p in rt.flow(f):
            es = p.calls(target) if p.end[0] == 'ret' else []
            es = [e for e in p.events if e[0] == 'call' and last(e[2]) == target] if p.end[0] == 'ret' else []
            if not es:
                continue
            seen += 1
            e = es[0]
            if len(es) > 1:
                why = why or 'forwards twice'
            a = dict(zip(prm, e[3]))

            def arr(n, i):
                x = a[n]
                return norm(p.at(e, x if i == 0 else ('cgep', x, 8 * i), 8) if x[0] == 'alloca' else elem(nz(x), i), imgs)
            reg = [sp([('ps', pix), elem(A('region'), 0)]), sp(elem(A('region'), 1)), sp(elem(A('region'), 2))]
            # both images of a copy have the same pixel size
            alt = [sp([('ps', 'dst_image'), elem(A('region'), 0)])] + reg[1:] if name == 'clEnqueueCopyImage' else reg
            got = [arr('region', i) for i in range(3)]
            if got != reg and got != alt:
                why = why or 'the region is (%s)' % ', '.join(pshow(x) for x in got)
            for n, o in orgs.items():
                if o == 'zero':
                    w = [{}, {}, {}]
                elif o[0] == 'off':
                    w = [sp(A(o[1])), {}, {}]
                else:
                    w = [sp([ps(o[1]), elem(A(o[2]), 0)]), sp(elem(A(o[2]), 1)), sp(elem(A(o[2]), 2))]
                got = [arr(n, i) for i in range(3)]
                if got != w:
                    why = why or '%s is (%s)' % (n, ', '.join(pshow(x) for x in got))
            for n, o in plain.items():
                if nz(a[n]) != A(o):
                    why = why or '%s is %s' % (n, S(nz(a[n])))
            for (rn, sn), o in pts.items():
                rv, sv = norm(a[rn], imgs), norm(a[sn], imgs)
                if isinstance(o, str):
                    ok = rv == rowp(o) and sv == slcp(o)
                elif o is None:
                    ok = rv in ({}, reg[0], alt[0]) and sv in ({}, pmul(reg[1], reg[0]), pmul(reg[1], alt[0]))
                else:
                    zr, zs = known(p.lits, A(o[0]), 0), known(p.lits, A(o[1]), 0)
                    ok = rv == sp(A(o[0])) or zr and rv in ({}, reg[0])
                    row = reg[0] if zr else sp(A(o[0]))
                    ok = ok and (sv == sp(A(o[1])) or zs and sv in ({}, pmul(reg[1], row)) and (zr is not None or sv == {}))
                if not ok:
                    why = why or '%s, %s are %s, %s' % (rn, sn, pshow(rv), pshow(sv))
            if any(mentions(x, narrows) for x in e[3]):
                why = why or 'an argument is truncated'
        R.check(seen and not why, 'forward', name, floc(f), why or 'nothing is forwarded', fn=f)


def maps(P, R, fs_):
    for name in ('clEnqueueMapBuffer', 'clEnqueueMapImage'):
        f = fs_[name]
        why, seen = None, 0
        for p in rt.flow(f):
            cmd, rec, _ = c21.command(p)
            if cmd is None or p.end[0] != 'ret':
                continue
            seen += 1
            ms = [e for e in p.events if e[0] == 'call' and last(e[2]) == 'mapBuffer']
            if len(ms) != 1:
                why = why or 'the range is mapped %d times' % len(ms)
                continue
            m = ms[0]
            for i, n in enumerate(('address', 'offset', 'size')):
                if poly(nz(m[3][1 + i])) != poly(rec.get((n, 0), C(-1))):
                    why = why or 'the mapped %s is not that of the command' % n
            r = nz(p.ret) if p.ret else None
            if r is None or not (r[0] == 'call' and last(r[1]) == 'mapBuffer'):
                why = why or 'the pointer of the mapping is not returned'
            if name == 'clEnqueueMapImage':
                row = sp([('ps', 'image'), ('w', 'image')])
                for x in p.events:
                    if x[0] == 'store' and nz(x[2]) == A('image_row_pitch') and norm(x[3], ('image',)) != row:
                        why = why or 'the row pitch is reported as %s' % S(nz(x[3]))
                if not any(x[0] == 'store' and nz(x[2]) == A('image_row_pitch') for x in p.events):
                    why = why or 'the row pitch is not reported'
        R.check(seen and not why, 'mapping', name, floc(f), why or 'no path enqueues a command', fn=f)


def copies(P, R, CT):
    for cls, field in (('FillBufferCommand', 'pattern'), ('FillImageCommand', 'color'), ('NativeKernelCommand', 'args')):
        need(cls in CT, cls + ' not found')
        f, ps = CT[cls]
        bad = [r.get((field, 0)) for cond, r in ps
               if (r.get((field, 0)) or ('',))[0] != 'bytes' and not (r.get((field, 0)) == C(0) and cond)]
        short_ = [r for c, r in ps if (r.get((field, 0)) or ('',))[0] == 'bytes' and r[(field, 0)][2][0] == 'short']
        R.check(ps and not bad and not short_, 'copied', cls, floc(f), '%s is %s' %
                (field, 'allocated and copied with different sizes' if short_ else ', '.join(S(b) if b else 'not set' for b in bad)), fn=f)


# ------------------------------------------------------------------ execution
EXEC = {'COPY': 'executeCopyBuffer', 'COPY_RECT': 'executeCopyBufferRect', 'EMPTY': None, 'FILL_BUFFER': 'executeFillBuffer',
        'FILL_IMAGE': 'executeFillImage', 'READ': 'executeReadBuffer', 'READ_RECT': 'executeReadBufferRect', 'KERNEL': 'executeKernel',
        'MAP': 'executeMap', 'NATIVE_KERNEL': 'executeNativeKernel', 'UNMAP': 'executeUnmap', 'WRITE': 'executeWriteBuffer',
        'WRITE_RECT': 'executeWriteBufferRect'}


def kind(p, cmd, T):
    """command type the path was selected for: value, or set of excluded values"""
    ex = set()
    for a, pol in p.lits:
        if a[0] == 'eq' and nz(a[1]) == ('load', ('fld', cmd, 'type')) and a[2][0] == 'c':
            if pol:
                return a[2][1], ex
            ex.add(a[2][1])
    return None, ex


def dispatch(P, R, T):
    f = P.one('oclgrind::Queue::execute')
    cmd = ('arg', pnames(f)[1])
    names = {v: k for k, v in T.items()}
    got = {n: set() for n in T}
    for p in Flow(f).paths():
        if p.end[0] != 'ret':
            continue
        if not any(e[0] == 'store' and e[2][0] == 'fld' and e[2][2] == 'endTime' for e in p.events):
            continue        # the command was not run
        ops = tuple(last(e[2]) if e[3] and any(nz(x) == cmd for x in e[3]) else last(e[2]) + ' (of another command)'
                    for e in p.events if e[0] == 'call' and re.search(r'Queue::execute\w+$', e[2] or ''))
        v, ex = kind(p, cmd, T)
        for n, t in T.items():
            if t == v or v is None and t not in ex:
                got[n].add(ops)
    for n in sorted(T):
        w = {(EXEC[n],) if EXEC[n] else ()}
        R.check(got[n] == w, 'dispatch', n, floc(f), 'a %s command is executed by %s' %
                (n, ' or '.join(sorted('+'.join(x) or 'nothing' for x in got[n])) or 'nothing'), fn=f)


def widths(e):
    """byte pointer arithmetic as addition"""
    if not isinstance(e, tuple):
        return e
    if e and e[0] == 'load':
        a = e[1]
        if a[0] == 'ptr' and len(a) == 4 and strip(a[1])[0] == 'fld':       # element of an array field through its address
            return ('load', ('idx', strip(a[1]), a[2], a[3] or 8))
        return e
    if e and e[0] == 'ptr' and len(e) == 4:
        w = 1 if e[3] is None else e[3]
        if isinstance(w, int):
            return ('add', widths(e[1]), ('mul', widths(e[2]), C(w)))
    if e and e[0] == 'cgep' and isinstance(e[2], int):
        return ('add', widths(e[1]), C(e[2]))
    return tuple(widths(x) for x in e)


class Trips:
    """induction variables of a function as polynomials in the trip numbers of their loops"""

    def __init__(self, f):
        self.f = f
        self.memo = {}
        self.loop = {lp[0]: lp for lp in f.loops}

    def poly(self, e, depth=0):
        e = widths(e)

        def leaf(x):
            if x[0] == 'phi' and depth < 8:
                r = self.phi(x, depth)
                if r is not None:
                    return r
            return nz(x)
        return poly(e, leaf)

    def phi(self, x, depth):
        if x not in self.memo:
            self.memo[x] = None
            i = self.f.insts.get(x[1])
            lp = i is not None and self.loop.get(i.blk.id)
            if lp:
                st = [self.poly(self.f.expr(v), depth + 1) for v, b in i.args if b not in lp[1]]
                up = [self.poly(self.f.expr(v), depth + 1) for v, b in i.args if b in lp[1]]
                me = {(x,): 1}
                d = [padd(u, pscale(me, -1)) for u in up]
                if st and d and all(s == st[0] for s in st) and all(y == d[0] for y in d) and \
                        not any(x in m for m in d[0]) and not any(y[0] in ('phi', 'trip') for m in d[0] for y in m):
                    self.memo[x] = padd(st[0], pmul(d[0], {(('trip', lp[0]),): 1}))
        return self.memo[x]

    def bound(self, h, n):
        """the loop with header h runs exactly n (a polynomial) times"""
        f, lp = self.f, self.loop[h]
        if loop_exits(f, lp) != {h}:
            return False
        k = ('trip', h)
        for s in f.blocks[h].succs:
            if s not in lp[1]:
                continue
            for a, pol in edge_literals(f, h, s):
                if a[0] not in ('lt', 'slt', 'eq') or a[0] == 'eq' and pol:
                    continue
                x, y = self.poly(a[1]), self.poly(a[2])
                if not pol and a[0] != 'eq':        # not x < y  =  y <= x: stays in the loop while y < x + 1
                    x, y = y, padd(x, {(): 1})
                d = padd(y, pscale(x, -1))
                # stay while d > 0 (d != 0); d = n*s - s*k
                cs = {}
                rest = {}
                for m, c in d.items():
                    if k in m:
                        cs[tuple(z for z in m if z != k) if m.count(k) == 1 else ('?',)] = -c
                    else:
                        rest[m] = c
                if not cs:
                    continue
                if rest == pmul(cs, n) or a[0] == 'eq' and pscale(rest, -1) == pmul(pscale(cs, -1), n):
                    return True
        return False


def execution(P, R):
    cq = 'oclgrind::Queue::'

    def F(c, n, i=0):
        b = ('fld', c, n)
        return sp(('load', b) if i == 0 else ('load', ('idx', b, C(i), 8)))
    # linear commands
    LIN = {'executeCopyBuffer': ('oclgrind::Memory::copy', ['dst', 'src', 'size']),
           'executeReadBuffer': ('oclgrind::Memory::load', ['ptr', 'address', 'size']),
           'executeWriteBuffer': ('oclgrind::Memory::store', ['ptr', 'address', 'size']),
           'executeMap': ('oclgrind::Context::notifyMemoryMap', [None, 'address', 'offset', 'size', 'flags']),
           'executeUnmap': ('oclgrind::Context::notifyMemoryUnmap', [None, 'address', 'ptr']),
           'executeKernel': ('oclgrind::KernelInvocation::run', ['kernel', 'work_dim', '&globalOffset', '&globalSize', '&localSize']),
           'executeNativeKernel': (None, ['args'])}
    for n, (op, want) in sorted(LIN.items()):
        f = P.one(cq + n)
        cmd = ('arg', pnames(f)[1])
        why, seen = None, 0
        for p in Flow(f).paths():
            es = ops(p, op, cmd)
            if p.end[0] != 'ret':
                why = why or 'the operation is in a loop'
                continue
            seen += 1
            if len(es) != 1:
                if want[-1:] == ['size'] and not es and known(p.lits, ('load', ('fld', cmd, 'size')), 0):
                    continue
                why = why or '%d operations are performed' % len(es)
                continue
            e = es[0]
            a = e[3] if op in (None, 'oclgrind::KernelInvocation::run') else e[3][1:]
            if op == 'oclgrind::KernelInvocation::run':
                if nz(a[0]) != ('load', ('fld', THIS, 'm_context')):
                    why = why or 'the kernel is run in another context'
                a = a[1:]
            elif op and not memory(e[3][0], op) or want[0] is None and not memory(a[0], ''):
                why = why or 'the operation is not performed on the global memory of the context'
            for x, w in zip(a, want):
                if w is None:
                    continue
                if w[0] == '&':
                    ok = [nz(p.at(e, p.flow.comp(x, i), 8)) for i in range(3)] == \
                        [nz(p.at(e, p.flow.comp(('fld', cmd, w[1:]), i), 8)) for i in range(3)] or nz(strip(x)) in (('fld', cmd, w[1:]), ('load', ('fld', cmd, w[1:])))
                else:
                    ok = poly(nz(widths(x))) == F(cmd, w) and not mentions(x, narrows)
                if not ok:
                    why = why or '%s of the operation is %s' % (w.strip('&'), S(nz(x)))
            if op is None and nz(e[4] if False else callee(e, p)) != ('load', ('fld', cmd, 'func')):
                why = why or 'the function of the request is not called'
        R.check(seen and not why, 'transfer', n, floc(f), why or 'nothing is executed', fn=f)
    # rectangles

    def lin3(base, off, k):
        return lambda c, t: padd(padd(F(c, base), F(c, off)), padd(pmul(t[0], F(c, off, 1)), pmul(t[1], F(c, off, 2))))
    rows = [lambda c: F(c, 'region', 1), lambda c: F(c, 'region', 2)]
    size = lambda c, t: F(c, 'region')

    def pixel(c, t):
        r = F(c, 'base')
        for i, n in enumerate(('pixelSize', 'rowPitch', 'slicePitch')):
            r = padd(r, pmul(padd(F(c, 'origin', i), t[i]), F(c, n)))
        return r
    RECT = {'executeCopyBufferRect': ('oclgrind::Memory::copy', rows, [lin3('dst', 'dst_offset', 0), lin3('src', 'src_offset', 0), size]),
            'executeReadBufferRect': ('oclgrind::Memory::load', rows, [lin3('ptr', 'host_offset', 0), lin3('address', 'buffer_offset', 0), size]),
            'executeWriteBufferRect': ('oclgrind::Memory::store', rows, [lin3('ptr', 'host_offset', 0), lin3('address', 'buffer_offset', 0), size]),
            'executeFillImage': ('oclgrind::Memory::store', [lambda c, i=i: F(c, 'region', i) for i in range(3)],
                                 [lambda c, t: F(c, 'color'), pixel, lambda c, t: F(c, 'pixelSize')]),
            'executeFillBuffer': ('oclgrind::Memory::store',
                                  [lambda c: sp(('udiv', ('load', ('fld', c, 'size')), ('load', ('fld', c, 'pattern_size'))))],
                                  [lambda c, t: F(c, 'pattern'), lambda c, t: padd(F(c, 'address'), pmul(t[0], F(c, 'pattern_size'))),
                                   lambda c, t: F(c, 'pattern_size')])}
    for n, (op, bounds, want) in sorted(RECT.items()):
        f = P.one(cq + n)
        R.check(*rectangle(P, f, op, bounds, want, n), fn=f)


def memory(e, op):
    e = nz(e)
    if op.startswith('oclgrind::Context::'):
        return e == ('load', ('fld', THIS, 'm_context'))
    return is_call(e, 'getGlobalMemory') and len(e) == 3 and nz(e[2]) == ('load', ('fld', THIS, 'm_context'))


def callee(e, p):
    i = e[1]
    return p.flow.f.expr(i.d['cv']) if 'cv' in i.d else C(0)


def ops(p, op, cmd):
    if op is None:
        return [e for e in p.events if e[0] == 'call' and e[2] is None]
    return [e for e in p.events if e[0] == 'call' and e[2] and (e[2] == op or re.match(r'oclgrind::Memory::(copy|load|store|atomic\w*)', e[2]) or
                                                                 e[2].startswith('oclgrind::Context::notify'))]


def rectangle(P, f, op, bounds, want, n):
    cmd = ('arg', pnames(f)[1])
    T = Trips(f)
    loc = floc(f)
    calls_ = [i for i in f.calls if i.callee and re.match(r'oclgrind::Memory::(copy|load|store|atomic\w*)', i.callee)]
    if len(calls_) != 1 or calls_[0].callee != op:
        return False, 'rectangle', n, loc, 'the operations are %s' % ', '.join(i.callee for i in calls_)
    c = calls_[0]
    lps = sorted((lp for lp in f.loops if c.blk.id in lp[1]), key=lambda l: len(l[1]))
    if len(lps) != len(bounds):
        return False, 'rectangle', n, loc, 'the operation is in %d loops' % len(lps)
    # which loop runs over which extent
    bs = [b(cmd) for b in bounds]
    pick = None
    for perm in permutations(range(len(lps))):
        if all(T.bound(lps[j][0], bs[i]) for i, j in enumerate(perm)):
            pick = perm
            break
    if pick is None:
        return False, 'rectangle', n, loc, 'the loops do not run over the extents of the region'
    # the operation happens in every iteration, and every loop is entered from the enclosing one
    inner = lps[0]
    if every_iteration(f, inner, [c]) is not None:
        return False, 'rectangle', n, loc, 'an iteration may skip the operation'
    for small, big in zip(lps, lps[1:]):
        if every_iteration(f, big, f.blocks[small[0]].insts[:1]) is not None:
            return False, 'rectangle', n, loc, 'an iteration may skip a row'
    for p in Flow(f).paths():
        if p.end[0] == 'ret' and lps[-1][0] not in p.blocks and \
                not any(known(p.lits, x, 0) for x in [nz(('load', ('fld', cmd, 'size')))] + [elem_(cmd, i) for i in range(3)]):
            return False, 'rectangle', n, loc, 'a path skips the transfer'
    if not memory(f.expr(c.args[0]), op):
        return False, 'rectangle', n, loc, 'the operation is not performed on the global memory of the context'
    raw = [f.expr(a) for a in c.args[1:]]
    if any(narrow(f, x) for x in raw):
        return False, 'rectangle', n, loc, 'an operand or a counter is truncated'
    got = [T.poly(x) for x in raw]
    trips = [{(('trip', lps[j][0]),): 1} for j in pick]
    for flip in product((0, 1), repeat=len(bs)):
        t = [padd(padd(b, {(): -1}), pscale(k, -1)) if fl else k for fl, b, k in zip(flip, bs, trips)]
        w = [x(cmd, t) for x in want]
        if [normal(x) for x in got] == [normal(x) for x in w]:
            return True, 'rectangle', n, loc, ''
    w = [x(cmd, trips) for x in want]
    bad = [i for i in range(len(w)) if normal(got[i]) != normal(w[i])]
    return False, 'rectangle', n, loc, 'operand %d is %s' % (bad[0], pshow(got[bad[0]]))


def elem_(c, i):
    b = ('fld', c, 'region')
    return ('load', b) if i == 0 else ('load', ('idx', b, C(i), 8))


def normal(q):
    return {tuple(sorted((nz(x) for x in m), key=repr)): c for m, c in q.items()}


def narrow(f, e, depth=0):
    """a truncation in the expression or in the update of an induction variable it uses"""
    seen = set()

    def go(x):
        if mentions(x, narrows):
            return True
        for y in walk(x):
            if y[0] == 'phi' and y not in seen:
                seen.add(y)
                i = f.insts.get(y[1])
                if i is not None and i.d.get('t') in ('i32', 'i16', 'i8') or i is not None and any(go(f.expr(v)) for v, b in i.args):
                    return True
        return False
    return go(e)


def walk(e):
    if isinstance(e, tuple):
        if e and isinstance(e[0], str):
            yield e
        for x in e:
            yield from walk(x)
