"""C01: host memory behind a simulated allocation is touched only after the
exact (address, size) was validated."""
from common import *

TUS = ['Memory', 'WorkItem', 'WorkItemBuiltins', 'WorkGroup', 'Kernel', 'KernelInvocation', 'Context', 'Queue',
       'RaceDetector', 'MemCheck', 'Uninitialized', 'InteractiveDebugger', 'runtime', 'Simulation']
MEM = 'oclgrind::Memory'
ASSUMPTIONS = ['every consumer outside Memory.cpp reaches backing storage only through the members of class Memory '
               '(Buffer and m_memory are private; Memory::getBuffer/getPointer/mapBuffer hand out validated pointers)']


def is_buf_index(e, A=None):
    """e selects the slot of an address: extractBuffer(this, A)"""
    e = nz(e)
    if is_call(e, 'Memory::extractBuffer'):
        return e[3]
    if e[0] == 'lshr' and e[2] == fld(THIS, 'm_numBitsAddress'):
        return e[1]
    return None


def is_offset(e):
    e = nz(e)
    if is_call(e, 'Memory::extractOffset'):
        return e[3]
    if e[0] == 'and':
        for x, y in ((e[1], e[2]), (e[2], e[1])):
            if y == ('lshr', C(-1), fld(THIS, 'm_numBitsBuffer')):
                return x
    return None


def slot_of(buf):
    """index expr when buf is this->m_memory[index]"""
    buf = nz(buf)
    if buf[0] == 'load' and buf[1][0] == 'ptr' and buf[1][1] == fld(THIS, 'm_memory'):
        return buf[1][2]
    return None


def valid(fs, A, size):
    """facts establish isAddressValid(this, A, size)"""
    for a, p in fs:
        if p and a[0] == 'true' and is_call(a[1], 'Memory::isAddressValid'):
            x = nz(a[1])
            if same(x[3], A) and (size is None or same(x[4], size)):
                return True
    return False


def run(P, R):
    fns = methods(P, MEM)
    need(len(fns) >= 20, 'class Memory has only %d methods' % len(fns))
    v = P.one(MEM + '::isAddressValid')
    A, SZ = arg(v.params[1].get('dn')), arg(v.params[2].get('dn'))
    # ---- the validator itself
    R.rule('validator', 'isAddressValid answers true only when the slot is non-zero, within the table, occupied, '
           'and offset+size lies within the recorded buffer size without wrap-around', 1)
    for val, fs, b in ret_values(v):
        if nz(val) == C(0):
            continue
        if nz(val)[0] != 'c':
            fs = fs | frozenset(literals(val, True))
        msgs = []
        idx = None
        for a, p in fs:
            if a[0] == 'eq' and not p and nz(a[2]) == C(0) and is_buf_index(a[1]) == A:
                idx = nz(a[1])
        if idx is None:
            msgs.append('slot 0 (NULL) is not rejected')
        else:
            n = [a for a, p in fs if a[0] == 'lt' and p and nz(a[1]) == idx and 'm_memory' in show(a[2]) and
                 nz(a[2])[0] == 'sdiv']
            if not n:
                msgs.append('slot index is not compared with the number of buffers')
            bufs = [nz(a[1]) for a, p in fs if a[0] == 'eq' and not p and nz(a[2]) == C(0) and slot_of(a[1]) == idx]
            if not bufs:
                msgs.append('empty slot is not rejected')
            buf = ('load', ('ptr', fld(THIS, 'm_memory'), idx, None))
            offs = set()
            for a, p in fs:
                for x in subexprs(nz_atom(a)):
                    if isinstance(x, tuple) and x and x[0] in ('call', 'and') and is_offset(x) == A:
                        offs.add(x)
            r = None
            for o in offs:
                r = inside(fs, o, SZ, ('load', buf))
                if r:
                    break
            if r is None:
                msgs.append('offset+size is not compared with the buffer size')
            elif r == 'wraps':
                msgs.append('offset+size may wrap around before it is compared with the buffer size')
        R.check(not msgs, 'validator', 'isAddressValid', '%s:%s' % (v.relfile(), v.line),
                'returns true although ' + '; '.join(msgs), fn=v)
    # ---- address splitting
    R.rule('split', 'an address is split into slot (high bits) and offset (low bits) by complementary widths, and '
           'allocations build addresses with the same width', 3)
    eb, eo = P.one(MEM + '::extractBuffer'), P.one(MEM + '::extractOffset')
    for f, pred, what in ((eb, is_buf_index, 'high bits'), (eo, is_offset, 'low bits')):
        a = arg(f.params[1].get('dn'))
        for val, fs, b in ret_values(f):
            R.check(pred(val) == a, 'split', f.short, '%s:%s' % (f.relfile(), f.line),
                    'does not return the %s of the address: %s' % (what, show(nz(val), f)), fn=f)
    ct = P.one(MEM + '::Memory')
    fields = {}
    for s in stores(ct):
        d = nz(ct.expr(s.args[1]))
        if d[0] == 'fld' and d[1] == THIS:
            fields[d[2]] = nz(ct.expr(s.args[0]))
    bits = fields.get('m_numBitsBuffer')
    W = fields.get('m_numBitsAddress')
    Wok = W is not None and bits is not None and poly(W) in (
        padd({(): 64}, pscale(poly(bits), -1)), padd({(): 64}, pscale(poly(fld(THIS, 'm_numBitsBuffer')), -1)))
    R.check(Wok, 'split', 'ctor-widths', '%s:%s' % (ct.relfile(), ct.line),
            'slot width and offset width do not add up to 64 bits', fn=ct)
    # ---- allocations
    R.rule('alloc', 'an allocation records the requested size, owns storage of that size, is refused when the size '
           'exceeds the offset range or the table is full, and its address names its own slot', 2)
    for name in ('allocateBuffer', 'createHostBuffer'):
        f = P.one(MEM + '::' + name)
        loc = '%s:%s' % (f.relfile(), f.line)
        sz = arg('size')
        oks = [(val, fs) for val, fs, b in ret_values(f) if nz(val) != C(0)]
        msgs = [] if oks else ['never succeeds']
        for val, fs in oks:
            val = nz(val)
            if not (val[0] == 'shl' and val[2] == fld(THIS, 'm_numBitsAddress')):
                msgs.append('address is not slot << offset-width: ' + show(val, f))
                continue
            if not is_call(val[1], 'Memory::getNextBuffer'):
                msgs.append('slot does not come from getNextBuffer')
            if not atmost(fs, sz, fld(THIS, 'm_maxBufferSize')):
                msgs.append('size above the offset range is accepted')
            if not below(fs, val[1], fld(THIS, 'm_maxNumBuffers')):
                msgs.append('slot beyond the table limit is accepted')
        rec = {}
        news = []
        for s in stores(f):
            d = nz(f.expr(s.args[1]))
            src = nz(f.expr(s.args[0]))
            r0 = root(d)
            if is_call(r0, 'operator new'):
                rec[d[2] if d[0] == 'fld' else 'size'] = src
            if is_call(r0, 'operator new') is False and d[0] == 'ptr' and d[1] == fld(THIS, 'm_memory'):
                news.append((d[2], src))
        if not same(rec.get('size', C(-7)), sz):
            msgs.append('recorded size is not the requested size')
        if not same(rec.get('flags', C(-7)), arg('flags')):
            msgs.append('recorded flags are not the requested flags')
        data = rec.get('data')
        if name == 'allocateBuffer':
            if data is None or not is_call(data, 'operator new[]') or not same(data[2], sz):
                msgs.append('storage is not a fresh block of the requested size')
        elif data != arg('ptr'):
            msgs.append('storage is not the caller\'s block')
        for i, src in news:
            if not is_call(i, 'Memory::getNextBuffer') or not is_call(src, 'operator new'):
                msgs.append('buffer stored at the wrong slot')
        if not news:
            msgs.append('buffer is not stored at a reused slot')
        pb = [c for c in f.calls if (c.callee or '').endswith('::push_back')]
        if not pb:
            msgs.append('buffer is not appended to the table')
        R.check(not msgs, 'alloc', name, loc, '; '.join(msgs), fn=f)
    f = P.one(MEM + '::deallocateBuffer')
    R.rule('dealloc', 'a deallocated slot becomes empty (so its addresses become invalid) before it can be reused, '
           'and only storage the simulator owns is deleted', 1)
    msgs = []
    clr = [s for s in stores(f) if nz(f.expr(s.args[0])) == C(0) and
           nz(f.expr(s.args[1]))[0] == 'ptr' and nz(f.expr(s.args[1]))[1] == fld(THIS, 'm_memory') and
           is_buf_index(nz(f.expr(s.args[1]))[2]) == arg('address')]
    if not clr or always(f, clr):
        msgs.append('slot is not emptied on every path')
    for d in calls(f, 'operator delete[]'):
        e = nz(args(f, d)[0])
        if not mentions(e, lambda x: x[0] == 'fld' and x[2] == 'data'):
            continue
        fs = facts(f, d.blk.id)
        if not any(((a[0] == 'eq' and p and nz(a[2]) == C(0)) or (a[0] == 'true' and not p)) and nz(a[1])[0] == 'and'
                   and C(8) in nz(a[1]) and 'flags' in show(a[1]) for a, p in fs):
            msgs.append('storage is deleted although it may belong to the host program')
    R.check(not msgs, 'dealloc', 'deallocateBuffer', '%s:%s' % (f.relfile(), f.line), '; '.join(msgs), fn=f)
    # ---- every touch
    R.rule('touch', 'each read, write, copy or hand-out of backing storage happens under the validated fact for '
           'exactly its own address and size', 8)
    R.rule('answer', 'the failing path of an access answers with a failure value and performs no write', 6)
    skip = {'allocateBuffer', 'createHostBuffer', 'clear', 'deallocateBuffer', 'dump', 'isAddressValid', 'Memory',
            '~Memory'}
    ACCESS = {'load', 'store', 'copy', 'getPointer', 'mapBuffer', 'atomic', 'atomicCmpxchg', 'getBuffer'}
    for f in fns:
        base = f.short.split('<')[0]
        if base in skip:
            continue
        touched = []      # (inst, pointer expr, size expr)
        for i in mem_intrinsics(f):
            a = args(f, i)
            touched.append((i, a[0], a[2]))
            if i.callee.startswith(MEMCPY):
                touched.append((i, a[1], a[2]))
        for i in stores(f):
            touched.append((i, f.expr(i.args[1]), C(size_of(i.d.get('vt')))))
        for i in loads(f):
            touched.append((i, f.expr(i.args[0]), C(size_of(i.d.get('t')))))
        for i, p, sz in touched:
            ck(R, f, i, p, sz)
        # handed-out pointers
        if f.d.get('ret', '').startswith('ptr') or f.short in ('getPointer', 'mapBuffer'):
            for val, fs, b in ret_values(f):
                val = nz(val)
                if val == C(0):
                    continue
                fs = nn(fs)
                if f.short == 'mapBuffer':
                    want = add(arg('address'), arg('offset'))
                    sz = arg('size')
                elif f.short == 'getPointer':
                    want, sz = arg('address'), None
                else:
                    continue
                r0, off = byteoff(val)
                ok = False
                if r0[0] == 'load' and r0[1][0] == 'fld' and r0[1][2] == 'data':
                    idx = slot_of(r0[1][1])
                    for a, p in fs:
                        if p and a[0] == 'true' and is_call(a[1], 'Memory::isAddressValid'):
                            x = nz(a[1])
                            # validated range [x3, x3+x4) must cover [want, want+sz)
                            if poly(x[3]) == poly(nz(want)) and (sz is None or same(x[4], sz)):
                                ok = True
                            elif poly(x[3]) == poly(arg('address')) and sz is not None and same(x[4], add(arg('offset'), sz)):
                                ok = 'wrap'
                    if ok and idx is not None and is_buf_index(idx) not in (want, arg('address')):
                        ok = False
                R.check(ok is True or ok == 'wrap', 'touch', f.short, '%s:%s' % (f.relfile(), f.blocks[b].term.line),
                        'hands out a host pointer without validating the whole requested range', fn=f)
        # failure answers
        if base in ACCESS and base not in ('getBuffer',):
            for val, fs, b in ret_values(f):
                failed = any(a[0] == 'true' and not p and is_call(a[1], 'Memory::isAddressValid') for a, p in fs)
                if failed:
                    R.check(nz(val) == C(0), 'answer', f.short, '%s:%s' % (f.relfile(), f.blocks[b].term.line),
                            'an access that failed validation answers %s' % show(nz(val), f), fn=f)
            if base in ('load', 'store', 'copy'):
                for val, fs, b in ret_values(f):
                    if nz(val) == C(0) and not any(a[0] == 'true' and not p and is_call(a[1], 'Memory::isAddressValid')
                                                   for a, p in fs):
                        R.bad('answer', f.short, '%s:%s' % (f.relfile(), f.line),
                              'a validated access answers failure', f)
    consumers(P, R)
    # getBuffer: non-null answer only for an occupied slot in range
    f = P.one(MEM + '::getBuffer')
    R.rule('lookup', 'getBuffer answers an occupied in-range slot only, and never dereferences an empty one', 1)
    A = arg(f.params[1].get('dn'))
    for val, fs, b in ret_values(f):
        if nz(val) == C(0):
            continue
        idx = slot_of(val)
        msgs = []
        if idx is None or is_buf_index(idx) != A:
            msgs.append('returns something other than the slot of the address')
        else:
            if not nonzero(fs, idx):
                msgs.append('slot 0 is accepted')
            if not any(a[0] == 'lt' and p and nz(a[1]) == idx and nz(a[2])[0] == 'sdiv' for a, p in fs):
                msgs.append('slot index is not compared with the number of buffers')
        R.check(not msgs, 'lookup', 'getBuffer', '%s:%s' % (f.relfile(), f.line), '; '.join(msgs), fn=f)
    for i in loads(f):
        p = nz(f.expr(i.args[0]))
        if root(p) != p and slot_of(root(p)) is not None or (p[0] == 'load' and slot_of(p) is not None):
            R.check(nonzero(facts(f, i.blk.id), root(p)), 'lookup', 'getBuffer-null', i.loc(),
                    'dereferences a slot that may be empty (a freed buffer)', fn=f)


def nn(fs):
    return fs


def size_of(t):
    if t is None:
        return -1
    if t.startswith('i') and t[1:].isdigit():
        return max(1, int(t[1:]) // 8)
    return {'ptr': 8, 'float': 4, 'double': 8, 'half': 2}.get(t, -1)


def ck(R, f, i, p, sz):
    p = nz(p)
    r0, off = byteoff(p)
    if not (r0[0] == 'load' and r0[1][0] == 'fld' and r0[1][2] == 'data' and slot_of(r0[1][1]) is not None):
        return
    idx = slot_of(r0[1][1])
    A = is_buf_index(idx)
    msgs = []
    if A is None:
        msgs.append('slot is not derived from an address')
    else:
        mons = list(off.items())
        if len(mons) != 1 or mons[0][1] != 1 or len(mons[0][0]) != 1 or is_offset(mons[0][0][0]) != A:
            msgs.append('offset is not the offset of the same address: %s' % pshow(off))
        if not valid(facts(f, i.blk.id), A, sz):
            msgs.append('not under a successful isAddressValid(%s, %s)' % (show(A, f), show(nz(sz), f)))
    R.check(not msgs, 'touch', f.short, i.loc(), 'backing storage touched: ' + '; '.join(msgs),
            what='%s %s' % (f.short, i.loc()), fn=f)


OUTSIDE = {
    # function -> reason why its use of an unvalidated host pointer is bounded
    'RaceDetector::memoryAtomicStore': 'registerAccess re-validates (address, size) before the pointer is read',
    'MemCheck::memoryMap': 'the pointer is only an identity for the later unmap',
    '::clEnqueueNativeKernel': 'native kernels are given the host address of a whole buffer by definition',
    'WorkItem::printExpression': 'allocas and globals are allocations of the simulator itself',
}


def consumers(P, R):
    R.rule('consumer', 'outside class Memory a host pointer or buffer record is dereferenced only after the range was '
           'validated', 4)
    for f in P.fns.values():
        if f.qual.startswith(MEM + '::'):
            continue
        for i in calls(f, 'Memory::getPointer', 'Memory::getBuffer'):
            fs = facts(f, i.blk.id)
            a = args(f, i)
            e = f.iexpr(i)
            name = '::'.join((['', f.qual] if '::' not in f.qual else f.qual.split('::'))[-2:])
            okv = any(p and x[0] == 'true' and is_call(x[1], 'Memory::isAddressValid') and
                      nz(x[1])[2] == nz(a[0]) and covers(nz(x[1])[3], nz(a[1])) for x, p in fs)
            if not okv and i.callee.endswith('getBuffer'):
                # every use of the record must be behind a null check
                us = [u for u in f.all() if u.op in ('load', 'store') and u.blk.id in f.idom and
                      root(f.expr(u.args[0 if u.op == 'load' else 1])) == e]
                okv = all(nonzero(facts(f, u.blk.id), e) for u in us)
            R.check(okv or name in OUTSIDE and i.callee.endswith('getPointer'), 'consumer', name, i.loc(),
                    '%s result used without validating the accessed range' % i.callee, what=name + ' ' + i.loc(), fn=f)


def covers(x, a):
    """validated address x is a plus (possibly zero) subscript offset"""
    px, pa = poly(x), poly(a)
    d = padd(px, pscale(pa, -1))
    return all(c > 0 for c in d.values())
