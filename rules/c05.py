"""C05: each MemCheck callback is analysed together with the check functions it calls (inlined).  For each of the seven
access callbacks the exact condition under which an error is logged is computed as a truth table over the branch
predicates and compared with the specification: always when the address/size pair is invalid, when the buffer's
flags forbid the access, and (global/constant memory) for every recorded mapped region that overlaps and conflicts.  The
recording and removal of mapped regions and the static-array-bound check are decided the same way.  Not covered:
the wording of the messages."""
from common import *
from truth import differ, A, AND, OR, NOT

TECHNIQUE = 'truth-table comparison of reaching conditions over the inlined checker callbacks'
TUS = ['MemCheck', 'Memory', 'Context']
OPTS = ('--extra-inline', 'MemCheck::check(Load|Store|ArrayAccess)|MemCheck::logInvalid')
MC = 'oclgrind::MemCheck::'


def errors(f):
    r = []
    err = None
    for c in calls(f, 'Context::logError'):
        r.append(c)
    for c in calls(f, 'Context::Message::send'):
        m = args(f, c)[0]
        for k in calls(f, 'Context::Message::Message'):
            a = args(f, k)
            if a[0] == m and len(a) > 1 and a[1] == C(err_type(f)):
                r.append(c)
    return r


def err_type(f):
    return enum_val(f.P, 'MessageType', 'ERROR')


def run(P, R):
    for f in P.fns.values():
        f.P = P
    ro, wo = 4, 2                                  # CL_MEM_READ_ONLY, CL_MEM_WRITE_ONLY
    local, private = enum_val(P, 'AddressSpace', 'AddrSpaceLocal'), enum_val(P, 'AddressSpace', 'AddrSpacePrivate')
    R.rule('invalid', 'an access is reported when, and only when not otherwise objectionable, isAddressValid rejects its '
           'own memory, address and size', 6)
    R.rule('permission', 'a read of a write-only and a write to a read-only buffer is reported, exactly', 6)
    R.rule('mapped', 'every recorded region that overlaps the access and conflicts with it leads to a report, for '
           'global and constant memory, exactly', 12)
    hooks = []
    for n, load in (('memoryLoad', True), ('memoryAtomicLoad', True), ('memoryStore', False),
                    ('memoryAtomicStore', False)):
        fs = P.get(MC + n)
        hooks += [(f, load) for f in fs]
    need(len(hooks) == 6 or len(hooks) == 7, 'expected the access callbacks of MemCheck, found %d' % len(hooks))
    wr = write_kind(P)
    for f, load in hooks:
        pn = {p.get('dn'): ('arg', p.get('dn')) for p in f.params}
        mem, addr, size = pn['memory'], pn['address'], pn['size']
        key = f.short + ('(%s)' % [p.get('dn') for p in f.params][2] if n else '')
        valid = A('true', ('call', 'oclgrind::Memory::isAddressValid', mem, addr, size))
        errs = errors(f)
        loop = [l for l in f.loops]
        if not R.check(bool(errs), 'invalid', key, floc(f), 'reports nothing', fn=f):
            continue
        hdr = [l[0] for l in loop]
        inloop = {b for l in loop for b in l[1]}
        out = [e for e in errs if e.blk.id not in inloop]
        ins = [e for e in errs if e.blk.id in inloop]
        buf = ('call', 'oclgrind::Memory::getBuffer', mem, addr)
        flg = A('ne0', ('and', fld(buf, 'flags'), C(wo if load else ro)))
        space = ('call', 'oclgrind::Memory::getAddressSpace', mem)
        w = differ(f, out, OR(NOT(valid), flg), stop=hdr, given=None)
        # split for a readable verdict
        w1 = differ(f, out, OR(NOT(valid)), stop=hdr, given=NOT(valid))
        R.check(w1 is None, 'invalid', key, out[0].loc() if out else floc(f), 'report of an invalid access: %s' % w1, fn=f)
        w2 = differ(f, out, flg, stop=hdr, given=valid)
        R.check(w2 is None, 'permission', key, out[0].loc() if out else floc(f), 'report of a forbidden access: %s' % w2, fn=f)
        # reaching the region loop
        if not R.check(len(loop) == 1 and bool(ins), 'mapped', key, floc(f), 'mapped regions are not examined', fn=f):
            continue
        h, body = loop[0][0], loop[0][1]
        glob = AND(NOT(A('eq', space, C(local))), NOT(A('eq', space, C(private))))
        w = differ(f, lambda path, end: end == ('stop', h) or h in path, glob, stop=[h], given=valid)
        R.check(w is None, 'mapped', key + ':reached', f.blocks[h].insts[-1].loc(), 'examination of mapped regions %s' % w,
                fn=f)
        # all elements: only the header leaves the loop
        exits = [b for b in body for s in f.blocks[b].succs if s not in body and not f.error_exit(s)]
        bs = [s for s in f.blocks[h].succs if s in body]
        R.check(exits == [h] or all(any(f.dominates_block(e.blk.id, b) for e in ins) for b in exits if b != h), 'mapped',
                key + ':all', f.blocks[h].insts[-1].loc(), 'stops before all regions were examined', fn=f)
        it = iteration_over(f, h, 'm_mapRegions')
        R.check(it is not None, 'mapped', key + ':list', f.blocks[h].insts[-1].loc(),
                'does not walk the whole list of mapped regions', fn=f)
        if bs and it is not None:
            ren = region_names(it)
            ra, rs, ro_, rt = ('sym', 'r.address'), ('sym', 'r.size'), ('sym', 'r.offset'), ('sym', 'r.type')
            start = add(ra, ro_)
            ov = AND(A('lt', addr, add(start, rs)), A('lt', start, add(addr, size)))
            e = AND(A('eq', rt, C(wr)), ov) if load else ov
            w = differ(f, ins, e, start=bs[0], stop=[h], ren=ren)
            R.check(w is None, 'mapped', key + ':overlap', ins[0].loc(), 'conflict report %s' % w, fn=f)
    # ------------------------------------------------------------ recording
    R.rule('record', 'a mapping is recorded with its address, offset, size, host pointer and kind, and forgotten at the '
           'unmap of that pointer', 8)
    f = P.one(MC + 'memoryMap')
    pb = [c for c in f.calls if (c.callee or '').split('::')[-1] in ('push_back', 'push_front', 'emplace_back') and
          mentions(args(f, c)[0], lambda x: x == ('fld', THIS, 'm_mapRegions'))]
    exactly_once(R, 'record', f, pb, 'remember the mapped region')
    a, o, s, fl, m = [('arg', x) for x in ('address', 'offset', 'size', 'flags', 'memory')]
    for c in pb:
        v = args(f, c)[1]
        got = {}
        for st in stores(f):
            d = f.expr(st.args[1])
            if d == v:
                got['address'] = st
            elif d[0] == 'fld' and d[1] == v:
                got[d[2]] = st
        want = {'address': a, 'offset': o, 'size': s,
                'ptr': ('call', 'oclgrind::Memory::getPointer', m, add(a, o))}
        for n, w in want.items():
            g = f.expr(got[n].args[0]) if n in got else None
            R.check(g is not None and same(g, w), 'record', n, c.loc(), 'recorded %s is %s' % (n, show(g, f) if g else 'unset'),
                    fn=f)
        t = got.get('type')
        good = False
        if t is not None:
            # a mapping that is not read-only must count as a write mapping
            vals = value_origins(f, t.args[0], t.blk.id)
            good = bool(vals)
            for v, fs, b in vals:
                w = ('and', fl, C(6))
                ro = has(fs, ('eq', fl, C(1))) or iszero(fs, w)
                rw = has(fs, ('eq', fl, C(1)), False) or nonzero(fs, w)
                good = good and (rw if nz(v) == C(wr) else ro)
        R.check(good, 'record', 'type', c.loc(), 'kind of mapping not derived from the map flags', fn=f)
    f = P.one(MC + 'memoryUnmap')
    er = [c for c in f.calls if (c.callee or '').split('::')[-1] in ('erase', 'remove', 'remove_if', 'pop_back', 'clear')]
    R.check(bool(er), 'record', 'unmap', floc(f), 'mapped regions are never forgotten', fn=f)
    for c in er:
        lp = f.loop_of(c.blk.id)
        h = f.loops[0][0] if f.loops else None
        it = iteration_over(f, h, 'm_mapRegions') if h is not None else None
        if not R.check(it is not None and c.callee.endswith('::erase'), 'record', 'unmap:list', c.loc(),
                       'does not look through all recorded regions', fn=f):
            continue
        ren = region_names(it)
        bs = [s for s in f.blocks[h].succs if s in f.loops[0][1]]
        w = differ(f, [c], A('eq', ('sym', 'r.ptr'), ('arg', 'ptr')), start=bs[0], stop=[h], ren=ren)
        R.check(w is None, 'record', 'unmap:which', c.loc(), 'forgetting a region %s' % w, fn=f)
        R.check(nz(args(f, c)[1]) == nz(it), 'record', 'unmap:it', c.loc(), 'forgets another region', fn=f)
    # ------------------------------------------------------------ array bounds
    R.rule('static-array', 'an index into an array type outside [0, size) in the address computation of an executed load or '
           'store is reported, exactly, for every index of every address computation in the chain', 5)
    f = P.one(MC + 'instructionExecuted')
    errs = errors(f)
    R.check(bool(errs), 'static-array', 'reports', floc(f), 'reports nothing', fn=f)
    arr = [c for c in f.calls if is_call(f.iexpr(c), 'Type::isArrayTy')]
    for e in errs:
        # index < number of elements, and possibly the sign of the index on its own
        good = neg = None
        for b in f.blocks:
            if b.term.op == 'br' and b.term.args:
                for at, p in literals(f.expr(b.term.args[0]), True) + literals(f.expr(b.term.args[0]), False):
                    if at[0] == 'lt' and is_call(nz(at[2]), 'Type::getArrayNumElements') and \
                            mentions(at[1], lambda x: is_call(x, 'TypedValue::getSInt')):
                        good = at
        for b in f.blocks:
            if good is not None and b.term.op == 'br' and b.term.args:
                for at, p in literals(f.expr(b.term.args[0]), True):
                    if at[0] == 'slt' and nz(at[1]) == nz(good[1]) and at[2] == C(0):
                        neg = at
        R.check(good is not None, 'static-array', 'bound', e.loc(),
                'report not tied to index >= number of elements (unsigned)', fn=f)
        lp = f.loop_of(e.blk.id)
        if not R.check(lp is not None, 'static-array', 'loop', e.loc(), 'not all indices are examined', fn=f):
            continue
        isarr = [x for x in (('true', nz(f.iexpr(c))) for c in arr)]
        bs = [s for s in f.blocks[lp[0]].succs if s in lp[1]]
        if good is not None and bs and isarr:
            w = differ(f, [e], AND(A('true', isarr[0][1]), NOT(A('lt', good[1], good[2]))), start=bs[0], stop=[lp[0]],
                       given=neg and NOT(AND(A('slt', neg[1], neg[2]), A('lt', good[1], good[2]))))
            R.check(w is None, 'static-array', 'when', e.loc(), 'report of a static array overrun %s' % w, fn=f)
        exits = {b for b in lp[1] for s in f.blocks[b].succs if s not in lp[1] and not f.error_exit(s)}
        R.check(exits == {lp[0]}, 'static-array', 'all-indices', e.loc(), 'stops before the last index', fn=f)
        # index operand is that of the loop iterator over idx_begin..idx_end
        R.check(any(is_call(x, 'GetElementPtrInst::idx_begin') for i in f.blocks[lp[0]].insts if i.op == 'phi'
                    for v, p_ in i.args for x in [f.expr(v)]), 'static-array', 'from-first', e.loc(),
                'does not start at the first index', fn=f)
    dc = {c.callee for c in f.calls if 'dyn_cast' in (c.callee or '')}
    for cl, w in (('LoadInst', 'load'), ('StoreInst', 'store')):
        R.check(any('<llvm::%s,' % cl in x for x in dc) and any((c.callee or '') == 'llvm::%s::getPointerOperand' % cl
                                                                for c in f.calls), 'static-array', w, floc(f),
                'the address of a %s is not examined' % w, fn=f)
    R.check(len(f.loops) >= 2 and any('<llvm::GetElementPtrInst,' in x for x in dc) and
            any((c.callee or '').endswith('GetElementPtrInst::getPointerOperand') and f.loop_of(c.blk.id) for c in f.calls),
            'static-array', 'chain', floc(f), 'the chain of address computations is not followed', fn=f)
    # the registers that feed the checks
    R.rule('invoked', 'MemCheck overrides every access callback that the context delivers', 1)
    names = {f.qual.split('::')[-1] for f in P.fns.values() if f.qual.startswith(MC)}
    for n in ('memoryLoad', 'memoryStore', 'memoryAtomicLoad', 'memoryAtomicStore', 'memoryMap', 'memoryUnmap',
              'instructionExecuted'):
        cnt = len(P.get(MC + n)) if n in names else 0
        R.check(cnt >= (2 if n in ('memoryLoad', 'memoryStore') else 1), 'invoked', n, 'src/plugins/MemCheck.h',
                'callback %s is not implemented for every issuer' % n)


def write_kind(P):
    """the value that marks a mapping which is not read-only"""
    f = P.one(MC + 'memoryMap')
    for st in stores(f):
        d = f.expr(st.args[1])
        if d[0] == 'fld' and d[2] == 'type':
            for v, fs, b in value_origins(f, st.args[0], st.blk.id):
                if has(fs, ('eq', ('arg', 'flags'), C(1)), False) and nz(v)[0] == 'c':
                    return nz(v)[1]
    return 1


def iteration_over(f, h, member):
    """expression of the iterator of a loop that walks this->member completely"""
    lst = ('fld', THIS, member)
    for i in f.blocks[h].insts:
        if i.op != 'phi':
            continue
        vs = [nz(f.expr(v)) for v, _ in i.args]
        me = ('phi', i.id)
        start = [v for v in vs if v in (('load', lst), ('load', ('fld', lst, '_M_next'))) or
                 mentions(v, lambda x: x == lst)]
        step = [v for v in vs if v == ('load', me) or v == ('load', ('fld', me, '_M_next'))]
        if len(start) == 1 and len(step) == len(vs) - 1 and step:
            c = f.edge_cond(h, f.blocks[h].succs[0])
            if c and c[0] == 'br':
                a, _ = literal(f.expr(c[1]))
                if a[0] == 'eq' and {repr(nz(a[1])), repr(nz(a[2]))} >= {repr(me), repr(lst)}:
                    return me
    return None


def region_names(it):
    first = 'r.address'

    def ren(e):
        if e[0] == 'load' and isinstance(e[1], tuple):
            x = e[1]
            if x[0] == 'fld' and x[1] == it:
                return first
            if x[0] == 'fld' and x[1][0] == 'fld' and x[1][1] == it:
                return 'r.' + x[2]
        return None
    return ren
