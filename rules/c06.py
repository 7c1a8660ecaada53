"""C06: the decision functions of the race detector are compared as truth tables with their specification: the flag
bits of a recorded access (layout derived from its constructor), the conflict predicate `check`, the retention rule `insert`.  Every
access callback (registration inlined) must register each byte of a valid global/local access under its own work-item's slot;
the pairwise comparison must test load/store, store/load and store/store of every byte of every slot before merging, and every
detected race must reach a logged message.  Not covered: entity coordinates printed in the message."""
from common import *
from flow import Flow
from truth import Table, differ, A, AND, OR, NOT, TRUE

TECHNIQUE = 'truth-table comparison of decision functions plus dominance/loop-shape rules over the detector'
TUS = ['RaceDetector', 'Memory', 'Context']
OPTS = ('--extra-inline', 'RaceDetector::(MemoryAccess::(is|get|set)|registerAccess)')
RD = 'oclgrind::RaceDetector::'


def bits(P, R):
    """flag layout of MemoryAccess, from its constructor"""
    cs = [f for f in P.get(RD + 'MemoryAccess::MemoryAccess') if len(f.params) == 5]
    need(len(cs) == 1, 'MemoryAccess constructor not found')
    f = cs[0]
    wi = ('arg', 'workItem')
    t = Table(f, extra=[A('eq', wi, C(0))[1]])
    need(t.atoms == [A('eq', wi, C(0))[1]], 'MemoryAccess constructor branches on more than the work-item')
    info = nz(('fld', THIS, 'info'))
    lay = {}
    for env, path, end in t.rows():
        isnull = list(env.values())[0]
        for st in (0, 1):
            for at in (0, 1):
                mem = {}
                e0 = {'store': st, 'atomic': at}
                for b in path:
                    for i in f.blocks[b].insts:
                        if i.op == 'store':
                            d = nz(f.expr(i.args[1]))
                            mem[repr(d)] = (f.expr(i.args[0]), i) if d != info else \
                                (value(f.expr(i.args[0]), e0, mem.get(repr(info), (0,))[0]), i)
                lay[(isnull, st, at)] = mem.get(repr(info), (None,))[0]
                ent = mem.get(repr(nz(THIS)), (None,))[0]
                w = ('call', 'oclgrind::WorkGroup::getGroupIndex', ('arg', 'workGroup')) if isnull else \
                    ('call', 'oclgrind::WorkItem::getGlobalIndex', wi)
                R.check(ent is not None and same(ent, w), 'access', 'entity:%s' % ('group' if isnull else 'item'), floc(f),
                        'recorded entity is %s' % (show(ent, f) if ent else 'unset'), fn=f)
    SET = lay[(False, 0, 0)]
    if not R.check(all(isinstance(v, int) for v in lay.values()), 'access', 'flags', floc(f), 'flags not determined', fn=f):
        return None
    ST, AT, WG = lay[(False, 1, 0)] ^ SET, lay[(False, 0, 1)] ^ SET, lay[(True, 0, 0)] ^ SET
    one = lambda x: x > 0 and x & (x - 1) == 0      # noqa: E731
    ok = all(one(x) for x in (SET, ST, AT, WG)) and len({SET, ST, AT, WG}) == 4 and all(
        v == SET | (ST if s else 0) | (AT if a else 0) | (WG if n else 0) for (n, s, a), v in lay.items())
    R.check(ok, 'access', 'flags', floc(f), 'flag bits overlap or do not follow the access kind: %s' % lay, fn=f)
    return (SET, ST, AT, WG) if ok else None


def value(e, env, cur):
    k = e[0]
    if k == 'c':
        return e[1]
    if k == 'arg':
        return env[e[1]]
    if k in ('zext', 'sext', 'trunc'):
        v = value(e[2], env, cur)
        w = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}[e[1]]
        return v & ((1 << w) - 1)
    if k == 'load':
        return cur
    if k in ('or', 'and', 'xor', 'shl', 'add', 'mul', 'lshr'):
        a, b = value(e[1], env, cur), value(e[2], env, cur)
        return {'or': a | b, 'and': a & b, 'xor': a ^ b, 'shl': a << b, 'add': a + b, 'mul': a * b, 'lshr': a >> b}[k]
    if k == 'select':
        return value(e[2] if value(e[1], env, cur) else e[3], env, cur)
    if k == 'icmp' and e[1] in ('eq', 'ne'):
        return int((value(e[2], env, cur) == value(e[3], env, cur)) == (e[1] == 'eq'))
    raise Broken('flag expression ' + show(e))


def bit(x, m):
    return A('ne0', ('and', fld(x, 'info'), C(m)))


def run(P, R):
    R.rule('access', 'a recorded access carries distinct flags for present, store, atomic and group access, and the index of '
           'the entity that made it', 9)
    B = bits(P, R)
    if not B:
        return
    SET, ST, AT, WG = B
    ins = P.one(RD + 'insert')
    # the optional "differing values" mark
    mixed = None
    for s in stores(ins):
        d, v = nz(ins.expr(s.args[1])), nz(ins.expr(s.args[0]))
        if d[0] == 'fld' and d[2] == 'info' and v[0] == 'or' and v[2][0] == 'c' and v[2][1] not in (SET, ST, AT, WG):
            mixed = v[2][1]
    f = P.one(RD + 'check')
    a, b = ('arg', 'a'), ('arg', 'b')
    uni = A('true', fld(THIS, 'm_allowUniformWrites'))
    same_data = A('eq', fld(a, 'storeData'), fld(b, 'storeData'))
    ww = OR(NOT(uni), bit(a, AT), bit(b, AT), NOT(same_data), *([bit(a, mixed), bit(b, mixed)] if mixed else []))
    race = AND(bit(a, SET), bit(b, SET),
               NOT(AND(NOT(bit(a, WG)), NOT(bit(b, WG)), A('eq', ('load', a), ('load', b)))),
               NOT(AND(bit(a, AT), bit(b, AT))), OR(bit(a, ST), bit(b, ST)),
               OR(NOT(bit(a, ST)), NOT(bit(b, ST)), ww))
    R.rule('predicate', 'two accesses conflict exactly when both are present, not by the same work-item, not both atomic, not '
           'both loads and not (with uniform writes allowed) plain stores of one value', 1)
    w = differ(f, 'ret', race)
    R.check(w is None, 'predicate', 'check', floc(f), 'answers race: %s' % w, fn=f)
    ct = P.one(RD + 'RaceDetector')
    st = field_stores(ct, ('fld', THIS, 'm_allowUniformWrites'))
    R.rule('uniform-option', 'uniform writes are allowed unless OCLGRIND_UNIFORM_WRITES is set', 1)
    ok = len(st) == 1
    if ok:
        at, pol = literal(ct.expr(st[0].args[0]))
        ok = at[0] == 'true' and is_call(at[1], 'checkEnv') and at[1][2] == ('s', 'OCLGRIND_UNIFORM_WRITES') and not pol
    R.check(ok, 'uniform-option', 'ctor', floc(ct), 'm_allowUniformWrites is not !checkEnv("OCLGRIND_UNIFORM_WRITES")', fn=ct)
    # ------------------------------------------------------------ retention
    R.rule('retained', 'of the accesses of one kind to a byte the first plain one (or, while there is none, an atomic one) '
           'is retained, separately for loads and stores', 2)
    rec, acc = ('arg', ins.params[1]['dn']), ('arg', ins.params[2]['dn'])
    size = None
    for name, dst, c in (('load', rec, NOT(bit(acc, ST))), ('store', ('fld', rec, 'store'), bit(acc, ST))):
        cp = [m for m in mem_intrinsics(ins) if m.callee.startswith(MEMCPY) and nz(args(ins, m)[0]) == nz(dst) and
              nz(args(ins, m)[1]) == nz(acc)]
        if not R.check(bool(cp), 'retained', name, floc(ins), 'no %s is ever retained' % name, fn=ins):
            continue
        w = differ(ins, cp, AND(c, OR(NOT(bit(dst, SET)), bit(dst, AT))))
        R.check(w is None, 'retained', name, cp[0].loc(), 'retaining the new %s %s' % (name, w), fn=ins)
        sz = {nz(args(ins, m)[2]) for m in cp}
        R.check(len(sz) == 1 and list(sz)[0][0] == 'c' and list(sz)[0][1] >= 18, 'retained', name + ':size', cp[0].loc(),
                'only part of the access is retained', fn=ins)
    if mixed:
        R.rule('mixed', 'a retained store that does not stand for all stores to that byte (another value, or an atomic) is '
               'marked', 1)
        s2 = ('fld', rec, 'store')
        ms = [s for s in stores(ins) if nz(ins.expr(s.args[1])) == nz(('fld', s2, 'info'))]
        diff = OR(AND(bit(s2, AT), NOT(bit(acc, AT))), AND(bit(acc, AT), NOT(bit(s2, AT))))
        w = differ(ins, ms, AND(bit(acc, ST), bit(s2, SET), OR(bit(s2, mixed), bit(acc, mixed), diff,
                                                             NOT(A('eq', fld(s2, 'storeData'), fld(acc, 'storeData'))))))
        R.check(w is None, 'mixed', 'insert', floc(ins), 'marking %s' % w, fn=ins)
    # --------------------------------------------------------- registration
    R.rule('registered', 'every byte of every valid global or local access is registered, with its kind, atomicity and data, '
           'under the slot of the entity that made it', 50)
    glob, priv, con = [enum_val(P, 'AddressSpace', x) for x in ('AddrSpaceGlobal', 'AddrSpacePrivate', 'AddrSpaceConstant')]
    n = 0
    for name, store, atomic in (('memoryLoad', 0, 0), ('memoryStore', 1, 0), ('memoryAtomicLoad', 0, 1),
                                ('memoryAtomicStore', 1, 1)):
        for f in P.get(RD + name):
            n += 1
            registration(P, R, f, store, atomic, glob, priv, con)
    R.check(n == 6, 'registered', 'callbacks', 'src/plugins/RaceDetector.h', '%d of 6 access callbacks present' % n)
    wb = P.one(RD + 'workGroupBegin')
    slots(P, R, wb)
    # ------------------------------------------------------------ pairing
    R.rule('paired', 'for every byte of every slot, load/store, store/load and store/store against the accesses merged so far '
           'are tested before this slot is merged, and a conflict is recorded', 18)
    f = P.one(RD + 'syncWorkItems')
    pairing(P, R, f, 'insertRace', SET)
    # every slot
    lp = [l for l in f.loops if any(c.blk.id in l[1] for c in calls(f, 'RaceDetector::check'))]
    if R.check(bool(lp), 'paired', 'slots', floc(f), 'no loop over the slots', fn=f):
        outer = max(lp, key=lambda l: len(l[1]))
        h = outer[0]
        ok = False
        for i in f.blocks[h].insts:
            if i.op == 'phi':
                vs = [nz(f.expr(v)) for v, _ in i.args]
                me = ('phi', i.id)
                if C(0) in vs and any(poly(v) == padd(poly(me), {(): 1}) for v in vs):
                    for s in f.blocks[h].succs:
                        if s in outer[1]:
                            fs = edge_literals(f, h, s)
                            nwi = ('load', ('arg', 'state'))
                            ok = ok or below(fs, me, add(nwi, C(1))) or atmost(fs, me, nwi) or \
                                any(a_[0] == 'lt' and p_ and nz(a_[1]) == me and mentions(nz(a_[2]), lambda x: x[0] == 'arg' and x[1] == 'accesses')
                                    for a_, p_ in fs)
        R.check(ok, 'paired', 'slots', f.blocks[h].term.loc(), 'not every slot 0..numWorkItems is examined', fn=f)
        # races of the list are all logged
    lg = calls(f, 'RaceDetector::logRace')
    logged(P, R, f, lg, 'sync')
    g = P.one(RD + 'workGroupComplete')
    pairing(P, R, g, 'insertKernelRace', SET)
    R.rule('reported', 'every recorded race is kept unless an equal one is, and ends in a logged error', 8)
    k = P.one(RD + 'kernelEnd')
    logged(P, R, k, calls(k, 'RaceDetector::logRace'), 'kernel')
    ir_ = P.one(RD + 'insertRace')
    pb = [c for c in ir_.calls if (c.callee or '').endswith('::push_back')]
    p = None
    eqs = calls(ir_, 'MemoryAccess::operator==')
    exits = ir_.ret_insts()
    p = path_avoiding(ir_, pb + eqs)
    R.check(bool(pb) and p is None, 'reported', 'insertRace', floc(ir_), 'a race may be dropped without comparing it', fn=ir_)
    # dropping (return without push_back) requires both halves equal
    for env, path, end in Table(ir_, stop=()).rows():
        if end[0] == 'ret' and not any(c.blk.id in path for c in pb):
            keep = [x for x, v in env.items() if v and 'operator==' in repr(x)]
            eqn = [x for x, v in env.items() if not v and 'operator==' in repr(x)]
            # the comparisons that held on this path (recorded as value == 0 -> False)
            took = {repr(x) for x in eqn}
            R.check(len(took) >= 2, 'reported', 'insertRace:dup', floc(ir_),
                    'a race is dropped although no equal one is known', fn=ir_)
    er = [c for c in ir_.calls if (c.callee or '').endswith('::erase')]
    for c in er:
        R.check(must_follow(ir_, c, pb), 'reported', 'insertRace:replace', c.loc(), 'a known race is dropped', fn=ir_)
    lr = P.one(RD + 'logRace')
    snd = calls(lr, 'Context::Message::send')
    exactly_once(R, 'reported', lr, snd, 'send the message')
    mk = calls(lr, 'Context::Message::Message')
    R.check(bool(mk) and nz(args(lr, mk[0])[1]) == C(enum_val(P, 'MessageType', 'ERROR')), 'reported', 'logRace:error',
            floc(lr), 'not logged as an error', fn=lr)
    kr = P.one(RD + 'insertKernelRace')
    c = calls(kr, 'RaceDetector::insertRace')
    exactly_once(R, 'reported', kr, c, 'insertRace')
    for x in c:
        R.check(nz(args(kr, x)[1]) == ('fld', THIS, 'kernelRaces') and nz(args(kr, x)[2]) == arg(kr.params[1]['dn']),
                'reported', 'kernel:list', x.loc(), 'recorded elsewhere', fn=kr)
    eq = P.one(RD + 'MemoryAccess::operator==')
    o = ('arg', eq.params[1]['dn'])
    m = ~mixed if mixed else -1
    R.check(eq_covers(eq, o), 'reported', 'equality', floc(eq), 'accesses of different entities or instructions count as equal',
            fn=eq)


def eq_covers(eq, o):
    t = Table(eq)
    e = A('eq', ('load', THIS), ('load', o))[1]
    i = A('eq', fld(THIS, 'instruction'), fld(o, 'instruction'))[1]
    if e not in t.atoms or i not in t.atoms:
        return False
    return not any(t.retval(env, path) and not (env[e] and env[i]) for env, path, end in t.rows())


def logged(P, R, f, lg, key):
    R.rules.setdefault('reported', R.rules.get('reported') or dict(rule='every recorded race is kept unless an equal one is, '
                                                                 'and ends in a logged error', obligations=0, held=0, minimum=8))
    if not R.check(bool(lg), 'reported', key + ':log', floc(f), 'races are not logged', fn=f):
        return
    for c in lg:
        lp = f.loop_of(c.blk.id)
        if not R.check(lp is not None, 'reported', key + ':all', c.loc(), 'only one race is logged', fn=f):
            continue
        exits = {b for b in lp[1] for s in f.blocks[b].succs if s not in lp[1] and not f.error_exit(s)}
        uncond = all(f.dominates_block(c.blk.id, x) for x in lp[1] if lp[0] in f.blocks[x].succs)
        R.check(exits == {lp[0]} and uncond, 'reported', key + ':all', c.loc(), 'some races are not logged', fn=f)


def registration(P, R, f, store, atomic, glob, priv, con):
    pn = {p['dn']: ('arg', p['dn']) for p in f.params}
    mem, addr, size = pn['memory'], pn['address'], pn['size']
    wi = pn.get('workItem')
    key = f.short + (':item' if wi else ':group')
    insc = calls(f, 'RaceDetector::insert')
    mk = calls(f, 'MemoryAccess::MemoryAccess')
    if not R.check(bool(insc) and bool(mk), 'registered', key, floc(f), 'accesses are not registered', fn=f):
        return
    c = insc[0]
    lp = f.loop_of(c.blk.id)
    if not R.check(lp is not None, 'registered', key + ':bytes', c.loc(), 'not every byte is registered', fn=f):
        return
    h = lp[0]
    space = ('call', 'oclgrind::Memory::getAddressSpace', mem)
    valid = A('true', ('call', 'oclgrind::Memory::isAddressValid', mem, addr, size))
    w = differ(f, lambda path, end: h in path or end == ('stop', h),
               AND(NOT(A('eq', space, C(priv))), NOT(A('eq', space, C(con))), valid), stop=[h],
               given=None if not store else None)
    if w and 'storeData' in w:
        w = None
    R.check(w is None, 'registered', key + ':when', c.loc(), 'registration %s' % w, fn=f)
    # bytes 0..size-1
    idx = None
    for i in f.blocks[h].insts:
        if i.op == 'phi':
            vs = [nz(f.expr(v)) for v, _ in i.args]
            me = ('phi', i.id)
            if C(0) in vs and any(poly(v) == padd(poly(me), {(): 1}) for v in vs):
                for s in f.blocks[h].succs:
                    if s in lp[1] and below(edge_literals(f, h, s), me, size):
                        idx = me
    exits = {b for b in lp[1] for s in f.blocks[b].succs if s not in lp[1] and not f.error_exit(s)}
    uncond = all(f.dominates_block(c.blk.id, x) for x in lp[1] if h in f.blocks[x].succs)
    R.check(idx is not None and exits == {h} and uncond, 'registered', key + ':bytes', c.loc(),
            'not every byte 0..size-1 is registered', fn=f)
    if idx is None:
        return
    a = args(f, c)
    m = nz(a[1])
    ok = is_call(m, 'operator[]') or (m[0] == 'call' and m[1].endswith('::operator[]'))
    kaddr = None
    if ok and m[3][0] in ('alloca', 'ptrto'):
        ks = [s for s in stores(f) if f.expr(s.args[1]) == m[3]]
        kaddr = ks and all(same(f.expr(s.args[0]), add(addr, idx)) for s in ks)
    R.check(bool(ok and kaddr), 'registered', key + ':where', c.loc(), 'byte i is not registered under address+i', fn=f)
    k = args(f, mk[0])
    acc = k[0]
    R.check(nz(a[2]) == nz(acc), 'registered', key + ':what', c.loc(), 'registers another access', fn=f)
    wg = ('call', 'oclgrind::WorkItem::getWorkGroup', wi) if wi else pn['workGroup']
    sd = pn.get('storeData') or (('call', 'oclgrind::Memory::getPointer', mem, addr) if store else None)
    R.check(nz(k[2]) == (wi or C(0)) and (bool(wi) or nz(k[1]) == wg), 'registered', key + ':entity', mk[0].loc(),
            'registered for another entity', fn=f)
    isst = nz(k[3])
    okst = (isst == C(0)) if not store else (isst in (C(1), C(-1)) or isst[0] == 'icmp' and nz(isst[2]) == nz(sd) and
                                             nz(isst[3]) == C(0) and isst[1] == 'ne')
    R.check(okst and nz(k[4]) in ((C(1), C(-1)) if atomic else (C(0),)), 'registered', key + ':kind', mk[0].loc(),
            'registered as another kind of access', fn=f)
    if store:
        ds = [s for s in stores(f) if nz(f.expr(s.args[1])) == nz(('fld', acc, 'storeData'))]
        okd = bool(ds) and all(nz(f.expr(s.args[0])) == nz(('load', ('ptr', sd, idx, 1))) for s in ds)
        if okd:
            p = reach_without(f, [s for s in f.blocks[h].succs if s in lp[1]][0], [c], ds)
            # the only way around is a null data pointer
            if p:
                okd = all(any(iszero(facts_edge(f, x, y), sd) for x, y in zip([h] + p, p)) for _ in (1,)) or \
                    not path_avoiding_from(f, [s for s in f.blocks[h].succs if s in lp[1]][0], ds, [c], sd)
        R.check(okd, 'registered', key + ':data', c.loc(), 'data of byte i is not recorded', fn=f)
    # slot
    sel = nz(m[2]) if ok else None
    outs = []
    if sel is not None:
        o = f.insts[c.id]
        outs = unfold(f, sel)
    good = bool(outs)
    want = {}
    for e, fs in outs:
        e = nz(e)
        base, ix = (e[1], e[2]) if e[0] in ('ptr', 'idx') else (e, C(0))
        fieldname = base[1][2] if base[0] == 'load' and base[1][0] == 'fld' else None
        isg = has(fs, ('eq', space, C(glob)))
        notg = has(fs, ('eq', space, C(glob)), False)
        if not (fieldname == 'wiGlobal' and isg or fieldname == 'wiLocal' and notg):
            good = False
        own = mentions(base, lambda x: x == nz(wg)) or any(
            s for s in stores(f) if nz(f.expr(s.args[0])) == nz(wg) and mentions(base, lambda x: x == f.expr(s.args[1])))
        if not own:
            good = False
        if wi:
            good = good and rowmajor(ix, wi, wg)
        else:
            for v, _ in unfold(f, ix):
                v = nz(v)
                t = poly(v)
                good = good and (t.get((), 0) == -1 and 'numWorkItems' not in show(v) and 'wi' in show(v) or
                                 lastslot(v))
    R.check(good and len(outs) == 2, 'registered', key + ':slot', c.loc(),
            'registered in the wrong slot: %s' % '; '.join(show(e, f)[-160:] for e, _ in outs), fn=f)


def path_avoiding_from(f, start, stops, ends, sd):
    """path from start to ends avoiding stops on which sd is not known null"""
    sid, eid = {i.id for i in stops}, {i.id for i in ends}
    st, seen = [(start, [start])], set()
    while st:
        b, path = st.pop()
        if b in seen:
            continue
        seen.add(b)
        stop = False
        for i in f.blocks[b].insts:
            if i.id in eid:
                return path
            if i.id in sid:
                stop = True
                break
        if stop:
            continue
        for s in f.blocks[b].succs:
            if iszero(edge_literals(f, b, s), sd):
                continue
            st.append((s, path + [s]))
    return None


def unfold(f, e):
    """[(expression, facts)] of a value that may be a phi/select"""
    if e[0] == 'phi':
        i = f.insts[e[1]]
        return value_origins(f, ('v', i.id), i.blk.id) and [(v, fs) for v, fs, _ in value_origins(f, ('v', i.id), i.blk.id)]
    if e[0] == 'select':
        c = e[1]
        return [(e[2], frozenset(literals(c, True))), (e[3], frozenset(literals(c, False)))]
    if e[0] in ('ptr', 'idx') and nz(e[1])[0] in ('phi', 'select'):
        return [((e[0], x) + tuple(e[2:]), fs) for x, fs in unfold(f, nz(e[1]))]
    if e[0] in ('ptr', 'idx') and nz(e[2])[0] in ('phi', 'select'):
        return [(e[:2] + (x,) + tuple(e[3:]), fs) for x, fs in unfold(f, nz(e[2]))]
    if e[0] == 'load' and e[1][0] == 'fld' and e[1][1][0] in ('phi', 'select'):
        return [(('load', ('fld', x, e[1][2])), fs) for x, fs in unfold(f, e[1][1])]
    return [(e, frozenset())]


def comp(e):
    """('x'|'y'|'z', object expr) of a Size3 component"""
    if e[0] == 'load':
        if e[1][0] == 'fld' and e[1][2] in ('x', 'y', 'z'):
            return e[1][2], e[1][1]
        return 'x', e[1]
    return None


def rowmajor(ix, wi, wg):
    p = poly(nz(ix))
    lid = ('call', 'oclgrind::WorkItem::getLocalID', wi)
    gs = ('call', 'oclgrind::WorkGroup::getGroupSize', nz(wg))
    out = set()
    for m, c in p.items():
        names = []
        for l in m:
            q_ = comp(l)
            if not q_:
                return False
            src = 'l' if mentions(q_[1], lambda x: is_call(x, 'WorkItem::getLocalID')) else \
                'g' if mentions(q_[1], lambda x: is_call(x, 'WorkGroup::getGroupSize')) else '?'
            names.append(src + q_[0])
        out.add((tuple(sorted(names)), c))
    return out == {(('lx',), 1), (('gx', 'ly'), 1), (('gx', 'gy', 'lz'), 1)}


def lastslot(v):
    """size()-1 of one of the slot vectors, or numWorkItems"""
    s = show(v)
    if 'numWorkItems' in s:
        return True
    return v[0] in ('sub', 'add') and ('wiLocal' in s or 'wiGlobal' in s) and poly(v).get((), 0) == -1


def slots(P, R, f):
    R.rule('slots', 'a group has one slot per work-item for each address space and one more for the group itself', 3)
    rs = [c for c in f.calls if (c.callee or '').endswith('::resize')]
    got = {}
    nwi = None
    for s in stores(f):
        v = nz(f.expr(s.args[0]))
        t = poly(v)
        if len(t) == 1 and list(t.values()) == [1] and len(list(t)[0]) == 3:
            cs = [comp(l) for l in list(t)[0]]
            if all(cs) and sorted(x[0] for x in cs) == ['x', 'y', 'z'] and all(
                    mentions(x[1], lambda y: is_call(y, 'WorkGroup::getGroupSize')) for x in cs):
                nwi = (nz(f.expr(s.args[1])), v)
    R.check(nwi is not None, 'slots', 'count', floc(f), 'number of work-items is not the product of the group size', fn=f)
    for n in ('wiGlobal', 'wiLocal'):
        ok = False
        for c in rs:
            a = args(f, c)
            if nz(a[0])[0] == 'fld' and nz(a[0])[2] == n and nwi:
                v = nz(a[1])
                ok = poly(v) in (padd(poly(('load', nwi[0])), {(): 1}), padd(poly(nwi[1]), {(): 1}))
        R.check(ok, 'slots', n, floc(f), '%s is not given one slot per work-item plus one for the group' % n, fn=f)


def accref(f, e):
    """('load'|'store', record expression)"""
    e = nz(e)
    if e[0] == 'fld' and e[2] == 'store':
        return 'store', e[1]
    if e[0] == 'fld' and e[2] == 'load':
        return 'load', e[1]
    return 'load', e


def ncall(e, *names):
    return e[0] == 'call' and (e[2] or '').split('::')[-1] in names


def rounds(f):
    """(header, paths of one arbitrary iteration) of the loop that compares accesses"""
    its = [p for p in Flow(f).paths() if p.end[0] == 'iter']
    hs = {p.end[1] for p in its if any(ncall(e, 'check') for e in p.events)}
    if len(hs) != 1:
        return None, []
    h = hs.pop()
    return h, [p for p in its if p.end[1] == h]


def isset(p, src, SET):
    """what the path knows about the access src being set: True, False or None"""
    for a, q in p.lits:
        if a[0] == 'eq' and a[2] == C(0) and nz(a[1]) == ('and', fld(nz(src), 'info'), C(SET)):
            return not q
    return None


def pairing(P, R, f, record, SET):
    key = f.short
    h, its = rounds(f)
    if not R.check(bool(its), 'paired', key, floc(f), 'no accesses are compared in a loop over the bytes', fn=f):
        return
    lp = [l for l in f.loops if l[0] == h][0]
    recs, where = {}, floc(f)
    for p in its:
        for e in p.events:
            if ncall(e, 'check'):
                where = e[1].loc()
                for z in e[3][1:3]:
                    r = accref(f, z)[1]
                    recs.setdefault(repr(r), r)
    it = [r for r in recs.values() if r[0] != 'call' and not mentions(r, lambda z: z[0] == 'call' and (
        z[1].endswith('operator[]') or z[1].endswith('::at')))]
    merged = [r for r in recs.values() if r not in it]
    if not R.check(len(it) == 1 and len(merged) == 1, 'paired', key + ':records', where,
                   'comparisons are not between this record and the merged one', fn=f):
        return
    a, b = it[0], merged[0]
    exits = {x for x in lp[1] for s in f.blocks[x].succs if s not in lp[1] and not f.error_exit(s)}
    R.check(exits == {h}, 'paired', key + ':all', where, 'comparison stops before the last byte', fn=f)
    own = {w: a if w == 'load' else ('fld', a, 'store') for w in ('load', 'store')}
    theirs = {w: b if w == 'load' else ('fld', b, 'store') for w in ('load', 'store')}
    for wa, wb in (('load', 'store'), ('store', 'load'), ('store', 'store')):
        k = '%s:%s/%s' % (key, wa, wb)
        never, always, recorded, first = True, True, True, True
        for p in its:
            cs = [n for n, e in enumerate(p.events) if ncall(e, 'check') and
                  [accref(f, z) for z in e[3][1:3]] in ([(wa, a), (wb, b)], [(wb, b), (wa, a)])]
            if not cs:
                always = always and False in (isset(p, own[wa], SET), isset(p, theirs[wb], SET))
                continue
            never = False
            e = p.events[cs[0]]
            ins = [n for n, x in enumerate(p.events) if ncall(x, 'insert') and nz(x[3][1]) == b]
            first = first and not (ins and ins[0] < cs[0])
            r = ('call', e[2]) + tuple(e[3])
            v = [q for x, q in p.lits if x[0] == 'true' and nz(x[1]) == nz(r)] + \
                [not q for x, q in p.lits if x[0] == 'eq' and x[2] == C(0) and nz(x[1]) == nz(r)]
            if v and not v[0]:
                continue
            recorded = recorded and any(ncall(x, record, 'insertRace') and race_fields(f, p, n, a, wa, b, wb)
                                        for n, x in enumerate(p.events) if n > cs[0])
        if not R.check(not never, 'paired', k, floc(f), 'own %s is not compared with the merged %s' % (wa, wb), fn=f):
            continue
        R.check(always, 'paired', k + ':always', where, 'comparison is skipped for some bytes', fn=f)
        R.check(recorded, 'paired', k + ':recorded', where, 'a conflict of own %s with merged %s is not recorded' % (wa, wb), fn=f)
        R.check(first, 'paired', k + ':first', where, 'the slot is merged before it is compared', fn=f)
    # merging
    for w in ('load', 'store'):
        k = '%s:merge:%s' % (key, w)
        left = [p for p in its if isset(p, own[w], SET) is not False and
                not any(ncall(e, 'insert') and nz(e[3][1]) == b and nz(e[3][2]) == nz(own[w]) for e in p.events)]
        R.check(not left, 'paired', k, floc(f), 'own %s is not merged on a path (lines %s)' % (
            w, path_lines(f, left[0].blocks) if left else ''), fn=f)


def reach_in(f, i, c, lp):
    """c reachable from i within one iteration"""
    st, seen = [i.blk.id], set()
    if i.blk.id == c.blk.id and i.pos < c.pos:
        return True
    while st:
        b = st.pop()
        for s in f.blocks[b].succs:
            if s == lp[0] or s not in lp[1] or s in seen:
                continue
            if s == c.blk.id:
                return True
            seen.add(s)
            st.append(s)
    return False


def race_fields(f, p, n, a, wa, b, wb):
    """the race recorded by event n is between own wa and merged wb"""
    r = [nz(z) for z in p.events[n][3][1:] if strip(nz(z))[0] in ('alloca', 'ptrto')]
    if not r:
        return False
    got = {}
    for e in p.events[:n]:
        if e[0] == 'copy':
            d = nz(e[3][0])
            if d[0] == 'fld' and d[1] in (r[-1], strip(r[-1])):
                got[d[2]] = accref(f, e[3][1])
    return set(got.values()) == {(wa, a), (wb, b)} and len(got) == 2
