"""C03: every announced event reaches every loaded plugin."""
from common import *
import re

TUS = ['Context', 'Plugin', 'Logger', 'MemCheck', 'RaceDetector', 'InstructionCounter', 'Uninitialized',
       'InteractiveDebugger', 'KernelInvocation']
CTX = 'oclgrind::Context::'
PL = 'oclgrind::Plugin::'
KI = fld(THIS, 'm_kernelInvocation')
WI = ('call', 'oclgrind::KernelInvocation::getCurrentWorkItem', KI)
WG = ('call', 'oclgrind::KernelInvocation::getCurrentWorkGroup', KI)
NZ = lambda e: (('eq', e, C(0)), False)    # noqa: E731
ZR = lambda e: (('eq', e, C(0)), True)     # noqa: E731
A = arg
IN_WI = [NZ(KI), NZ(WI)]
IN_WG = [NZ(KI), ZR(WI), NZ(WG)]
HOST = [ZR(KI)]

# announcement -> [(callback, arguments, condition)]
SPEC = {
    'notifyInstructionExecuted': [('instructionExecuted', [A('workItem'), A('instruction'), A('result')], [])],
    'notifyKernelBegin': [('kernelBegin', [A('kernelInvocation')], [])],
    'notifyKernelEnd': [('kernelEnd', [A('kernelInvocation')], [])],
    'notifyMemoryAllocated': [('memoryAllocated', [A('memory'), A('address'), A('size'), A('flags'), A('initData')], [])],
    'notifyMemoryAtomicLoad': [('memoryAtomicLoad', [A('memory'), WI, A('op'), A('address'), A('size')], IN_WI)],
    'notifyMemoryAtomicStore': [('memoryAtomicStore', [A('memory'), WI, A('op'), A('address'), A('size')], IN_WI)],
    'notifyMemoryDeallocated': [('memoryDeallocated', [A('memory'), A('address')], [])],
    'notifyMemoryLoad': [('memoryLoad', [A('memory'), WI, A('address'), A('size')], IN_WI),
                         ('memoryLoad', [A('memory'), WG, A('address'), A('size')], IN_WG),
                         ('hostMemoryLoad', [A('memory'), A('address'), A('size')], HOST)],
    'notifyMemoryStore': [('memoryStore', [A('memory'), WI, A('address'), A('size'), A('storeData')], IN_WI),
                          ('memoryStore', [A('memory'), WG, A('address'), A('size'), A('storeData')], IN_WG),
                          ('hostMemoryStore', [A('memory'), A('address'), A('size'), A('storeData')], HOST)],
    'notifyMemoryMap': [('memoryMap', [A('memory'), A('address'), A('offset'), A('size'), A('flags')], [])],
    'notifyMemoryUnmap': [('memoryUnmap', [A('memory'), A('address'), A('ptr')], [])],
    'notifyMessage': [('log', [A('type'), A('message')], [])],
    'notifyWorkGroupBarrier': [('workGroupBarrier', [A('workGroup'), A('flags')], [])],
    'notifyWorkGroupBegin': [('workGroupBegin', [A('workGroup')], [])],
    'notifyWorkGroupComplete': [('workGroupComplete', [A('workGroup')], [])],
    'notifyWorkItemBegin': [('workItemBegin', [A('workItem')], [])],
    'notifyWorkItemComplete': [('workItemComplete', [A('workItem')], [])],
}


def full_iteration(f, call):
    """None when the call runs once for every entry of m_plugins; else why not"""
    lp = f.loop_of(call.blk.id)
    if lp is None:
        return 'is not inside an iteration over the plugins'
    h, body = lp
    phis = [i for i in f.blocks[h].insts if i.op == 'phi']
    lst = ('fld', THIS, 'm_plugins')
    good = None
    for p in phis:
        start = [nz(f.expr(v)) for v, b in p.args if b not in body]
        step = [nz(f.expr(v)) for v, b in p.args if b in body]
        me = ('phi', p.id)
        if start and all(s == ('load', lst) for s in start) and step and all(s == ('load', me) for s in step):
            good = me
    if good is None:
        return 'does not iterate from the first plugin over each next one'
    # only exit of the loop: end reached
    for b in body:
        for s in f.blocks[b].succs:
            if s not in body and not f.error_exit(s):
                ls = edge_literals(f, b, s)
                if not any(a[0] == 'eq' and p and {repr(nz(a[1])), repr(nz(a[2]))} == {repr(good), repr(lst)}
                           for a, p in ls):
                    return 'leaves the iteration before the last plugin (line %s)' % f.blocks[b].term.line
    for b in body:
        if h in f.blocks[b].succs and not f.dominates_block(call.blk.id, b):
            return 'skips some plugins'
    rcv = nz(f.expr(call.args[0]))
    if not (rcv[0] == 'load' and root(rcv[1]) == good):
        return 'is not made on the plugin of the current iteration'
    return None


def run(P, R):
    R.rule('delivered', 'the announcement calls its own callback, with its own arguments, once for every entry of the '
           'plugin list', 21)
    R.rule('attributed', 'the callback variant is chosen by who is executing: current work-item, else current '
           'work-group, else host', 21)
    names = {f.short for f in methods(P, CTX[:-2]) if f.short.startswith('notify')}
    for n in names - set(SPEC):
        f = P.one(CTX + n)
        cs = [c for c in f.calls if (c.callee or '').startswith(PL)]
        for c in cs:
            w = full_iteration(f, c)
            R.check(w is None, 'delivered', n, c.loc(), '%s %s' % (c.callee, w), fn=f)
    for n, spec in SPEC.items():
        f = P.one(CTX + n)
        loc = '%s:%s' % (f.relfile(), f.line)
        cs = [c for c in f.calls if (c.callee or '').startswith(PL) and c.blk.id in f.idom]
        left = list(cs)
        for cb, want, cond in spec:
            m = None
            for c in left:
                a = [nz(x) for x in args(f, c)][1:]
                if c.callee == PL + cb and [repr(x) for x in a] == [repr(nz(x)) for x in want]:
                    m = c
                    break
            if m is None:
                R.bad('delivered', n + ':' + cb, loc, 'no call of %s with (%s)' % (cb, ', '.join(
                    show(w, f) for w in want)), f)
                continue
            left.remove(m)
            w = full_iteration(f, m)
            R.check(w is None, 'delivered', n + ':' + cb, m.loc(), '%s %s' % (cb, w), fn=f)
            # condition: loop header reached exactly under cond
            h = f.loop_of(m.blk.id)
            hb = h[0] if h else m.blk.id
            fs = facts(f, m.blk.id)
            ctxl = [x for x in fs if mentions(x[0], lambda e: e == KI) and not mentions(
                x[0], lambda e: e[0] == 'phi')]
            have = {repr((nz_atom(a), p)) for a, p in ctxl}
            wnt = {repr((nz_atom(a), p)) for a, p in cond}
            path = cut(f, hb, cond)
            R.check(have == wnt and path is None, 'attributed', n + ':' + cb, m.loc(),
                    '%s is delivered under another condition than: %s' % (
                        cb, ' and '.join(show(a[1], f) + (' == 0' if p else ' != 0') for a, p in cond) or 'always'), fn=f)
        for c in left:
            R.bad('delivered', n + ':extra', c.loc(), 'also calls %s with other arguments' % c.callee, f)
    # kernelBegin / kernelEnd bracket the current invocation
    f = P.one(CTX + 'notifyKernelBegin')
    st = [s for s in stores(f) if nz(f.expr(s.args[1])) == ('fld', THIS, 'm_kernelInvocation')]
    R.check(len(st) == 1 and nz(f.expr(st[0].args[0])) == A('kernelInvocation') and
            all(f.dominates(st[0], c) for c in f.calls if (c.callee or '').startswith(PL)),
            'attributed', 'notifyKernelBegin:current', '%s:%s' % (f.relfile(), f.line),
            'the invocation is not recorded as current before plugins hear of it', fn=f)
    f = P.one(CTX + 'notifyKernelEnd')
    st = [s for s in stores(f) if nz(f.expr(s.args[1])) == ('fld', THIS, 'm_kernelInvocation')]
    late = [c for c in f.calls if (c.callee or '').startswith(PL)]
    ok = len(st) >= 1 and all(nz(f.expr(s.args[0])) == C(0) for s in st) and always(f, st) is None and \
        not any(reach_without(f, s, late, []) for s in st)
    R.check(ok, 'attributed', 'notifyKernelEnd:current', '%s:%s' % (f.relfile(), f.line),
            'the invocation does not stay current until every plugin heard of its end, or remains current afterwards',
            fn=f)
    # messages
    R.rule('messages', 'a composed message is delivered with its own type and text', 1)
    f = P.one('oclgrind::Context::Message::send')
    cs = calls(f, 'Context::notifyMessage')
    ok = bool(cs) and always(f, cs) is None
    for c in cs:
        a = [nz(x) for x in args(f, c)]
        ok = ok and a[0] == fld(THIS, 'm_context') and a[1] == ('load', ('fld', THIS, 'm_type')) or \
            (a[1] == ('load', THIS))
    R.check(ok, 'messages', 'send', '%s:%s' % (f.relfile(), f.line), 'the message may not be delivered', fn=f)
    # overriding: a plugin's method of a callback name occupies the callback's slot
    R.rule('override', 'a plugin method named like a callback really overrides it', 30)
    base = vtab(P, 'oclgrind::Plugin')
    cbs = {}
    for k, m in enumerate(base):
        q_ = P.qual(m) if m else ''
        if q_.startswith(PL) and '~' not in q_:
            cbs.setdefault(q_.split('::')[-1], []).append(k)
    need(len(cbs) >= 18, 'vtable of Plugin has only %d callbacks' % len(cbs))
    for g in P.globals:
        m = re.match(r'_ZTVN8oclgrind(\d+)(\w+)E$', g)
        if not m or m.group(2)[:int(m.group(1))] == 'Plugin':
            continue
        c = 'oclgrind::' + m.group(2)[:int(m.group(1))]
        vt = vtab(P, c)
        if len(vt) < len(base) or not any(x and P.qual(x).startswith(PL) or True for x in vt):
            continue
        meths = {f.short for f in methods(P, c)}
        if not any(x in cbs for x in meths):
            continue
        for n in sorted(meths & set(cbs)):
            defs = P.get(c + '::' + n)
            filled = {vt[k] for k in cbs[n] if vt[k] and P.qual(vt[k]) == c + '::' + n}
            R.check(len(filled) == len([d for d in defs]), 'override', c + '::' + n,
                    '%s:%s' % (defs[0].relfile(), defs[0].line),
                    'defines %d method(s) named %s but only %d callback slot(s) lead to them' % (
                        len(defs), n, len(filled)), fn=defs[0])
    # registration
    R.rule('loaded', 'registering a plugin adds it to the iterated list; built-in plugins are added under their own '
           'setting', 3)
    f = P.one(CTX + 'registerPlugin')
    pb = [c for c in f.calls if (c.callee or '').endswith('::push_back') and
          nz(args(f, c)[0]) == ('fld', THIS, 'm_plugins')]
    R.check(bool(pb) and always(f, pb) is None, 'loaded', 'registerPlugin', '%s:%s' % (f.relfile(), f.line),
            'does not add the plugin to the list', fn=f)
    f = P.one(CTX + 'loadPlugins')
    env = {'Logger': None, 'MemCheck': None, 'InstructionCounter': 'OCLGRIND_INST_COUNTS',
           'RaceDetector': 'OCLGRIND_DATA_RACES', 'Uninitialized': 'OCLGRIND_UNINITIALIZED',
           'InteractiveDebugger': 'OCLGRIND_INTERACTIVE'}
    for pl, ev in env.items():
        ct = calls(f, '%s::%s' % (pl, pl))
        pbs = [c for c in f.calls if (c.callee or '').endswith('::push_back') and
               nz(args(f, c)[0]) == ('fld', THIS, 'm_plugins')]
        ok = bool(ct)
        for c in ct:
            fs = [(a, p) for a, p in facts(f, c.blk.id)]
            envs = {(x[2][1], p) for a, p in fs for x in [a[1]] if a[0] == 'true' and is_call(x, 'checkEnv') and
                    x[2][0] == 's'}
            if ev:
                ok = ok and (ev, True) in envs
            else:
                ok = ok and not [e for e in envs if e[1]]
            ok = ok and reach_without(f, c, f.ret_insts(), pbs) is None
        cond = [(('true', ('call', 'oclgrind::checkEnv', ('s', ev))), True)] if ev else []
        R.check(ok and (not ct or cut(f, ct[0].blk.id, cond) is None), 'loaded', pl,
                ct[0].loc() if ct else '%s:%s' % (f.relfile(), f.line),
                'plugin %s is not loaded exactly when %s' % (pl, ev + ' is set' if ev else 'the simulator starts'), fn=f)


def cut(f, target, cond):
    """a path entry->ret avoiding block target on which no cond literal is refuted"""
    seen, st = set(), [(0, [0])]
    while st:
        b, path = st.pop()
        if b in seen or b == target:
            continue
        seen.add(b)
        if f.blocks[b].term.op == 'ret':
            return path
        for s in f.blocks[b].succs:
            ls = edge_literals(f, b, s)
            if any((nz_atom(a), p) == (nz_atom(c), not q_) for a, p in ls for c, q_ in cond):
                continue
            st.append((s, path + [s]))
    return None


def vtab(P, c):
    n = c.split('::')
    g = P.globals.get('_ZTVN%sE' % ''.join('%d%s' % (len(x), x) for x in n))
    if not g:
        return []
    out = []

    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'fn':
                out.append(x[1])
                return
            if x and x[0] == 'null':
                out.append(None)
                return
            for y in x:
                walk(y)
    walk(g['init'])
    # drop offset-to-top / typeinfo entries in front of the first function
    while out and out[0] is None:
        out.pop(0)
    return out
