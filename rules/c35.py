"""C35: every function of the interpreter and the plugins that changes the floating-point environment is followed along all
its paths: the mode read by fegetround before the first change is the one set last on every path that returns (a path
that raises a fatal error ends its worker thread, so no later instruction runs in the changed mode).  The conversion
builtins are then evaluated, by constant propagation over the function name only, for every rounding suffix: the mode in
force when the result lane is computed is the named one (or the default of OpenCL for the kind of conversion), floating
values reach integers only through a function that obeys the current mode, and a value is rounded to the destination
format once."""
import re
from common import *
from flow import Flow
import c12

TECHNIQUE = 'path-sensitive save/restore typestate and constant propagation of the builtin name to the rounding mode'
TUS = ['WorkItemBuiltins', 'WorkItem', 'WorkGroup', 'Kernel', 'KernelInvocation', 'Memory', 'Context', 'common', 'MemCheck',
       'RaceDetector', 'Uninitialized', 'InstructionCounter', 'Logger', 'InteractiveDebugger']
OPTS = ('--extra-inline', r'setConvertRoundingMode|WorkItemBuiltins::_(min|max|clamp)_')
NOTE = ('The compiler is trusted not to move floating-point operations across fesetround; the accuracy of cl_half_from_float, '
        'rint and hardware conversions is not examined.')
ASSUMPTIONS = ['runWorker ends its thread after a fatal error (C32)']
SETTERS = ('fesetround', 'fesetenv', 'feupdateenv', 'feholdexcept', '_MM_SET_ROUNDING_MODE', 'llvm.x86.sse.ldmxcsr', 'llvm.set.rounding')
NEAREST, DOWN, UP, ZERO = 0, 0x400, 0x800, 0xc00
MODES = {'_rte': NEAREST, '_rtn': DOWN, '_rtp': UP, '_rtz': ZERO}
NAMES = {NEAREST: 'to nearest', DOWN: 'down', UP: 'up', ZERO: 'towards zero'}
RINT = re.compile(r'(^|::|llvm\.)(l?l?rint|nearbyint)[fl]?(\.\w+)?$')


def text(e):
    e = strip(e)
    while e[0] in ('ptrto', 'cgep') and len(e) > 1 and isinstance(e[1], tuple):
        e = e[1]
    return e[1] if e[0] == 's' else None


def is_name(e, par):
    """the name parameter or a copy of / view on it"""
    e = nz(e)
    if e in (('arg', par), ('load', ('arg', par))):
        return True
    return e[0] == 'call' and e[1].split('::')[-1] in ('c_str', 'data') and is_name(e[2], par)


def named(name, par='fnName'):
    """leaf: string queries about parameter `par`, whose value is `name`"""
    def num(e, dflt=None):
        e = strip(e)
        return e[1] if e[0] == 'c' else dflt

    def leaf(e):
        if e[0] == 'load' and isinstance(e[1], tuple):
            a = e[1]
            if a[0] == 'call' and a[1].split('::')[-1] in ('operator[]', 'at') and len(a) == 4 and is_name(a[2], par):
                k = num(a[3])
                if k is not None:
                    k &= (1 << 64) - 1
                    return ord(name[k]) if k < len(name) else 0
            if a[0] == 'call' and a[1].split('::')[-1] in ('back', 'front') and is_name(a[2], par):
                return ord(name[-1 if a[1].endswith('back') else 0])
            if a[0] == 'ptr' and is_name(a[1], par) and num(a[2]) is not None:
                k = num(a[2])
                return ord(name[k]) if 0 <= k < len(name) else 0
        if e[0] != 'call':
            return None
        m = e[1].split('::')[-1].split('<')[0]
        if m in ('find', 'rfind') and len(e) >= 4 and is_name(e[2], par):
            s = text(e[3])
            if s is None and num(e[3]) is not None:
                s = chr(num(e[3]) & 255)
            if s is None:
                return None
            p = num(e[4], 0) if len(e) > 4 else (0 if m == 'find' else None)
            if m == 'find':
                return name.find(s, max(p, 0))
            return name.rfind(s) if p is None or p < 0 else name.rfind(s, 0, p + len(s))
        if m in ('find_first_of', 'find_last_of') and len(e) >= 4 and is_name(e[2], par) and text(e[3]) is not None:
            ks = [k for k, c in enumerate(name) if c in text(e[3])]
            return (ks[0] if m == 'find_first_of' else ks[-1]) if ks else -1
        if m == 'compare' and is_name(e[2], par):
            a = list(e[3:])
            if len(a) == 3 and text(a[2]) is not None and num(a[0]) is not None and num(a[1]) is not None:
                part, s = name[num(a[0]):][:num(a[1]) if num(a[1]) >= 0 else None], text(a[2])
            elif len(a) == 1 and text(a[0]) is not None:
                part, s = name, text(a[0])
            else:
                return None
            return 0 if part == s else -1 if part < s else 1
        if m in ('size', 'length') and is_name(e[2], par):
            return len(name)
        if m == 'strlen' and is_name(e[2], par):
            return len(name)
        if m == 'empty' and is_name(e[2], par):
            return 0
        if m == 'strstr' and is_name(e[2], par) and text(e[3]) is not None:
            k = name.find(text(e[3]))
            return 0 if k < 0 else ('ptr', e[2], ('c', k), 1)
        if m in ('starts_with', 'ends_with') and is_name(e[2], par) and text(e[3]) is not None:
            return int(getattr(name, m.replace('_', ''))(text(e[3])))
        return None
    return leaf


def environment(P, R):
    R.rule('restore', 'a function that changes the rounding mode (or floating-point environment) sets it back, on every path that '
           'returns, to the mode it read before its first change', 3)
    users = {}
    callers = {}
    for f in P.fns.values():
        for c in f.calls:
            if c.callee_link in P.fns:
                callers.setdefault(P.fns[c.callee_link], set()).add(f)
        if f.qual.startswith('std::'):
            continue
        if any((c.callee or '') in SETTERS and c.blk.id in f.idom for c in f.calls):
            users[f] = True
    for f in sorted(users, key=lambda f: f.qual):
        builtin = pnames(f)[:1] == ['workItem'] and 'fnName' in pnames(f)
        if not builtin and callers.get(f) or not builtin and re.search(OPTS[1], f.qual):
            continue                                # a helper: judged inlined into its callers
        msg = loc = None
        n = 0
        dirty, done = {}, []
        for p in Flow(f, limit=30000).paths():
            if p.end[0] not in ('ret', 'iter'):
                continue
            saved, last, first = set(), None, None
            for e in p.events:
                if e[0] != 'call':
                    continue
                c = e[2] or ''
                if c in ('fegetround', 'fegetenv', 'llvm.get.rounding'):
                    if first is None:
                        saved.add((c, e[1].blk.id))
                elif c in SETTERS:
                    if first is None:
                        first = e
                    last = e
            kinds = {c for c, _ in saved}
            if p.end[0] == 'iter':
                body = next(l[1] for l in f.loops if l[0] == p.end[1])
                inside = [e for e in p.events if e[0] == 'call' and (e[2] or '') in SETTERS and e[1].blk.id in body]
                if inside and not restored(inside[-1], kinds):
                    if not any(b not in body for _, b in saved):
                        msg, loc = 'changes the mode inside a loop without restoring it in the same iteration', inside[-1][1].loc()
                    dirty[p.end[1]] = inside[-1]
                continue
            done.append((p, kinds, first, last))
        for p, kinds, first, last in done:
            left = [h for h in dirty if h in p.blocks and (last is None or last[1].blk.id in next(
                l[1] for l in f.loops if l[0] == h))]
            if left:
                n += 1
                msg, loc = 'returns with the mode a loop set here', dirty[left[0]][1].loc()
            if last is None:
                continue
            n += 1
            if not kinds:
                msg, loc = 'does not read the mode before changing it', first[1].loc()
            elif not restored(last, kinds):
                msg, loc = 'returns with the mode it set here', last[1].loc()
        R.check(not msg and n > 0, 'restore', short(f.qual), loc or floc(f), msg or 'no path found', fn=f)
    return users


def restored(e, saved):
    c = e[2]
    a = nz(e[3][0]) if e[3] else None
    if c == 'fesetround' or c == 'llvm.set.rounding':
        return a is not None and a[0] == 'call' and a[1] in ('fegetround', 'llvm.get.rounding') and a[1] in saved
    if c in ('fesetenv', 'feupdateenv'):
        return 'fegetenv' in saved and a is not None and a[0] == 'alloca'
    return False


def final(p, e):
    """mode in force at event e (None: untouched)"""
    m = None
    for x in p.events:
        if x is e:
            return m
        if x[0] == 'call' and x[2] == 'fesetround':
            a = nz(x[3][0])
            m = a[1] if a[0] == 'c' else a
    return m



def run(P, R):
    environment(P, R)
    pre = c12.table(P)[2]
    R.rule('mode', 'the result of a conversion builtin is computed under the rounding mode its name asks for (nearest for '
           'conversions to floating point, towards zero for conversions to integers when it names none)', 20)
    R.rule('rounds', 'a floating-point value becomes an integer only through a function that obeys the current mode', 4)
    R.rule('once', 'a conversion rounds to the destination format once: an integer converted to float is not rounded to double '
           'first, a double converted to half is not rounded to float first', 3)
    plan = []
    for t in ('convert_float', 'convert_float4', 'convert_double', 'convert_double2'):
        plan += [(t + s, NEAREST if not s else MODES[s]) for s in [''] + sorted(MODES)]
    for t in ('convert_uchar', 'convert_ulong16_sat', 'convert_uint_sat', 'convert_char4', 'convert_int', 'convert_long_sat', 'convert_short3_sat'):
        plan += [(t + s, ZERO if not s else MODES[s]) for s in [''] + sorted(MODES)]
    rounds, once = {}, {}
    for name, want in plan:
        f = resolve(pre, name, P)
        need(f is not None, 'no builtin for ' + name)
        par = [n for n in pnames(f) if n == 'fnName'] or [pnames(f)[2]]
        msg, where = None, None
        n = 0
        ps = Flow(f, leaf=named(name, par[0]), limit=30000).paths()
        for p in ps:
            if p.end[0] == 'unreachable':
                if not any(e[0] == 'call' and short(e[2]) in ('getUInt', 'getSInt', 'getFloat', 'getOverloadArgType') for e in p.events) and \
                        not any('result' in repr(a) for a, _ in p.lits):
                    msg = 'is rejected'
                continue
            for e in p.events:
                if e[0] != 'call' or short(e[2]) not in ('setFloat', 'setUInt', 'setSInt'):
                    continue
                n += 1
                m = final(p, e)
                if m is None:
                    m = NEAREST
                if m != want:
                    msg, where = 'computed with rounding %s' % NAMES.get(m, 'in an unknown mode'), e[1]
                v = e[3][1]
                float_to_int(p, f, e, v, rounds, name, P)
                if short(e[2]) == 'setFloat':
                    width(p, f, e, v, once)
        R.check(msg is None and n > 0, 'mode', name, where.loc() if where else floc(f), '%s: %s' % (
            name, msg or 'no lane is ever set'), fn=f)
    for k, (ok, loc_, m, f) in sorted(rounds.items()):
        R.check(ok, 'rounds', k, loc_, m, fn=f)
    # halves: the mode is an argument
    H = {'': enum_(P, 'CL_HALF_RTE', 0), '_rte': enum_(P, 'CL_HALF_RTE', 0), '_rtz': enum_(P, 'CL_HALF_RTZ', 1),
         '_rtp': enum_(P, 'CL_HALF_RTP', 2), '_rtn': enum_(P, 'CL_HALF_RTN', 3)}
    for t in ('vstore_half', 'vstore_half4', 'vstorea_half8', 'convert_half', 'convert_half2'):
        for s in sorted(H):
            name = t + s
            f = resolve(pre, name, P)
            need(f is not None, 'no builtin for ' + name)
            msg = where = None
            n = 0
            for p in Flow(f, leaf=named(name), limit=30000).paths():
                if p.end[0] == 'unreachable':
                    continue
                for e in p.events:
                    if e[0] != 'call' or short(e[2]) not in ('cl_half_from_float', 'cl_half_from_double'):
                        continue
                    n += 1
                    m = nz(e[3][1])
                    if m != C(H[s]):
                        msg, where = 'stored with another rounding mode than its name asks for', e[1]
                    x = e[3][0]
                    if short(e[2]) == 'cl_half_from_float' and mentions(x, lambda y: y[0] == 'fptrunc'):
                        once.setdefault(short(f.qual) + ':half', (False, e[1].loc(), 'a double is rounded to float before it is '
                                                                  'rounded to half', f))
                    else:
                        once.setdefault(short(f.qual) + ':half', (True, e[1].loc(), '', f))
            R.check(msg is None and n > 0, 'mode', name, where.loc() if where else floc(f), '%s: %s' % (
                name, msg or 'nothing is converted'), fn=f)
    for k, (ok, loc_, m, f) in sorted(once.items()):
        R.check(ok, 'once', k, loc_, m, fn=f)


def enum_(P, n, dflt):
    try:
        v = enum_val(P, 'cl_half_rounding_mode', n)
        return dflt if v is None else v
    except Exception:
        return dflt


def resolve(pre, name, P):
    for e in pre:
        if name.startswith(e[0]):
            return P.fns.get(e[1]) or (P.get(e[1]) or [None])[0]
    return None


def float_to_int(p, f, e, v, rounds, name, P):
    k = short(f.qual)
    for x in subexprs(v):
        if isinstance(x, tuple) and x and x[0] in ('fptoui', 'fptosi'):
            src = x[-1]
            key = '%s:%s' % (k, 'sat' if '_sat' in name else 'plain')
            ok = mentions(src, lambda y: y[0] == 'call' and RINT.search(y[1]))
            cur = rounds.get(key)
            if cur is None or cur[0] and not ok:
                rounds[key] = (ok, e[1].loc(), 'a floating-point value is cut off instead of rounded in the current mode', f)
        elif isinstance(x, tuple) and x and x[0] == 'call' and re.search(r'(^|::)l?l?rint[fl]?$', x[1]):
            rounds.setdefault('%s:%s' % (k, 'sat' if '_sat' in name else 'plain'), (True, e[1].loc(), '', f))


def width(p, f, e, v, once):
    """setFloat(value): an integer source must be converted in the width of the destination"""
    k = short(f.qual)
    conv = [x for x in subexprs(v) if isinstance(x, tuple) and x and x[0] in ('sitofp', 'uitofp')]
    for x in conv:
        four = None
        for a, pol in p.lits:
            if a[0] == 'eq' and mentions(a, lambda y: y[0] == 'fld' and y[2] == 'size') or a[0] == 'eq' and any(
                    nz(y) == ('load', ('arg', 'result')) for y in a[1:]):
                if C(4) in a[1:]:
                    four = pol
                elif C(8) in a[1:]:
                    four = not pol
        key = '%s:%s' % (k, 'signed' if x[0] == 'sitofp' else 'unsigned')
        t = x[1]
        ok = (t == 'float') == (four is True) if four is not None else False
        cur = once.get(key)
        if cur is None or cur[0] and not ok:
            once[key] = (ok, e[1].loc(), 'an integer is rounded to %s before it is stored as %s' % (
                t, 'float' if four or four is None else 'double'), f)
