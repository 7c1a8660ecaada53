"""C26: both launchers' argument parsers are followed by constant propagation over whole command lines (every option in each of its
spellings, with and without its value, repeated, unknown, mixed with positional arguments); the variables set, the outcome and the command
handed on are compared with the table of documented options.  The readers of each variable are then followed for the values of the variable
and must turn on, or take over, exactly the feature the table names.  Variables set and variables read must be the same set."""
import re
import build
from common import *
from flow import Flow
from strmodel import Strings, lit

TECHNIQUE = 'constant propagation of command lines and settings through the launchers and the readers'
TUS = ['oclgrind', 'oclgrind-kernel', 'common', 'Context', 'KernelInvocation', 'Program', 'Logger', 'RaceDetector', 'runtime']
OPTS = ()
NOTE = 'What a feature does once it is enabled is covered by the other properties; --help/--version texts are not examined.'
ASSUMPTIONS = ['getenv, setenv, strcmp, strtoul, execvp and dlopen behave as documented']
O = 'OCLGRIND_'
VALUE = {'--build-options': 'BUILD_OPTIONS', '--compute-units': 'COMPUTE_UNITS', '--constant-mem-size': 'CONSTANT_MEM_SIZE', '--global-mem-size': 'GLOBAL_MEM_SIZE',
         '--local-mem-size': 'LOCAL_MEM_SIZE', '--log': 'LOG', '--max-errors': 'MAX_ERRORS', '--max-wgsize': 'MAX_WGSIZE', '--num-threads': 'NUM_THREADS',
         '--pch-dir': 'PCH_DIR', '--plugins': 'PLUGINS'}
FLAG = {'--data-races': 'DATA_RACES', '--disable-pch': 'DISABLE_PCH', '--dump-spir': 'DUMP_SPIR', '--inst-counts': 'INST_COUNTS', '-i': 'INTERACTIVE',
        '--interactive': 'INTERACTIVE', '-q': 'QUICK', '--quick': 'QUICK', '--uniform-writes': 'UNIFORM_WRITES', '--uninitialized': 'UNINITIALIZED'}
TOOLS = {'oclgrind': dict(FLAG, **{'--check-api': 'CHECK_API'}), 'oclgrind-kernel': FLAG}
PRIVATE = {'OCLGRIND_TESTING'}                       # not a documented setting


def libc(fl, st, i, c, a, m):
    """C string functions on known text"""
    s = short(c)

    def text(e):
        k = 0
        while e[0] in ('ptr', 'idx', 'cgep'):
            if e[0] == 'cgep':
                k += e[2]
            elif strip(e[2])[0] == 'c':
                k += strip(e[2])[1]
            else:
                return None
            e = e[1]
        t = m.get(fl, st, e)
        return t[k:] if t is not None else None
    if s in ('strcmp', 'strncmp', 'strcasecmp'):
        x, y = text(a[0]), text(a[1])
        if s == 'strncmp':
            k = strip(a[2])
            if k[0] != 'c':
                return None
            x, y = x if x is None else x[:k[1]], y if y is None else y[:k[1]]
        return None if x is None or y is None else C(0 if x == y else 1 if x > y else (1 << 32) - 1)
    if s == 'strlen':
        x = text(a[0])
        return None if x is None else C(len(x))
    if s in ('strchr', 'index'):
        x, k = text(a[0]), strip(a[1])
        if x is None or k[0] != 'c':
            return None
        p = (x + '\0').find(chr(k[1] & 255))
        return C(0) if p < 0 else ('ptr', a[0], C(p), 1)
    if s == 'strstr':
        x, y = text(a[0]), text(a[1])
        return None if x is None or y is None else C(0) if x.find(y) < 0 else ('ptr', a[0], C(x.find(y)), 1)
    if s in ('strtoul', 'strtoull', 'strtol', 'strtoll', '__isoc23_strtoul', '__isoc23_strtoull'):
        x = text(a[0])
        if x is None or strip(a[2])[0] != 'c' or strip(a[2])[1] not in (0, 10):
            return None
        b = strip(a[2])[1]
        g = re.match(r'\s*([-+]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9]\d*)' if b == 0 else r'\s*([-+]?)(\d+)', x)
        v, n = 0, 0
        if g:
            t = g.group(2)
            v, n = int(t, 10 if b else 16 if t[:2].lower() == '0x' else 8 if t[0] == '0' else 10), g.end()
            v = (1 << 64) - 1 if v >= 1 << 64 else (-v if g.group(1) == '-' else v) % (1 << 64)
        if strip(a[1]) != C(0):
            e = ('ptr', a[0], C(n), 1) if n else a[0]
            if n:
                r, vs, o = fl.key(a[0])
                fl.keys[e] = (r, vs, o + n)
            st.mem.append(('st', fl.key(a[1]), 8, e))
        return C(v if v < 1 << 63 else v - (1 << 64))
    return None


def nulls(p, a, b):
    """text is not null"""
    if p in ('eq', 'ne') and C(0) in (a, b):
        o = b if a == C(0) else a
        while o[0] in ('ptr', 'idx', 'cgep'):
            o = o[1]
        if o[0] == 's' or o[0] == 'call' and short(o[1]) in ('malloc', 'calloc') or o == ('arg', 'argv'):
            return p == 'ne'
    return None


# ------------------------------------------------------------------ launchers
def command_line(P, f, words):
    """paths of the parser for this command line"""
    n, v = pnames(f)[:2]
    argv = ['tool'] + words
    M = Strings(libc)

    def leaf(e):
        if e == ('arg', n):
            return len(argv)
        if e[0] == 'load':
            k = argument(e[1], v)
            if k is not None:
                return ('s', argv[k]) if k < len(argv) else 0
            if e[1][0] == 'g' and P.globals.get(e[1][1], {}).get('init') in (['null'], ['zero'], ['c', 0, 8], ['c', 0, 1], ['c', 0, 32]):
                return 0                            # statics still hold what they start with
        return M.leaf(e)
    return list(Flow(f, effects=M, leaf=leaf, cmp=nulls, limit=20000).paths()), leaf


def argument(e, v):
    k = 0
    while e[0] in ('ptr', 'idx', 'cgep'):
        if e[0] == 'cgep':
            k += e[2]
        elif strip(e[2])[0] == 'c':
            k += strip(e[2])[1] * (e[3] if len(e) > 3 and e[3] else 8)
        else:
            return None
        e = e[1]
    return k // 8 if e == ('arg', v) and k >= 0 and k % 8 == 0 else None


def settings(p):
    out = []
    for e in p.events:
        if e[0] == 'call' and short(e[2]) in ('setEnvironment', 'setenv', 'putenv'):
            a = [lit(x) for x in e[3]]
            out.append((a[0], a[1] if len(a) > 1 else None))
    return out


def globals_at(p, leaf, g, k=None):
    x = p.load(('g', g), 8 if k is not None else 1)
    v = leaf(x)
    x = x if v is None else v if isinstance(v, tuple) else C(v)
    if k is None:
        return x
    y = p.load(('cgep', x, 8 * k) if k else x, 8)
    if y[0] == 'load':
        v = leaf(y)
        y = y if v is None else v if isinstance(v, tuple) else C(v)
    return y


def launcher(P, R, f, tool, flags):
    run = ['./prog', 'a'] if tool == 'oclgrind' else ['x.sim']

    def expect(words, sets, ok=True, rest=None, key=None, mem=False, exits=False):
        ps, leaf = command_line(P, f, words)
        msg = None
        for p in ps:
            if exits:
                if p.end[0] == 'ret' and strip(p.ret) != C(0):
                    msg = 'goes on'
                continue
            if p.end[0] != 'ret':
                msg = 'is not followed to the end' if p.end[0] == 'iter' else 'ends the program'
                continue
            if settings(p) != sets and dict(settings(p)) != dict(sets):
                msg = 'sets %s instead of %s' % (', '.join('%s=%s' % x for x in settings(p)) or 'nothing', ', '.join('%s=%s' % x for x in sets) or 'nothing')
            r = strip(p.ret)
            if r[0] != 'c' or bool(r[1]) != ok:
                msg = msg or ('is %s' % ('rejected' if ok else 'accepted'))
            if ok and rest is not None:
                if tool == 'oclgrind':
                    g = [k for k in P.globals if P.globals[k].get('dn') == 'appArgs' and P.globals[k].get('t') == 'ptr']
                    got = [globals_at(p, leaf, g[0], k) for k in range(len(rest) + 1)] if g else []
                    if got != [('s', w) for w in rest] + [C(0)]:
                        msg = msg or 'does not hand on the command line of the program as given'
                else:
                    g = [k for k in P.globals if P.globals[k].get('dn') == 'simfile']
                    x = p.load(('g', g[0]), 8) if g else None
                    if x != ('s', rest[0]):
                        msg = msg or 'does not run the file named'
                    g = [k for k in P.globals if P.globals[k].get('dn') == 'outputGlobalMemory']
                    x = globals_at(p, leaf, g[0]) if g else None
                    if x is None or x[0] != 'c' or bool(x[1]) != mem:
                        msg = msg or 'global memory is %s' % ('not dumped' if mem else 'dumped')
        R.check(bool(ps) and msg is None, 'option' if ok and not exits else 'reject', '%s:%s' % (tool, key or ' '.join(words)), floc(f),
                '"%s %s": %s' % (tool, ' '.join(words), msg or 'no path'), fn=f)

    expect(run, [], rest=run)
    for o, n in sorted(VALUE.items()):
        expect([o, '123'] + run, [(O + n, '123')], rest=run)
        expect([o, '-v', '--quick'] + run, [(O + n, '-v'), ('OCLGRIND_QUICK', '1')], rest=run)
        expect([o], [], ok=False)
        expect(['-q', o], [('OCLGRIND_QUICK', '1')], ok=False)
    for o, n in sorted(flags.items()):
        expect([o] + run, [(O + n, '1')], rest=run)
        expect(['--log', 'f', o] + run, [(O + 'LOG', 'f'), (O + n, '1')], rest=run)
    allo = [w for o in sorted(VALUE) for w in (o, 'V' + o)] + sorted(flags)
    expect(allo + run, [(O + VALUE[o], 'V' + o) for o in sorted(VALUE)] + [(O + flags[o], '1') for o in sorted(flags)], rest=run, key='all together')
    for w in ('--foo', '-x', '-', '--', '--quickly', '--lo', '--log=f', '--data-race', '-Q'):
        expect([w] + run, [], ok=False)
    expect(['-q', '--foo'] + run, [('OCLGRIND_QUICK', '1')], ok=False)
    expect([], [], ok=False, key='nothing')
    expect(['-q'], [('OCLGRIND_QUICK', '1')], ok=False)
    for w in ('-h', '--help', '-v', '--version'):
        expect([w] + run, [], exits=True, ok=False)
    if tool == 'oclgrind':
        expect(['prog', '', 'b', ''], [], rest=['prog', '', 'b', ''])
        expect(['prog', '-q', '--log'], [], rest=['prog', '-q', '--log'])
        expect(['-i', 'prog'], [('OCLGRIND_INTERACTIVE', '1')], rest=['prog'])
    else:
        expect(['x.sim', '-q'], [('OCLGRIND_QUICK', '1')], rest=['x.sim'])
        expect(['x.sim', 'y.sim'], [], ok=False)
        expect(['-g', 'x.sim'], [], rest=['x.sim'], mem=True)
        expect(['x.sim', '--global-mem'], [], rest=['x.sim'], mem=True)
        expect(['--check-api', 'x.sim'], [], ok=False)
        expect(['x.sim', '--log'], [], ok=False)


def mains(P, R):
    for f in P.get('setEnvironment'):
        n = pnames(f)
        bad = []
        for p in Flow(f).paths():
            c = p.calls('setenv')
            if len(c) != 1 or [nz(x) for x in c[0][3][:2]] != [('arg', n[0]), ('arg', n[1])] or strip(c[0][3][2]) == C(0):
                bad.append(p)
        R.check(not bad, 'apply', f.tu, floc(f), 'a setting is not put into the environment (over what was there)', fn=f)
    for Q in [build.program([t], OPTS) for t in TUS[:2]]:
        f = Q.one('main')
        k = f.relfile()
        msg, n = None, 0
        old = ('s', '<old>')
        for has in (False, True):
            def hook(fl, st, i, c, a, m):
                s = short(c or '')
                if s.startswith('getLibDirPath'):
                    m.set(fl, st, a[0], '<lib>')
                    return True
                if s == 'getenv':
                    return ('s', '<%s>' % lit(a[0])) if has else C(0)
                return libc(fl, st, i, c, a, m) if c else None
            M = Strings(hook)
            for p in Flow(f, effects=M, leaf=M.leaf, cmp=nulls).paths():
                pa = [e for e in p.events if e[0] == 'call' and short(e[2]) == 'parseArguments']
                if len(pa) != 1 or [nz(x) for x in pa[0][3][:2]] != [('arg', x) for x in pnames(f)[:2]]:
                    msg = 'the command line is not parsed'
                    continue
                x = ('call', pa[0][2]) + tuple(pa[0][3])
                ok = [q for a, q in p.lits if a[0] == 'true' and a[1] == x]
                go = [e for e in p.events if e[0] == 'call' and (short(e[2]) in ('execvp', 'execv') or e[2].endswith(('Simulation::run', 'Simulation::load')))]
                n += 1
                if ok and not ok[0]:
                    if go or p.end[0] != 'ret' or strip(p.ret) == C(0):
                        msg = 'a rejected command line is run anyway'
                    continue
                if not ok:
                    msg = 'the outcome of parsing is ignored'
                if 'runtime' in k:
                    if len(go) != 1 or not mentions(go[0][3][1], lambda y: y[0] == 'g' and P.globals.get(y[1], {}).get('dn') == 'appArgs') or \
                            nz(go[0][3][0]) != ('load', nz(go[0][3][1])):
                        msg = 'the program is not launched with its command line'
                    s = dict(settings_text(p, M))
                    want = {'LD_PRELOAD': '<lib>/liboclgrind-rt.so' + (':<LD_PRELOAD>' if has else ''),
                            'LD_LIBRARY_PATH': '<lib>' + (':<LD_LIBRARY_PATH>' if has else '')}
                    if s != want:
                        msg = msg or 'the program is launched with %s' % s
                else:
                    l = [e for e in go if e[2].endswith('::load')]
                    r = [e for e in go if e[2].endswith('::run')]
                    if len(l) != 1 or not mentions(l[0][3][1], lambda y: y[0] == 'g' and P.globals.get(y[1], {}).get('dn') == 'simfile'):
                        msg = 'the file is not loaded'
                        continue
                    x = ('call', l[0][2]) + tuple(l[0][3])
                    q = [q for a, q in p.lits if a[0] == 'true' and a[1] == x]
                    if not q or q[0] != bool(r):
                        msg = 'a file that cannot be loaded is run, or one that can is not'
                    if q and not q[0] and strip(p.ret) == C(0):
                        msg = 'a file that cannot be loaded is no failure'
                    if r and not mentions(r[0][3][1], lambda y: y[0] == 'g' and P.globals.get(y[1], {}).get('dn') == 'outputGlobalMemory'):
                        msg = 'the request to dump global memory is not passed on'
        R.check(msg is None and n > 1, 'apply', 'main:' + f.tu, floc(f), msg or 'nothing is launched', fn=f)


def settings_text(p, M):
    out = []
    for e in p.events:
        if e[0] == 'call' and short(e[2]) in ('setEnvironment', 'setenv'):
            out.append((lit(e[3][0]), M.get(p.flow, p.st, e[3][1])))
    return out


# ------------------------------------------------------------------ readers
class Env(Strings):
    """the environment holds `env` and nothing else; project functions that only look at it are evaluated"""

    def __init__(self, P, env, more=None):
        Strings.__init__(self, None)
        self.P, self.vars, self.more, self.read, self.lost = P, env, more, set(), None
        self.memo = {}

    def __call__(self, fl, st, i, c, a):
        if c is None:
            return None
        if self.more:
            r = self.more(fl, st, i, c, a, self)
            if r is not None:
                return r
        s = short(c)
        if s in ('getenv', 'secure_getenv'):
            n = lit(a[0])
            if n is None:
                return None
            self.read.add(n)
            return ('s', self.vars[n]) if n in self.vars else C(0)
        r = libc(fl, st, i, c, a, self)
        if r is not None:
            return r
        n = lit(a[0]) if a else None
        if n is not None and n.startswith(O) and all(strip(x)[0] == 'c' or k == 0 for k, x in enumerate(a[1:])):
            return self.evaluate(c, a)
        return Strings.__call__(self, fl, st, i, c, a)

    def evaluate(self, c, a):
        k = (c,) + tuple(strip(x) for x in a)
        if k not in self.memo:
            self.memo[k] = None
            f = [g for g in self.P.get(c)]
            if len(f) == 1:
                ps = pnames(f[0])
                args_ = dict(zip(ps, a))

                def leaf(e):
                    if e[0] == 'arg' and e[1] in args_:
                        return args_[e[1]]
                    return self.leaf(e)
                out = [p for p in Flow(f[0], effects=self, leaf=leaf, cmp=nulls).paths()]
                if len(out) == 1 and out[0].end[0] == 'ret' and strip(out[0].ret)[0] == 'c':
                    self.memo[k] = strip(out[0].ret)
                else:
                    self.memo[k] = ('rejected', 0) if out and all(p.end[0] == 'unreachable' for p in out) else None
        return self.memo[k]


def site(P, f, env, leaf=None, more=None, **kw):
    M = Env(P, env, more)

    def lf(e):
        r = leaf(e) if leaf else None
        return M.leaf(e) if r is None else r
    return list(Flow(f, effects=M, leaf=lf, cmp=nulls, **kw).paths()), M


def settings_readers(P, R):
    """names the program reads from the environment"""
    out = {}
    for f in P.fns.values():
        for c in f.calls:
            if c.args and c.blk.id in f.idom:
                n = lit(f.expr(c.args[0]))
                if n and n.startswith(O) and short(c.callee or '') not in ('setEnvironment', 'setenv', 'unsetenv'):
                    out.setdefault(n, []).append((f, c))
    return out


def readers(P, R):
    rd = settings_readers(P, R)
    want = {O + n for n in list(VALUE.values()) + list(FLAG.values()) + ['CHECK_API']}
    anchor = P.get('Context::loadPlugins')[0]
    for n in sorted(want):
        R.check(n in rd, 'read', n, floc(anchor), 'no part of the simulator reads %s' % n)
    for n in sorted(set(rd) - want - PRIVATE):
        R.bad('read', n, rd[n][0][1].loc(), '%s is read, but no option sets it' % n, rd[n][0][0])

    # switches: on for "1" only
    f = anchor
    kinds = {'INST_COUNTS': 'InstructionCounter', 'DATA_RACES': 'RaceDetector', 'UNINITIALIZED': 'Uninitialized', 'INTERACTIVE': 'InteractiveDebugger'}
    for env in ({}, *({O + n: '1'} for n in kinds), {O + 'QUICK': '1'}, {O + n: '1' for n in kinds}, {O + 'DATA_RACES': '0'}, {O + 'UNINITIALIZED': ''}):
        ps, M = site(P, f, env)
        want = {'Logger', 'MemCheck'} | {k for n, k in kinds.items() if env.get(O + n) == '1'}
        msg = None
        for p in ps:
            if p.end[0] == 'unreachable':
                continue
            got = [m.group(1) for e in p.events if e[0] == 'call' for m in [re.match(r'(?:oclgrind::)?(\w+)::\1$', e[2] or '')] if m and m.group(1) in set(kinds.values()) | {'Logger', 'MemCheck'}]
            pb = [e for e in p.events if e[0] == 'call' and short(e[2]) in ('push_back', 'emplace_back') and nz(e[3][0]) == ('fld', THIS, 'm_plugins')]
            if sorted(got) != sorted(want):
                msg = 'loads %s instead of %s' % (', '.join(got), ', '.join(sorted(want)))
            elif len(pb) != len(got):
                msg = 'creates a plugin without using it'
        R.check(bool(ps) and msg is None, 'switch', 'plugins:' + ','.join('%s=%s' % x for x in env.items()), floc(f), 'with %s the simulator %s' % (env or 'nothing set', msg), fn=f)

    f = P.get('RaceDetector::RaceDetector')[0]
    for v in (None, '1', '0'):
        ps, M = site(P, f, {} if v is None else {O + 'UNIFORM_WRITES': v})
        got = {repr(strip(p.load(('fld', THIS, 'm_allowUniformWrites'), 1))) for p in ps}
        st = [strip(e[3]) for p in ps for e in p.stores() if nz(e[2]) == ('fld', THIS, 'm_allowUniformWrites')]
        ok = len(st) == len(ps) > 0 and all(x[0] == 'c' and bool(x[1]) == (v != '1') for x in st)
        R.check(ok, 'switch', 'UNIFORM_WRITES=%s' % v, floc(f), 'uniform writes are %s with OCLGRIND_UNIFORM_WRITES %s' % (
            'suppressed' if v == '1' else 'reported', 'set' if v else 'unset'), fn=f)

    f = [g for g in P.get('notifyAPIError')][0]
    for v in (None, '1', '0'):
        ps, M = site(P, f, {} if v is None else {O + 'CHECK_API': v})
        out = [any(e[0] == 'call' and 'operator<<' in (e[2] or '') and mentions(e[3][0], lambda x: x == ('g', '_ZSt4cerr')) for e in p.events) for p in ps if p.end[0] == 'ret']
        R.check(bool(out) and all(x == (v == '1') for x in out), 'switch', 'CHECK_API=%s' % v, floc(f), 'API errors are %s with OCLGRIND_CHECK_API %s' % (
            'not printed' if v == '1' else 'printed', 'set' if v else 'unset'), fn=f)

    f = P.get('KernelInvocation::KernelInvocation')[0]
    for v in (None, '1', '0'):
        ps, M = site(P, f, {} if v is None else {O + 'QUICK': v})
        loops = {p.end[1] for p in ps if p.end[0] == 'iter' and groups(p)}
        direct = [len(groups(p)) for p in ps if p.end[0] == 'ret']
        if v == '1':
            ok = not loops and direct and max(direct) == 2
        else:
            ok = bool(loops) and not any(direct)
        R.check(ok, 'switch', 'QUICK=%s' % v, floc(f), 'with OCLGRIND_QUICK=%s %s' % (v, 'more than the first and last groups are run' if v == '1' else 'not every group is run'), fn=f)
    for v in (None, '1', '7'):
        ps, M = site(P, f, {} if v is None else {O + 'NUM_THREADS': v}, more=lambda fl, st, i, c, a, m: C(1) if short(c) == 'isThreadSafe' else None)
        st = [strip(e[3]) for p in ps for e in p.stores() if nz(e[2]) == ('fld', THIS, 'm_numWorkers')]
        fin = [strip(p.load(('fld', THIS, 'm_numWorkers'), 4)) for p in ps if p.end[0] == 'ret']
        if v is None:
            ok = bool(fin) and any(mentions(x, lambda y: y[0] == 'call' and 'hardware_concurrency' in y[1]) for x in fin + st)
        else:
            last_ = [[strip(e[3]) for e in p.stores() if nz(e[2]) == ('fld', THIS, 'm_numWorkers')][-1:] for p in ps if p.end[0] == 'ret']
            ok = bool(last_) and all(x == [C(int(v))] for x in last_)
        R.check(ok, 'value', 'NUM_THREADS=%s' % v, floc(f), 'the number of worker threads does not follow OCLGRIND_NUM_THREADS', fn=f)

    # values
    f = P.get('Logger::Logger')[0]
    for v in (None, '0', '7', '4000000000'):
        ps, M = site(P, f, {} if v is None else {O + 'MAX_ERRORS': v})
        last_ = [[strip(e[3]) for e in p.stores() if nz(e[2]) == ('fld', THIS, 'm_maxErrors')][-1:] for p in ps if p.end[0] == 'ret']
        ok = bool(last_) and all(x and x[0][0] == 'c' and isinstance(x[0][1], int) and (v is None and x[0][1] > 0 or v is not None and x[0][1] % (1 << 32) == int(v)) for x in last_)
        R.check(ok, 'value', 'MAX_ERRORS=%s' % v, floc(f), 'the limit on messages does not follow OCLGRIND_MAX_ERRORS', fn=f)
    ps, M = site(P, f, {O + 'LOG': 'some.log'})
    ok = bool(ps) and all(logs(p, M) for p in ps if p.end[0] == 'ret')
    R.check(ok, 'value', 'LOG', floc(f), 'messages are not sent to the file OCLGRIND_LOG names', fn=f)
    ps, M = site(P, f, {})
    ok = bool(ps) and not any('ofstream' in (e[2] or '') for p in ps for e in p.events if e[0] == 'call')
    R.check(ok, 'value', 'LOG unset', floc(f), 'a log file is opened although none is named', fn=f)

    f = P.get('clIcdGetPlatformIDsKHR')[0]
    sizes = {'GLOBAL_MEM_SIZE': 'globalMemSize', 'CONSTANT_MEM_SIZE': 'constantMemSize', 'LOCAL_MEM_SIZE': 'localMemSize', 'MAX_WGSIZE': 'maxWGSize'}
    for n, m in sizes.items():
        for v in (None, '1000', '3000000000', '8589934592'):
            if n == 'MAX_WGSIZE' and v == '8589934592':
                continue
            ps, M = site(P, f, {} if v is None else {O + n: v})
            st = [strip(e[3]) for p in ps for e in p.stores() if e[2][0] == 'fld' and e[2][2] == m]
            ok = bool(st) and all(x[0] == 'c' and (v is None and isinstance(x[1], int) and x[1] > 0 or v is not None and x[1] == int(v)) for x in st)
            R.check(ok, 'value', '%s=%s' % (n, v), floc(f), 'the device has %s = %s with %s=%s' % (m, S(st[0]) if st else '?', O + n, v), fn=f)
    f = P.get('clGetDeviceInfo')[0]
    for v in (None, '12'):
        pn = pnames(f)[1]
        ps, M = site(P, f, {} if v is None else {O + 'COMPUTE_UNITS': v}, leaf=lambda e: 0x1002 if e == ('arg', pn) else None, limit=20000)
        ok = [p for p in ps if p.end[0] == 'ret' and strip(p.ret) == C(0)]
        vals = set()
        for p in ok:
            for e in p.events:
                if e[0] == 'copy' and nz(e[3][0]) == ('arg', 'param_value'):
                    vals.add(strip(p.at(e, e[3][1], 4)))
        R.check(vals == {C(int(v or 1))}, 'value', 'COMPUTE_UNITS=%s' % v, floc(f), 'the number of compute units reported is %s with OCLGRIND_COMPUTE_UNITS=%s' % (
            ', '.join(S(x) for x in vals), v), fn=f)


def groups(p):
    return [e for e in p.events if e[0] == 'call' and short(e[2]) in ('push_back', 'emplace_back') and nz(e[3][0]) == ('fld', THIS, 'm_workGroups')]


def logs(p, M):
    o = [e for e in p.events if e[0] == 'call' and 'ofstream' in (e[2] or '') and any(lit(x) == 'some.log' for x in e[3])]
    st = [strip(e[3]) for e in p.stores() if nz(e[2]) == ('fld', THIS, 'm_log')]
    good = [q for a, q in p.lits if a[0] == 'true' and is_call(strip(a[1]), 'good', 'is_open', 'operator bool')] + \
           [not q for a, q in p.lits if a[0] == 'true' and is_call(strip(a[1]), 'fail', 'operator!')]
    if not o or not st:
        return False
    to_file = not mentions(st[-1], lambda x: x == ('g', '_ZSt4cerr'))
    return to_file or bool(good) and not good[-1]


# ------------------------------------------------------------------ settings of the compiler
def compiler(P, R):
    f = P.get('Program::build')[0]

    def call_with(*names):
        return [c for c in f.calls if c.args and c.blk.id in f.idom and lit(f.expr(c.args[0])) in names]

    def pushes(t):
        return [c for c in f.calls if short(c.callee or '') in ('push_back', 'emplace_back') and len(c.args) > 1 and c.blk.id in f.idom and
                any(x == ('s', t) for x in texts(f, c))]

    def guarded(c, name, pol):
        for a, q in facts(f, c.blk.id):
            if a[0] == 'true' and a[1][0] == 'call' and len(a[1]) > 2 and lit(a[1][2]) == O + name and q == pol:
                return True
        return False
    o0, oz = pushes('-O0'), pushes('-Oz')
    R.check(bool(o0) and all(guarded(c, 'INTERACTIVE', True) for c in o0), 'build', 'INTERACTIVE:-O0', floc(f), 'optimisation is turned off without OCLGRIND_INTERACTIVE (or never)', fn=f)
    R.check(bool(oz) and all(guarded(c, 'INTERACTIVE', False) for c in oz), 'build', 'INTERACTIVE:-Oz', floc(f), 'programs are optimised in interactive mode (or never)', fn=f)
    sd = [c for c in f.calls if short(c.callee or '') == 'stripDebugIntrinsics' and c.blk.id in f.idom]
    R.check(all(guarded(c, 'INTERACTIVE', False) for c in sd), 'build', 'INTERACTIVE:debug', floc(f), 'variable information is dropped in interactive mode', fn=f)
    dump = [c for c in f.calls if c.blk.id in f.idom and (short(c.callee or '') in ('WriteBitcodeToFile', 'raw_fd_ostream') or (c.callee or '').endswith('ofstream<char, std::char_traits<char> >::open')
                                                          or 'ofstream' in (c.callee or '') and short(c.callee) == 'open')]
    R.check(len(dump) >= 3 and all(guarded(c, 'DUMP_SPIR', True) for c in dump), 'build', 'DUMP_SPIR', floc(f), 'source, IR and bitcode are not dumped exactly when OCLGRIND_DUMP_SPIR asks for it', fn=f)
    pre = [c for t in ('-include-pch',) for c in pushes(t)]
    inc = pushes('-include')
    R.check(bool(inc), 'build', 'include', floc(f), 'the OpenCL declarations are never included', fn=f)
    # up to the point where the arguments are complete
    stop = {c.blk.id for c in f.calls if short(c.callee or '') == 'CreateFromArgs'}
    sp = call_with(O + 'DISABLE_PCH')
    R.check(len(sp) == 1 and bool(pre), 'build', 'DISABLE_PCH', floc(f), 'OCLGRIND_DISABLE_PCH is not looked at once', fn=f)
    for c in sp[:1]:
        for text_, v in ((None, 0), ('1', 1), ('0', 0)):
            M = Env(P, {} if text_ is None else {O + 'DISABLE_PCH': text_})

            def eff(fl, st, i, cc, a):
                n = lit(a[0]) if a else None
                if cc and n == O + 'DISABLE_PCH' and i is c:
                    return M(fl, st, i, cc, a)
                if cc and n == O + 'PCH_DIR':
                    return ('s', '<dir>')
                return None
            used = dirs = False
            for p in Flow(f, effects=eff, cmp=nulls, limit=3000).paths(start=c.blk.id, stop=stop):
                ev = [e for e in p.events if e[0] == 'call']
                t = [lit(y) for e in ev if short(e[2]) in ('push_back', 'emplace_back') for y in [value(p, e)] if y is not None]
                used |= '-include-pch' in t
                dirs |= any(('s', '<dir>') in e[3] or any(mentions(y, lambda z: z == ('s', '<dir>')) for y in e[3]) for e in ev)
            R.check(used == (not v), 'build', 'pch:%s' % text_, c.loc(), 'precompiled headers are %s with OCLGRIND_DISABLE_PCH=%s' % ('used' if used else 'not used', text_), fn=f)
            if not v:
                R.check(dirs, 'build', 'PCH_DIR', c.loc(), 'OCLGRIND_PCH_DIR is not used to find the precompiled header', fn=f)
    # options of the program and of the setting
    bo = call_with(O + 'BUILD_OPTIONS')
    R.check(len(bo) >= 1, 'build', 'BUILD_OPTIONS', floc(f), 'OCLGRIND_BUILD_OPTIONS is not looked at', fn=f)
    for c in bo[:1]:
        lp = [l[0] for l in f.loops]
        opts = pnames(f)[2]
        for has in (False, True):
            for given in (False, True):
                def eff(fl, st, i, cc, a):
                    if cc and i is c:
                        return ('s', '<extra>') if has else C(0)
                    return None
                ok, n = True, 0
                given_ = ('s', '<main>') if given else C(0)

                def null(cond):
                    if cond[0] == 'icmp' and cond[1] in ('eq', 'ne') and cond[2:] == (('arg', opts), C(0)):
                        return (cond[1] == 'ne') == given
                    return None
                for p in Flow(f, effects=eff, cmp=nulls, decide=null, leaf=lambda e: given_ if e == ('arg', opts) else None, limit=3000).paths(start=c.blk.id, stop=set(lp)):
                    if p.end[0] != 'stop':
                        continue
                    n += 1
                    t = {lit(x) for e in p.events if e[0] == 'call' and short(e[2]) not in ('strlen',) for x in e[3]}
                    ok &= ('<extra>' in t) == has and ('<main>' in t) == given
                R.check(ok and n > 0, 'build', 'options:%d%d' % (given, has), c.loc(), 'the options of the program and those of OCLGRIND_BUILD_OPTIONS are not both used', fn=f)


def texts(f, c):
    """texts an argument of c may designate: directly, or stored in the temporary it points to"""
    e = f.expr(c.args[1])
    out = [e]
    if e[0] == 'alloca':
        out += [f.expr(i.args[0]) for i in c.blk.insts[:c.blk.insts.index(c)] if i.op == 'store' and f.expr(i.args[1]) == e][-1:]
    return out


def value(p, e):
    x = e[3][1]
    return p.at(e, x, 8) if x[0] == 'alloca' else x


# ------------------------------------------------------------------ the two ways to read a setting
def primitives(P, R):
    f = P.get('checkEnv')[0]
    for v, want in ((None, 0), ('1', 1), ('0', 0), ('', 0), ('11', 0), ('true', 0)):
        M = Env(P, {} if v is None else {'OCLGRIND_X': v})
        got = M.evaluate(f.qual, (('s', 'OCLGRIND_X'),))
        R.check(got is not None and got[1] in (0, 1, -1) and abs(got[1]) == want, 'text', 'checkEnv:%s' % v, floc(f), 'a switch set to "%s" is %s' % (v, 'off' if want else 'on'), fn=f)
    f = P.get('getEnvInt')[0]
    k = len(pnames(f))
    for v, zero, want in ((None, 1, 42), ('5', 1, 5), ('0', 1, 0), ('0', 0, None), ('12x', 1, None), ('abc', 1, None), ('010', 1, 10), ('0x10', 1, None), ('1 2', 1, None), ('18446744073709551615', 1, None), ('', 1, None), ('-5', 1, None), ('99999999999999999999999', 1, None),
                          ('4000000000', 0, 4000000000), ('4294967296', 1, None)):
        M = Env(P, {} if v is None else {'OCLGRIND_X': v})
        a = (('s', 'OCLGRIND_X'), C(42), C(zero)) + ((C(0xffffffff),) if k > 3 else ())
        got = M.evaluate(f.qual, a)
        if want is None:
            ok = got == ('rejected', 0)
        else:
            ok = got is not None and got[0] != 'rejected' and got[1] % (1 << 32) == want
        if k == 3 and v == '4294967296':
            ok = ok or got == C(1 << 32)
        R.check(ok, 'text', 'getEnvInt:%s:%d' % (v, zero), floc(f), 'a number set to "%s" is taken as %s' % (v, S(got) if got and got[0] != 'rejected' else 'an error' if got else 'unknown'), fn=f)


def run(P, R):
    R.rule('option', 'a command line sets exactly the variables its options name, with the values given, and hands on the rest', 60)
    R.rule('reject', 'a missing value, an unknown option and a missing or superfluous operand are rejected', 60)
    R.rule('apply', 'settings replace what the environment held, and nothing runs unless the command line was accepted', 4)
    R.rule('read', 'every variable an option sets is read by the simulator, and the other way round', 20)
    R.rule('switch', 'a switch turns on exactly its own feature, and only when set to 1', 15)
    R.rule('value', 'a value is taken over by the feature it belongs to, unchanged', 20)
    R.rule('build', 'settings of the compiler reach the compiler', 10)
    R.rule('text', 'the text of a setting is read as documented', 12)
    for f in P.get('parseArguments'):
        tool = 'oclgrind' if 'runtime' in f.relfile() else 'oclgrind-kernel'
        launcher(P, R, f, tool, TOOLS[tool])
    mains(P, R)
    readers(P, R)
    compiler(P, R)
    primitives(P, R)
