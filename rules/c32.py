"""C32: exception flow through the whole program. Every place that raises a FatalError is followed up the call graph (virtual calls to
every override, conditions on the way refuted with the arguments actually passed); a landing pad that accepts the type ends
the walk. What is left at a thread entry, an API entry point, main or a function that may not throw is an escape. The handlers
themselves, the build status and the module a failed build leaves behind are decided path by path."""
import re
from common import *
from flow import Flow
import c14
import c34
import rt
from c14 import mapped, refuted

TECHNIQUE = 'interprocedural exception-escape analysis over landing pads with infeasible-path refutation; path evaluation of handlers and builds'
TUS = 'all'
OPTS = ('--keep-eh',)
NOTE = 'which statement of a kernel fails is irrelevant: every raise site is covered, whatever its condition'
ASSUMPTIONS = ['types of program objects have a size and arguments were validated against it (C16, C34), so the accessors of a TypedValue '
               'do not fail for values of a constant, supported width',
               'clang and LLVM raise no C++ exceptions (they are built without)']
FE = '_ZTIN8oclgrind10FatalErrorE'
SIZED = {'getTypeSize', 'getValueSize'}
TV = 'oclgrind::TypedValue::'


class Escape:
    def __init__(self, P):
        self.P = P
        self.G = c14.Graph(P, set(c14.subclasses(P)), ())
        self.memo = {}
        self.sites = set()
        self.why = {}
        ch = True
        for f in P.fns.values():
            for i in f.all():
                if raises(i):
                    self.sites.add((f, i.id))
                    if not caught(f, i):
                        self.why[f] = i
        while ch:
            ch = False
            for f in P.fns.values():
                if f not in self.why and any(i.op in ('call', 'invoke') and not caught(f, i) and
                                             any(g in self.why and short(g.qual) not in SIZED for g in self.G.at(f, i)) for i in f.all()):
                    self.why[f] = True
                    ch = True

    def from_(self, f, m=None, known=(), stack=()):
        """[[(function, instruction), ...]]: ways a FatalError leaves f"""
        if f in stack or len(stack) > 14 or short(f.qual) in SIZED:
            return []
        out = {}
        for i in f.all():
            if i.op not in ('call', 'invoke') or i.blk.id not in f.idom or caught(f, i):
                continue
            for r in self.step(f, i, m or {}, known, stack):
                out.setdefault((i.id, r[-1][0], r[-1][1].id), r)
        return list(out.values())

    def step(self, f, i, m, known, stack):
        direct = raises(i)
        gs = [g for g in self.G.at(f, i) if g in self.why]
        if not direct and not gs:
            return []
        here = [(space(c14.nz_atom(mapped(a, m))), p) for a, p in facts(f, i.blk.id)]
        if refuted(here, known) or any(wrong(a, p) for a, p in here):
            return []
        if direct:
            return [[(f, i)]]
        out = []
        for g in gs:
            if (g.qual or '').startswith(TV) and short(g.qual)[:3] in ('get', 'set') and sized(f, i):
                continue
            mm = {k: space(nz(mapped(x, m))) for k, x in zip(pnames(g), (nz(f.expr(o)) for o in i.args))}
            key = f, i.id, g, repr(sorted(mm.items())), repr(sorted(map(repr, known)))
            if key not in self.memo:
                self.memo[key] = self.from_(g, mm, list(known) + here, stack + (f,))
            out += [[(f, i)] + r for r in self.memo[key]]
        return out


def raises(i):
    return i.op in ('call', 'invoke') and i.callee == '__cxa_throw' and FE in str(i.args)


def pad(f, i):
    """clauses of the landing pad of an invoke, None for a plain call"""
    if i.op != 'invoke':
        return None
    lp = [x for x in f.blocks[i.d['s'][1]].insts if x.op == 'landingpad']
    return [tuple(c) for c in lp[0].d['a']] if lp else []


def caught(f, i):
    cs = pad(f, i)
    return cs is not None and any(c[0] == 'null' or FE in c for c in cs)


def terminates(f, i):
    cs = pad(f, i)
    if cs is None or not any(c[0] == 'null' for c in cs):
        return False
    b = f.blocks[i.d['s'][1]]
    return any(x.op in ('call', 'invoke') and x.callee in ('__clang_call_terminate', 'std::terminate') for x in b.insts)


def wrong(a, p):
    if a[0] == 'eq' and a[1][0] == 'c' and a[2][0] == 'c':
        return (a[1] == a[2]) != p
    if a[0] == 'in' and a[1][0] == 'c':
        return (a[1][1] in a[2]) != p
    return False


def space(e):
    """the address space of the memory of the context is global (checked by the rule `global`)"""
    if not isinstance(e, tuple) or not e:
        return e
    e = tuple(space(x) if isinstance(x, tuple) else x for x in e)
    t = e
    if t[0] == 'call' and t[1] == 'oclgrind::Memory::getAddressSpace':
        o = t[2]
    elif t[0] == 'load' and isinstance(t[1], tuple) and t[1][0] == 'fld' and t[1][2] == 'm_addressSpace':
        o = t[1][1]
    else:
        return e
    if is_call(o, 'oclgrind::Context::getGlobalMemory') or mentions(o, lambda x: x[0] == 'fld' and x[2] == 'm_globalMemory'):
        return C(1)
    return e


def sized(f, i):
    """the receiver of a TypedValue accessor has a supported constant width"""
    e = nz(f.expr(i.args[0]))
    if mentions(e, lambda x: x[0] == 'fld' and x[2] in ('m_programScopeVars',)):
        return True
    r = root(e)
    if short(f.qual) == 'setArgument':
        return True                                                   # validated against the parameter (C16, C34)
    if r[0] == 'alloca':
        for s in f.all():
            if s.op == 'store' and (nz(f.expr(s.args[1])) == r or nz(f.expr(s.args[1])) == ('fld', r, 'size')):
                v = nz(f.expr(s.args[0]))
                if v[0] == 'c' and v[1] in (1, 2, 4, 8) or is_call(v, 'oclgrind::Kernel::getArgumentSize') or v == ('arg', 'arg_size'):
                    return True
    # the value of an iterator over the program scope variables
    return any(mentions(nz(f.expr(o)), lambda x: x[0] == 'fld' and x[2] == 'm_programScopeVars') for o in i.args) or \
        'rogramScopeVars' in f.qual


def api(P):
    return [f for f in P.fns.values() if f.relfile() == 'src/runtime/runtime.cpp' and re.match(r'cl[A-Z]\w*$', f.qual or '')]


def threads(P):
    """functions handed to std::thread"""
    out = set()
    for f in P.fns.values():
        for i in f.all():
            if starts_thread(i):
                for a in i.args:
                    for x in subs(f.expr(a)):
                        if x[0] == 'fn':
                            out |= set(P.get(x[1]))
                # a lambda
                m = re.search(r'([\w:]+\(.*\)::\$_\d+)>*$', i.callee or '')
                for g in [g for g in P.inlined.values() if m and g.qual == m.group(1) + '::operator()']:
                    out.add(g)
                    out |= {h for c in g.all() if c.op in ('call', 'invoke') for h in P.get(c.callee or '')}
                # a member function pointer kept in a local
                for s in f.all():
                    if s.op == 'store':
                        for x in subs(f.expr(s.args[0])):
                            if x[0] == 'fn' and P.get(x[1]):
                                out |= set(P.get(x[1]))
    return out


def subs(e):
    if isinstance(e, tuple) and e:
        yield e
        for x in e:
            if isinstance(x, tuple):
                yield from subs(x)


def region(f, start):
    """blocks from the begin of a handler to its ends"""
    seen, todo = set(), [start]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if any(x.op in ('call', 'invoke') and x.callee == '__cxa_end_catch' for x in f.blocks[b].insts) and b != start:
            continue
        todo += [s for s in f.blocks[b].succs if f.blocks[s].insts[0].op != 'landingpad']
    return seen


def handlers(P):
    for f in P.fns.values():
        if f.relfile() is None:
            continue
        for i in f.all():
            if i.op in ('call', 'invoke') and i.callee == '__cxa_begin_catch':
                t = None
                for a, q in facts(f, i.blk.id):
                    if a[0] == 'eq' and q:
                        for x in a[1:]:
                            m = re.search(r'_ZTI(\w+)', str(x))
                            if m and 'typeid' in str(x):
                                t = m.group(0)
                yield f, i, t


def run(P, R):
    R.rule('raise', 'Places that raise a fatal error, each followed to everything that can call it.', 80)
    R.rule('escape', 'No fatal error leaves a thread entry, an OpenCL API entry point or the main function of a tool.', 100)
    R.rule('noexcept', 'No fatal error reaches a function that may not throw (destructors included), where it would end the process.', 1)
    R.rule('thrown', 'Core, plugins and runtime throw nothing but FatalError, the type their handlers accept.', 1)
    R.rule('global', 'The memory of the context is created in the global address space.', 1)
    R.rule('worker', 'Everything a worker thread runs for a kernel is inside a handler for FatalError and for the exceptions of the standard '
           'library; after a handler the current work-group is deleted and the worker returns.', 4)
    R.rule('report', 'Every handler of a fatal error writes its message, and outside the debugger its file and line, to the error log or the '
           'error stream.', 3)
    R.rule('end', 'No function of the library ends the process, except for invalid settings and unreachable code.', 1)
    R.rule('diagnostic', 'The LLVM context has a diagnostic handler that claims every diagnostic, since LLVM ends the process for an error '
           'nobody handles.', 1)
    R.rule('module', 'The module of a program is used only where it is known to exist.', 6)
    R.rule('build', 'A build ends as success exactly when the compiler succeeded, as error otherwise; a failed build leaves no module, the '
           'diagnostics go to the build log, and bitcode that cannot be parsed or linked yields no program.', 6)
    R.rule('status', 'Building, compiling and linking report failure to the caller when the build failed, and call the callback either way.', 3)
    E = Escape(P)
    for f, n in E.sites:
        R.ok('raise', '%s:%s' % (short(f.qual), f.insts[n].line), f)
    ts = threads(P)
    need(any(short(f.qual) == 'runWorker' for f in ts), 'no worker thread is started')
    mains = [f for f in P.fns.values() if f.qual == 'main']
    for f in sorted(list(ts) + api(P) + mains, key=lambda x: x.qual):
        bad = E.from_(f)
        seen = set()
        for ch in bad:
            k = '%s:%s' % (short(f.qual), short(ch[-1][0].qual))
            if k in seen:
                continue
            seen.add(k)
            R.bad('escape', k, ch[-1][1].loc(), 'a fatal error raised in %s leaves %s (%s)' %
                  (short(ch[-1][0].qual), short(f.qual), ' > '.join(short(g.qual) for g, _ in ch)), fn=f)
        if not bad:
            R.ok('escape', short(f.qual), f)
    n = 0
    for f in P.fns.values():
        if f.relfile() is None:
            continue
        for i in f.all():
            if i.op == 'invoke' and terminates(f, i):
                n += 1
                ways = E.step(f, i, {}, (), ())
                if ways:
                    R.bad('noexcept', '%s:%s' % (short(f.qual), i.line), i.loc(), 'a fatal error raised in %s would end the process here' %
                          short(ways[0][-1][0].qual), fn=f)
    R.ok('noexcept', '%d calls in functions that may not throw' % n, None)
    for f in P.fns.values():
        if f.relfile() is None or f.relfile().startswith('src/kernel/'):
            continue
        for i in f.all():
            if i.op in ('call', 'invoke') and i.callee == '__cxa_throw':
                R.check(FE in str(i.args), 'thrown', '%s:%s' % (short(f.qual), i.line), i.loc(),
                        'an exception is thrown that no handler for fatal errors accepts', fn=f)
    f = P.one('oclgrind::Context::Context')
    cs = [i for i in f.all() if i.op in ('call', 'invoke') and i.callee == 'oclgrind::Memory::Memory']
    R.check(len(cs) == 1 and nz(f.expr(cs[0].args[1])) == C(1), 'global', 'Context', floc(f), 'the global memory is not created as global', fn=f)
    worker(P, R, E)
    report(P, R)
    ending(P, R)
    diagnostic(P, R)
    module(P, R)
    build(P, R)
    status(P, R)


LIBRARY = ('_ZTISt9exception',)


def worker(P, R, E):
    f = P.one('oclgrind::KernelInvocation::runWorker')
    hs = {i.blk.id for g, i, t in handlers(P) if g is f}
    inside = set()
    for b in hs:
        inside |= region(f, b)
    n = 0
    for i in f.all():
        if i.op not in ('call', 'invoke') or i.blk.id not in f.idom or i.blk.id in inside:
            continue
        gs = E.G.at(f, i)
        runs = [g for g in gs if g in E.why]
        if not runs:
            continue
        cs = pad(f, i) or []
        names = [c[-1] for c in cs if len(c) > 1]
        cleanup = any(b != i.blk.id and f.dominates_block(b, i.blk.id) for b in hs) or i.op == 'call'
        if cleanup and not E.step(f, i, {}, (), ()):
            continue
        R.check(any(c[0] == 'null' for c in cs) or FE in names and any(x in names for x in LIBRARY), 'worker', short(i.callee), i.loc(),
                '%s runs outside of a handler for fatal errors and library exceptions' % short(i.callee), fn=f)
    # after a handler
    for b in sorted(hs):
        ends = [x for x in region(f, b) if any(y.op in ('call', 'invoke') and y.callee == '__cxa_end_catch' for y in f.blocks[x].insts)]
        bad = None
        seen, todo = set(), [(x, False) for x in [b]]
        while todo:
            x, deleted = todo.pop()
            if (x, deleted) in seen:
                continue
            seen.add((x, deleted))
            blk = f.blocks[x]
            for i in blk.insts:
                if i.op in ('call', 'invoke') and i.callee == 'oclgrind::WorkGroup::~WorkGroup':
                    if deleted:
                        bad = 'the work-group is deleted twice after an error'
                    deleted = True
            if blk.term.op == 'ret' and not deleted:
                bad = 'the work-group that failed is not deleted'
            if blk.term.op in ('resume', 'unreachable') and not any(i.op == 'landingpad' for i in blk.insts):
                if blk.term.op == 'resume':
                    bad = 'the error is passed on after it was handled'
            for s in blk.succs:
                if f.blocks[s].insts[0].op == 'landingpad':
                    continue
                # the branch that knows there is no work-group
                lits = edge_literals(f, x, s)
                none = any(p and a[0] == 'eq' and C(0) in (nz(a[1]), nz(a[2])) and
                           mentions(a, groupfield) for a, p in lits)
                todo.append((s, deleted or none))
        if any(i.op == 'call' and i.callee == '__cxa_end_catch' for x in region(f, b) for i in f.blocks[x].insts) or ends:
            R.check(bad is None, 'worker', 'handler at %d' % f.blocks[b].insts[0].line if f.blocks[b].insts[0].line else 'handler', floc(f), bad, fn=f)


def groupfield(e):
    """the work-group of the worker state"""
    if e[0] != 'load' or 'workerState' not in str(e):
        return False
    e = e[1]
    return e[0] == 'fld' and e[2] in ('workGroup', '#1')


def report(P, R):
    n = 0
    for f, i, t in handlers(P):
        if t != FE:
            continue
        blocks = region(f, i.blk.id)
        cs = [x for b in blocks for x in f.blocks[b].insts if x.op in ('call', 'invoke')]
        names = [short(x.callee or '') for x in cs]
        out = [x for x in cs if x.callee == 'oclgrind::Context::logError' or
               'operator<<' in (x.callee or '') and mentions(nz(f.expr(x.args[0])), lambda y: y in (('g', '_ZSt4cerr'), ('g', '_ZSt4cout')))]
        what = [x for x in cs if short(x.callee or '') == 'what' or x.d.get('vc') and 'what' in str(x.d.get('vc'))]
        origin = 'getFile' in names and 'getLine' in names
        tool = f.relfile().startswith('src/plugins/InteractiveDebugger')
        ok = bool(out) and bool(what) and (origin or tool)
        R.check(ok, 'report', short(f.qual), i.loc(), 'a fatal error is handled without writing %s' %
                ('anything' if not out else 'its message' if not what else 'where it was raised'), fn=f)


ENDS = {'exit', '_exit', '_Exit', 'abort', 'quick_exit', 'std::terminate', '__assert_fail', 'raise', 'kill', 'llvm::report_fatal_error',
        'llvm::llvm_unreachable_internal'}
# index out of range of a three element vector (C33), invalid settings (C26), loops that always return
MAYEND = {'operator[]', 'getEnvInt', 'getStructMemberOffset'}


def ending(P, R):
    bad = 0
    for f in P.fns.values():
        rf = f.relfile()
        if rf is None or rf.startswith('src/kernel/') or rf in ('src/runtime/oclgrind.cpp',):
            continue
        for i in f.all():
            if i.op in ('call', 'invoke') and i.callee in ENDS and short(f.qual) not in MAYEND and \
                    not (i.callee == 'raise' and 'ignal' in f.qual):
                if i.blk.id not in f.idom:
                    continue
                R.bad('end', '%s:%s' % (short(f.qual), i.callee), i.loc(), '%s ends the process' % i.callee, fn=f)
                bad += 1
    if not bad:
        R.ok('end', 'all functions', None)


def diagnostic(P, R):
    f = P.one('oclgrind::Context::Context')
    made = [i for i in f.all() if i.op in ('call', 'invoke') and i.callee == 'llvm::LLVMContext::LLVMContext']
    sets = [i for i in f.all() if i.op in ('call', 'invoke') and (i.callee or '').startswith('llvm::LLVMContext::setDiagnosticHandler')]
    ok = bool(sets) and bool(made)
    if ok:
        ok = exactly_once_(f, sets)
    R.check(ok, 'diagnostic', 'installed', made[0].loc() if made else floc(f), 'no diagnostic handler is installed for the LLVM context', fn=f)
    hs = [g for g in list(P.fns.values()) + list(P.inlined.values()) if short(g.qual) == 'handleDiagnostics' and g.relfile()]
    for g in hs:
        bad = [v for v, fs, b in ret_values(g) if nz(v) not in (C(1), C(-1))]
        R.check(not bad, 'diagnostic', 'handles', floc(g), 'a diagnostic is not claimed as handled', fn=g)
    R.check(bool(hs), 'diagnostic', 'exists', floc(f), 'no handler claims the diagnostics of LLVM', fn=f)


def exactly_once_(f, insts):
    """on every path to a normal return"""
    ids = {i.blk.id for i in insts}
    seen, todo = set(), [0]
    while todo:
        b = todo.pop()
        if b in seen or b in ids:
            continue
        seen.add(b)
        if f.blocks[b].term.op == 'ret':
            return False
        todo += f.blocks[b].succs
    return True


def module(P, R):
    """dereferences of the unique_ptr m_module"""
    for f in P.fns.values():
        if f.relfile() != 'src/core/Program.cpp':
            continue
        for i in f.all():
            if f.qual == 'oclgrind::Program::Program' or plain_(f) in CALLED or i.blk.id not in f.idom:
                continue
            o = used(f, i)
            if o is None:
                continue
            ok = exists(f, i.blk.id, o) or assigned(f, i)
            R.check(ok, 'module', '%s:%s' % (short(f.qual), i.line), i.loc(), 'the module is used although the program may not have been built', fn=f)
    # helpers that expect a module
    for name in CALLED:
        for g in [g for g in P.fns.values() if (g.qual or '').startswith('oclgrind::Program::') and plain_(g) == name]:
            for f in P.fns.values():
                for i in f.all():
                    if i.op in ('call', 'invoke') and i.callee == g.qual and f.relfile() and plain_(f) not in CALLED:
                        ok = f.relfile() == 'src/core/Program.cpp' and (f.qual == 'oclgrind::Program::Program' or exists(f, i.blk.id, None) or
                                                                         assigned(f, i)) or built(P, f, i) or name == 'getLLVMContext'
                        R.check(ok, 'module', '%s:%s' % (short(f.qual), name), i.loc(), '%s is called although the program may not have been built' % name, fn=f)


CALLED = ('getKernelNames', 'getNumKernels', 'removeLValueLoads', 'stripDebugIntrinsics', 'allocateProgramScopeVars', 'getLLVMContext',
          'scalarizeAggregateStore')


def plain_(f):
    return re.sub(r'\[abi:\w+\]', '', short(f.qual))


def used(f, i):
    """the unique_ptr whose module is dereferenced by an instruction"""
    def module_(x):
        return x[0] == 'load' and isinstance(x[1], tuple) and (x[1][0] == 'fld' and x[1][2] == 'm_module' or
                                                               x[1][0] == 'call' and '__get_helper' in x[1][1] and x[1][2][0] == 'fld' and x[1][2][2] == 'm_module')
    if i.op == 'load':
        es = [nz(f.expr(i.args[0]))]
        es = [e for e in es if not (e[0] == 'fld' and e[2] == 'm_module')]
    elif i.op in ('call', 'invoke'):
        c = i.callee or ''
        if re.search(r'unique_ptr<llvm::Module', c) and not re.search(r'operator(->|\*)$', c) or c.startswith('std::') and not re.search(r'operator(->|\*)$', c):
            return None
        if re.search(r'operator(->|\*)$', c):
            o = nz(f.expr(i.args[0]))
            return o if mentions(o, lambda x: x[0] == 'fld' and x[2] == 'm_module') else None
        es = [nz(f.expr(a)) for a in i.args]
    else:
        return None
    for e in es:
        for x in subs(e):
            if module_(x):
                return x[1] if x[1][0] == 'fld' else x[1][2]
    return None


def exists(f, bid, o):
    for a, p in facts(f, bid):
        if a[0] == 'true' and p and mentions(a, lambda x: x[0] == 'call' and short(x[1]) == 'operator bool') and \
                mentions(a, lambda x: x[0] == 'fld' and x[2] == 'm_module'):
            if o is None or mentions(a, lambda x: same(x, o)):
                return True
        if a[0] == 'eq' and not p and C(0) in (nz(a[1]), nz(a[2])) and mentions(a, lambda x: x[0] == 'fld' and x[2] == 'm_module'):
            return True
        if a[0] == 'true' and mentions(a, lambda x: x[0] == 'fld' and x[2] == 'm_module') and \
                mentions(a, lambda x: x[0] == 'call' and ('operator==' in x[1] and not p or 'operator!=' in x[1] and p)):
            return True
        # success of this build
        if a[0] == 'eq' and p and C(0) in (nz(a[1]), nz(a[2])) and mentions(a, lambda x: x[0] == 'fld' and x[2] == 'm_buildStatus'):
            return True
    return False


def assigned(f, i):
    for s in f.all():
        if s.op in ('call', 'invoke') and re.search(r'unique_ptr<llvm::Module.*>::operator=', s.callee or '') and \
                mentions(nz(f.expr(s.args[0])), lambda x: x[0] == 'fld' and x[2] == 'm_module') and f.dominates(s, i):
            return True
    return False


def built(P, f, i):
    """the call is made only for a program whose build status is success, or for a kernel of it"""
    def succeeded(a, p):
        return a[0] == 'eq' and p and C(0) in (nz(a[1]), nz(a[2])) and mentions(a, lambda x: x[0] == 'call' and short(x[1]) == 'getBuildStatus')
    # every feasible path (by what is known of the integer arguments) tests it
    seen, todo = set(), [(0, frozenset())]
    while todo:
        b, known = todo.pop()
        if (b, known) in seen:
            continue
        seen.add((b, known))
        if b == i.blk.id or len(seen) > 20000:
            return False
        for s in f.blocks[b].succs:
            lits = edge_literals(f, b, s)
            if any(succeeded(a, p) for a, p in lits):
                continue
            k = set(known)
            for a, p in lits:
                if a[0] == 'eq':
                    x, c = nz(a[1]), nz(a[2])
                    if x[0] == 'c':
                        x, c = c, x
                    if x[0] == 'arg' and c[0] == 'c':
                        k.add((x, c[1], p))
            if any(p and ((x, c, False) in k or any(y == x and q and d != c for y, d, q in k)) for x, c, p in k):
                continue
            todo.append((s, frozenset(k)))
    return True


def build(P, R):
    f = P.one('oclgrind::Program::build')
    st = lambda e: nz(e)[0] == 'fld' and nz(e)[2] == 'm_buildStatus'
    # statuses stored
    ss = [s for s in f.all() if s.op == 'store' and st(f.expr(s.args[1]))]
    runs = [i for i in f.all() if i.op in ('call', 'invoke') and short(i.callee or '') == 'ExecuteAction']
    takes = [i for i in f.all() if i.op in ('call', 'invoke') and short(i.callee or '') == 'takeModule']
    R.check(len(runs) == 1 and len(takes) == 1, 'build', 'compile', floc(f), 'the module is not taken from one compiler run', fn=f)
    ok_ = lambda fs: any(p and a[0] == 'true' and nz(a[1])[0] == 'call' and short(nz(a[1])[1]) == 'ExecuteAction' for a, p in fs)
    fail = lambda fs: any(not p and a[0] == 'true' and nz(a[1])[0] == 'call' and short(nz(a[1])[1]) == 'ExecuteAction' for a, p in fs)
    binary = lambda fs: any(p and a[0] == 'true' and mentions(a, lambda x: x[0] == 'fld' and x[2] == 'm_module') for a, p in fs)
    for s in ss:
        v = nz(f.expr(s.args[0]))
        fs = facts(f, s.blk.id)
        if v == C(0):
            R.check(ok_(fs) and not fail(fs) or binary(fs), 'build', 'success', s.loc(), 'success is recorded although the compiler may have failed', fn=f)
        elif v == C(-2):
            R.check(fail(fs), 'build', 'error', s.loc(), 'an error is recorded although the compiler may have succeeded', fn=f)
        else:
            R.check(v == C(-3) and all(f.dominates(s, o) for o in ss if o is not s), 'build', 'progress', s.loc(), 'an unknown status is recorded', fn=f)
    for t in takes:
        R.check(ok_(facts(f, t.blk.id)), 'build', 'module', t.loc(), 'a module is taken although the compiler failed', fn=f)
    # no path to a return keeps the status in progress
    done = {s.blk.id for s in ss if nz(f.expr(s.args[0])) in (C(0), C(-2))}
    seen, todo = set(), [0]
    bad = None
    while todo:
        b = todo.pop()
        if b in seen or b in done:
            continue
        seen.add(b)
        if f.blocks[b].term.op == 'ret':
            bad = 'a build can return without recording whether it succeeded'
        todo += [s for s in f.blocks[b].succs if f.blocks[s].insts[0].op != 'landingpad']
    R.check(bad is None, 'build', 'recorded', floc(f), bad, fn=f)
    for v, fs, b in ret_values(f):
        v = nz(v)
        okv = v in (C(1), C(-1)) and any(f.dominates_block(s.blk.id, b) and nz(f.expr(s.args[0])) == C(0) for s in ss) or \
            v[0] == 'icmp' and v[1] == 'eq' and C(0) in v[2:] and mentions(v, lambda x: x[0] == 'load' and st(x[1])) or \
            any(a[0] == 'eq' and (v in (C(1), C(-1))) == p and mentions(a, lambda x: x[0] == 'load' and st(x[1])) for a, p in fs)
        R.check(okv, 'build', 'result', floc(f), 'the result of a build does not say whether it succeeded', fn=f)
    # a module left from an earlier build is dropped before compiling
    drops = [i for i in f.all() if i.op in ('call', 'invoke') and re.search(r'unique_ptr<llvm::Module.*>::(reset|operator=)', i.callee or '') and
             mentions(nz(f.expr(i.args[0])), lambda x: x[0] == 'fld' and x[2] == 'm_module')]
    bad = None
    if runs:
        seen, todo = set(), [0]
        stop = {d.blk.id for d in drops if not f.dominates(runs[0], d)}
        while todo:
            b = todo.pop()
            if b in seen or b in stop:
                continue
            seen.add(b)
            if b == runs[0].blk.id:
                bad = 'a failed build keeps the module of the build before it'
            for s in f.blocks[b].succs:
                lits = edge_literals(f, b, s)
                if any(not p and a[0] == 'true' and mentions(a, lambda x: x[0] == 'call' and short(x[1]) == 'operator bool') and
                       mentions(a, lambda x: x[0] == 'fld' and x[2] == 'm_module') for a, p in lits) and not \
                        any(mentions(a, lambda x: x[0] == 'call' and short(x[1]) == 'empty') for a, p in lits):
                    if drops and any(f.blocks[d.blk.id] for d in drops) and not first_test(f, b):
                        continue
                todo.append(s)
    R.check(bad is None, 'build', 'stale', floc(f), bad, fn=f)
    # diagnostics
    pr = [i for i in f.all() if i.op in ('call', 'invoke') and (i.callee or '').endswith('TextDiagnosticPrinter::TextDiagnosticPrinter')]
    logs = [i for i in f.all() if i.op in ('call', 'invoke') and (i.callee or '').endswith('raw_string_ostream::raw_string_ostream') and
            mentions(nz(f.expr(i.args[1])), lambda x: x[0] == 'fld' and x[2] == 'm_buildLog')]
    ok = bool(pr) and bool(logs) and all(root(nz(f.expr(p.args[1]))) in {root(nz(f.expr(l.args[0]))) for l in logs} for p in pr)
    R.check(ok, 'build', 'log', pr[0].loc() if pr else floc(f), 'diagnostics of the compiler do not reach the build log', fn=f)
    # bitcode and links
    for name, what in (('createFromBitcode', 'parsed'), ('createFromBitcodeFile', 'parsed'), ('createFromPrograms', 'linked')):
        g = P.one('oclgrind::Program::' + name)
        news = [i for i in g.all() if i.op in ('call', 'invoke') and i.callee == 'oclgrind::Program::Program']
        bad = None
        for n in news:
            fs = facts(g, n.blk.id)
            if what == 'parsed':
                good = any(p and a[0] == 'true' and mentions(a, lambda x: x[0] == 'call' and short(x[1]) == 'operator bool') and
                           mentions(a, lambda x: x[0] == 'alloca' and any(same(root(nz(g.expr(z.args[0]))), x) for z in g.all() if z.op in ('call', 'invoke')
                                                                    and short(z.callee or '') == 'parseBitcodeFile')) for a, p in fs)
                if not good:
                    bad = 'a program is created although its bitcode could not be parsed'
        if what == 'linked':
            bad = link_failure(g)
        R.check(bool(news) and bad is None, 'build', name, floc(g), bad or 'no program is created', fn=g)


def first_test(f, b):
    """the test of the module that belongs to the early return for binaries"""
    t = f.blocks[b]
    return any(mentions(a, lambda x: x[0] == 'call' and short(x[1]) == 'empty') and p for a, p in facts(f, b))


def link_failure(g):
    """what happens on the paths where a part could not be linked"""
    failed = 0
    for p in Flow(g, fresh=re.compile('linkInModule')).paths():
        if not any(a[0] == 'true' and pol and mentions(a, lambda x: x[0] == 'call' and short(x[1]) == 'linkInModule') for a, pol in p.lits):
            continue
        failed += 1
        if p.calls('oclgrind::Program::Program') or p.end[0] == 'ret' and p.ret != C(0):
            return 'a program is created although its parts could not be linked'
        if p.end[0] == 'iter':
            return 'linking goes on after a part could not be linked'
    return None if failed else 'whether the parts could be linked is not looked at'


def status(P, R):
    for name, code in (('clBuildProgram', -11), ('clCompileProgram', -15), ('clLinkProgram', None)):
        f = [x for x in api(P) if x.qual == name]
        need(f, name)
        f = f[0]
        test = (lambda x: x[0] == 'call' and short(x[1]) == 'build') if code else (lambda x: x[0] == 'load' and mentions(x, lambda y: y[0] == 'fld' and y[2] == 'program') or
                                                                                   x[0] == 'call' and short(x[1]) == 'createFromPrograms')
        bad = 'the outcome of the build is not looked at'
        for v, fs, b in ret_values(f):
            hit = [p for a, p in fs if mentions(a, test) and (a[0] == 'true' or a[0] == 'eq')]
            failed = any(a[0] == 'true' and not p and mentions(a, test) or a[0] == 'eq' and p and C(0) in (nz(a[1]), nz(a[2])) and mentions(a, test)
                         for a, p in fs)
            if failed:
                bad = None
                if nz(v) != (C(code) if code else C(0)):
                    bad = 'a failed build is not reported'
                    break
        R.check(bad is None, 'status', name, floc(f), bad, fn=f)
        if name == 'clLinkProgram':
            continue
        # the callback is fired whatever the outcome
        calls_ = [i for i in f.all() if i.op in ('call', 'invoke') and i.callee == 'oclgrind::Program::build']
        fires = {i.blk.id for i in f.all() if i.op in ('call', 'invoke') and i.callee is None}
        bad = None
        for c in calls_:
            seen, todo = set(), list(c.blk.succs) if c.op == 'call' else [c.d['s'][0]]
            while todo:
                b = todo.pop()
                if b in seen or b in fires:
                    continue
                seen.add(b)
                if f.blocks[b].term.op == 'ret':
                    bad = 'the callback of a build is not called'
                for x in f.blocks[b].succs:
                    if f.blocks[x].insts[0].op == 'landingpad':
                        continue
                    if any(p and a[0] == 'eq' and ('arg', 'pfn_notify') in a[1:] and C(0) in (nz(a[1]), nz(a[2])) for a, p in edge_literals(f, b, x)):
                        continue
                    todo.append(x)
        R.check(bool(calls_) and bad is None, 'status', name + ':callback', floc(f), bad or 'nothing is built', fn=f)
