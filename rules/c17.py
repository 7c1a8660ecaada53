"""C17: on every path through every function that hands out an object together with an error code, the returned pointer and
the last code stored through the caller's error location are paired: an object known to be non-null with CL_SUCCESS, or
null with a specific failure code.  Delegated results are followed into the function that produces them.  With no error
location given, nothing is stored through it."""
from common import *
from flow import Flow
import rt
import c16

TECHNIQUE = 'path-wise value propagation over every creation function: pairing of the returned pointer with the reported code'
TUS = rt.TUS
NOTE = 'Allocation failure of the host is not modelled (operator new throws). Events handed out by enqueue functions are covered by C20.'


MAKES = ('createKernel', 'createFromBitcode', 'createFromPrograms', 'createFromBitcodeFile', 'allocateBuffer', 'createHostBuffer', 'mapBuffer',
         'getPointer')


def creators(P):
    return [f for f in rt.functions(P) if rt.errarg(f) and f.d['sig'][0] != 'cl_int' and f.d['sig'][0] != 'void']


def run(P, R):
    R.rule('paired', 'on every way out an object is returned exactly when CL_SUCCESS is reported', 25)
    R.rule('reported', 'every way out stores a code through the error location, and a failure stores a specific failure code', 25)
    R.rule('noloc', 'without an error location nothing is stored through it', 25)
    R.rule('outcome', 'a function that can succeed has both outcomes: success with an object, and failure', 15)
    R.rule('valid', 'what a returned object stands for (simulated memory, kernel, program) was actually made', 4)
    fs = creators(P)
    ent = [f for f in rt.entry_points(P) if f.d['sig'][0].startswith('cl_') and f.d['sig'][0] not in ('cl_int',)]
    R.check(all(f in fs for f in ent), 'reported', 'channels', floc(ent[0]), 'no error location: %s' % [f.qual for f in ent if f not in fs])
    names = {f.qual for f in fs}
    made, raw = set(), set()
    zero = {}

    def codes(name, a, p):
        """set of codes a cl_int function can return for these arguments, or None"""
        r = set()
        for g in P.get(name):
            if not g.file.endswith('runtime.cpp') or g.d['sig'][0] != 'cl_int':
                return None
            nn = [('arg', q['dn']) for q, x in zip(g.params, a) if nonnull(p, x)]
            for q in Flow(g, decide=rt.nonnull(*nn)).paths():
                if q.end[0] == 'ret':
                    if q.ret[0] != 'c':
                        return None
                    r.add(q.ret[1])
        return r

    for f in fs:
        name = f.qual.split('::')[-1]
        e = rt.errarg(f)
        ps = list(Flow(f, decide=rt.nonnull(e), limit=20000).paths())
        bad, unrep, ok, fail = None, None, False, False
        for p in ps:
            if p.end[0] != 'ret':
                continue
            st = where(p, e)
            if st is None:
                unrep = unrep or 'returns without storing a code (%s)' % line(p)
                continue
            o = rt.outcome(f, p)
            ret = strip(p.ret)
            if o[0] == 'by':
                ev = [x for x in p.events if x[0] == 'call' and x[2] == o[1]][-1]
                if o[1] not in names:
                    unrep = unrep or 'leaves the code to %s' % short(o[1])
                    continue
                val = [v for v in (ret,) if v[0] == 'call' and v[1] == o[1]]
                n = known(p, ('call', o[1]) + tuple(ev[3]), o[1])
                if val:
                    ok = fail = True               # handed through
                elif ret == C(0) and n is False:
                    fail = True
                else:
                    bad = bad or 'returns %s although the code is that of %s (line %s)' % (S(ret), short(o[1]), ev[1].line)
                continue
            c = strip(o)
            if c[0] == 'c':
                v = c[1]
            else:
                v = None
                n = [pol for a, pol in p.lits if a[0] == 'eq' and strip(a[1]) == c and a[2] == C(0)]
                s = codes(c[1], c[2:], p) if c[0] == 'call' else None
                if n and s and (0 in s) is False and n[0] or n and s == {0} and not n[0]:
                    continue                       # the callee cannot return that
                if n:
                    v = 0 if n[0] else 'fail'
                elif s == {0}:
                    v = 0
                elif s and 0 not in s:
                    v = 'fail'
                if v is None:
                    bad = bad or 'returns %s with the code %s' % (S(ret), S(c))
                    continue
            if v == 0:
                ok = True
                for ev in p.stores():
                    v_ = strip(ev[3])
                    if v_[0] == 'call' and short(v_[1]).split('<')[0] in MAKES and root(ev[2]) == ret:
                        made.add((name, short(v_[1])))
                        if not nonnull(p, v_):
                            raw.add((name, short(v_[1])))
                if not nonnull(p, ret):
                    bad = bad or 'reports success but may return no object (line %s)' % st.line
            else:
                fail = True
                if ret != C(0):
                    bad = bad or 'returns an object with failure code %s (line %s)' % (v, st.line)
                if v != 'fail' and not -2000 < v < 0:
                    unrep = unrep or 'reports %s, which is no failure code (line %s)' % (v, st.line)
        R.check(bad is None, 'paired', name, floc(f), '%s %s' % (f.qual, bad), fn=f)
        R.check(unrep is None, 'reported', name, floc(f), '%s %s' % (f.qual, unrep), fn=f)
        if ok:
            R.check(ok and fail, 'outcome', name, floc(f), '%s never fails' % f.qual, fn=f)
        N = c16.Null(P)
        use = [u for p in Flow(f, leaf=lambda x: c16.NULL if x == e else None, cmp=c16.cmp, loads=True, limit=20000).paths() for u in N.uses(f, p)]
        R.check(not use, 'noloc', name, '%s:%s' % (f.file, use[0][0]) if use else floc(f), '%s: without an error location it %s' % (f.qual, use[0][1] if use else ''), fn=f)
    for k in sorted(made):
        R.check(k not in raw, 'valid', '%s:%s' % k, floc([f for f in fs if f.qual.endswith(k[0])][0]), '%s returns an object although %s may have failed' % k)
    kernels(P, R)


def line(p):
    return 'path ending in block %s' % p.end[1]


def where(p, e):
    r = None
    for ev in p.events:
        if ev[0] == 'store' and ev[2] == e or ev[0] == 'call' and e in ev[3]:
            r = ev[1]
    return r


def known(p, v, name):
    """is the call's result known null / non-null on the path (False / True)"""
    for a, pol in p.lits:
        if a[0] == 'eq' and a[2] == C(0):
            x = strip(a[1])
            if x == v or x[0] == 'call' and x[1] == name:
                return not pol
    return None


def nonnull(p, e):
    e = strip(e)
    b = e
    if b[0] == 'call' and b[1].startswith('operator new'):
        return True
    if b[0] in ('fld', 'alloca', 'g'):
        return True
    for a, pol in p.lits:
        if a[0] == 'eq' and not pol and a[2] == C(0) and strip(a[1]) == e:
            return True
        if a[0] == 'true' and pol and strip(a[1]) == e:
            return True
    return False


def kernels(P, R):
    R.rule('list', 'clCreateKernelsInProgram reports success only when every requested kernel was stored', 1)
    f = P.get('clCreateKernelsInProgram')
    need(len(f) == 1, 'clCreateKernelsInProgram')
    f = f[0]
    bad = None
    n = 0
    for p in Flow(f, limit=20000).paths():
        st = [ev for ev in p.stores() if mentions(ev[2], lambda x: x == ('arg', 'kernels'))]
        if p.end[0] == 'iter' and any(ev[0] == 'call' and (ev[2] or '').startswith('operator new') for ev in p.events) and \
                not any(ev[0] == 'call' and (ev[2] or '').startswith('operator delete') for ev in p.events):
            n += 1
            if not st or not all(nonnull(p, ev[3]) for ev in st):
                bad = bad or 'an iteration stores no kernel'
        for ev in p.stores():
            v = strip(ev[3])
            if v[0] == 'call' and short(v[1]) in MAKES and st and any(root(ev[2]) == strip(x[3]) for x in st) and not nonnull(p, v):
                bad = bad or 'hands out a kernel that may not have been made (line %s)' % ev[1].line
        if p.end[0] == 'ret' and st and not all(nonnull(p, ev[3]) for ev in st):
            bad = bad or 'stores no kernel'
    R.check(bad is None and n, 'list', 'kernels', floc(f), 'clCreateKernelsInProgram: %s' % (bad or 'no kernel is stored'), fn=f)
