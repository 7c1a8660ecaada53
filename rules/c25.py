"""C25: the dispatch table's initialiser is compared slot by slot with the loader's table layout (frozen from the ICD
specification's header) for the plain library and for the ICD driver build; every object made by the runtime carries that
table in its first member before it is handed out; name lookups return the function that was asked for."""
import os
from common import *
from flow import Flow
import rt

TECHNIQUE = 'exhaustive comparison of the table initialiser with the frozen slot layout; path-wise stores into new API objects'
TUS = ['runtime', 'async_queue', 'runtime_icd']
# slots of extensions the driver does not offer may be empty
OPTIONAL = re.compile(r'.*(D3D10|D3D11|DX9|EGL).*|.*EXT$|clGetKernelSubGroupInfoKHR')
EXPORTED = ('clGetExtensionFunctionAddress', 'clIcdGetPlatformIDsKHR')


def slots():
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'icd_slots.txt')) as f:
        return f.read().split()


def table(P):
    g = P.globals.get('m_dispatchTable')
    need(g and g.get('init'), 'm_dispatchTable')
    out = []

    def walk(x):
        if x[0] == 'arr':
            for y in x[1:]:
                walk(y)
        else:
            out.append(x)
    walk(g['init'])
    return out


def run(P, R):
    import build
    R.rule('slot', 'each slot holds the function of that name; only slots of extensions that are not offered are empty', 280)
    R.rule('private', 'no slot of the ICD driver can be bound to the loader\'s function of the same name', 110)
    R.rule('const', 'the table is never written', 1)
    R.rule('object', 'every object made by the runtime begins with the table before it is handed out', 12)
    R.rule('lookup', 'looking up a function by name returns the function of that name, or nothing', 3)
    want = slots()
    plain = build.program(['runtime', 'async_queue'])
    icd = build.program(['runtime_icd'])
    for which, p in (('rt', plain), ('icd', icd)):
        t = table(p)
        defs = {f.qual for f in p.fns.values()}
        for n, w in enumerate(want):
            x = t[n] if n < len(t) else ['zero']
            got = x[1] if x[0] == 'fn' else None
            key = '%s:%s' % (which, w)
            loc = 'src/runtime/runtime.cpp:m_dispatchTable[%d]' % n
            R.check(got in (w, '_' + w) and (got in defs or which == 'icd') or got is None and OPTIONAL.match(w), 'slot', key, loc,
                    'slot %d (%s) holds %s' % (n, w, got or 'nothing'))
            if which == 'icd' and got:
                R.check(got != w or w in EXPORTED, 'private', key, loc, 'slot %d refers to %s under the loader\'s own name' % (n, w))
        R.check(all(x[0] != 'fn' for x in t[len(want):]), 'slot', which + ':end', 'src/runtime/runtime.cpp', 'functions beyond the last slot')
    w = [f for f in plain.fns.values() for i in stores(f) if mentions(f.expr(i.args[1]), lambda e: e == ('g', 'm_dispatchTable'))]
    R.check(not w, 'const', 'table', 'src/runtime/runtime.cpp', 'the dispatch table is written by %s' % [f.qual for f in w])
    objects(plain, R)
    lookup(plain, R, 'rt')
    lookup(icd, R, 'icd')


def objects(P, R):
    n = 0
    for f in rt.functions(P):
        if re.search(r'(_cl_\w+|cl_image)::', f.qual) or not any((i.callee or '').startswith('operator new') for i in f.calls):
            continue
        bad, seen = {}, set()
        for p in Flow(f, limit=20000).paths():
            made = {}
            for ev in p.events:
                if ev[0] == 'call' and re.search(r'(^|::)(_cl_\w+|cl_image)::(_cl_\w+|cl_image)$', ev[2] or '') and len(ev[3]) == 1:
                    made[ev[3][0]] = (ev[1].line, None)
                    seen.add(ev[1].line)
                if ev[0] == 'call' and ev[2] and re.search(r'(_cl_\w+|cl_image)::operator=$', ev[2]) and ev[3][0] in made:
                    made[ev[3][0]] = (made[ev[3][0]][0], 'ok')
                if ev[0] == 'call' and (ev[2] or '').startswith('operator delete') and ev[3][0] in made:
                    del made[ev[3][0]]
                if ev[0] == 'call' and (ev[2] or '').startswith('operator new') and plainobj(f, p, ('call', ev[2]) + tuple(ev[3]), ev[1]):
                    made[newval(p, ev)] = (ev[1].line, None)
                    seen.add(ev[1].line)
                if ev[0] == 'store' and ev[2] in made:
                    made[ev[2]] = (made[ev[2]][0], 'ok' if same(ev[3], ('g', 'm_dispatchTable')) else 'bad')
            for k, (ln, st) in made.items():
                if st != 'ok' and p.end[0] in ('ret', 'iter') and (p.end[0] == 'ret' or any(mentions(ev[3], lambda x: x == k) for ev in p.stores())):
                    bad[ln] = st
        for ln in sorted(seen):
            n += 1
        for k in range(len(seen)):
            ln = sorted(seen)[k]
            R.check(ln not in bad, 'object', '%s:%d' % (f.qual, k), '%s:%s' % (f.file, ln), '%s hands out an object %s' % (
                f.qual, 'that begins with something else' if bad.get(ln) == 'bad' else 'without the dispatch table'), fn=f)


def newval(p, ev):
    return ('call', ev[2]) + tuple(ev[3])


def plainobj(f, p, v, inst):
    """an object of a handle type without constructor: returned as a handle or kept in a global handle"""
    hit = p.ret is not None and f.d['sig'][0] in rt.CODES and strip(p.ret)[:len(v)] == v
    return hit or any(e[2][0] == 'g' and strip(e[3])[:len(v)] == v for e in p.stores())


def cases(p, e, lits):
    if e[0] == 'select':
        c = literal(e[1])
        return cases(p, e[2], lits + [c]) + cases(p, e[3], lits + [(c[0], not c[1])])
    return [(e, lits)]


def lookup(P, R, which):
    for f in P.fns.values():
        if not f.qual.lstrip('_').startswith('clGetExtensionFunctionAddress'):
            continue
        bad = None
        found = {}
        for p in Flow(f).paths():
            if p.end[0] != 'ret':
                continue
            for e, lits in cases(p, strip(p.ret), list(p.lits)):
                e = strip(e)
                asked = [x[3] for a, pol in lits if pol and a[0] == 'eq' and a[2] == C(0) for x in [strip(a[1])] if x[0] == 'call' and x[1] == 'strcmp']
                asked = [text(x) for x in asked]
                if e == C(0):
                    if asked:
                        bad = bad or 'does not return %s' % asked
                    continue
                if e[0] != 'fn' or not any(e[1] in (a, '_' + a) for a in asked):
                    bad = bad or 'returns %s for %s' % (S(e), asked or 'any name')
                else:
                    found[asked[0]] = True
        R.check(bad is None, 'lookup', '%s:%s' % (which, f.qual), floc(f), '%s %s' % (f.qual, bad), fn=f)
        if f.qual == 'clGetExtensionFunctionAddress':
            R.check('clIcdGetPlatformIDsKHR' in found, 'lookup', '%s:icd' % which, floc(f), 'the loader cannot find clIcdGetPlatformIDsKHR', fn=f)


def text(x):
    x = strip(x)
    return x[1] if x[0] == 'str' else S(x).strip('"')
