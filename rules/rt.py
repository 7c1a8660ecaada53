"""Shared model of the runtime's entry points: which functions they are, what their parameters mean, the paths through
them and the outcome (error code) of each path."""
from common import *
from flow import Flow

TUS = ['runtime', 'async_queue']

# handle type -> error code of its class
CODES = {'cl_context': -34, 'cl_device_id': -33, 'cl_command_queue': -36, 'cl_mem': -38, 'cl_sampler': -41, 'cl_program': -44,
         'cl_kernel': -48, 'cl_event': -58, 'cl_platform_id': -32}
NAMES = {-34: 'CL_INVALID_CONTEXT', -33: 'CL_INVALID_DEVICE', -36: 'CL_INVALID_COMMAND_QUEUE', -38: 'CL_INVALID_MEM_OBJECT',
         -41: 'CL_INVALID_SAMPLER', -44: 'CL_INVALID_PROGRAM', -48: 'CL_INVALID_KERNEL', -58: 'CL_INVALID_EVENT',
         -32: 'CL_INVALID_PLATFORM', -57: 'CL_INVALID_EVENT_WAIT_LIST', -30: 'CL_INVALID_VALUE', -59: 'CL_INVALID_OPERATION'}


def functions(P):
    """the functions of the runtime library"""
    r = []
    for f in P.fns.values():
        if f.file.endswith(('runtime/runtime.cpp', 'runtime/async_queue.cpp')) and not f.qual.startswith('__') and f.d.get('dem') and \
                not f.qual.startswith('_GLOBAL'):
            r.append(f)
    return sorted(r, key=lambda f: (f.file, f.line))


def entry_points(P):
    return [f for f in functions(P) if re.match(r'cl[A-Z]\w*$', f.qual) and not f.d.get('internal')]


def ptype(p):
    return (p.get('dt') or '').strip()


def handles(f):
    """[(index, name, type)] of the parameters that are object handles"""
    return [(n, p['dn'], ptype(p)) for n, p in enumerate(f.params) if ptype(p) in CODES and p.get('dn')]


def handle_lists(f):
    r = []
    for n, p in enumerate(f.params):
        m = re.match(r'const (cl_\w+)\s*\*$|(cl_\w+) const\s*\*$', ptype(p))
        if m and (m.group(1) or m.group(2)) in CODES:
            r.append((n, p['dn'], m.group(1) or m.group(2)))
    return r


def errarg(f):
    """the parameter through which the error code is returned"""
    for p in f.params:
        if ptype(p).replace(' ', '') in ('cl_int*', 'int*') and p['dn'].startswith('err'):
            return ('arg', p['dn'])
    return None


def outcome(f, p):
    """error code expression of a path: the returned code, or the last code stored through the error parameter (None: none)"""
    if f.d['sig'][0] == 'cl_int':
        return p.ret
    e = errarg(f)
    if e is None:
        return None
    r = None
    for ev in p.events:
        if ev[0] == 'store' and ev[2] == e:
            r = ev[3]
        elif ev[0] == 'call' and e in ev[3]:
            r = ('by', ev[2])
    return r


def nonnull(*es):
    """decide: these pointers are not null"""
    def d(c):
        if c[0] == 'icmp' and c[1] in ('eq', 'ne') and c[3] == ('c', 0) and c[2] in es:
            return c[1] == 'ne'
        return None
    return d


def null(e):
    return lambda x: 0 if x == e else None


def flow(f, **kw):
    kw.setdefault('limit', 20000)
    return list(Flow(f, **kw).paths())


def base(e):
    """innermost object of an address"""
    while e and e[0] in ('fld', 'idx', 'ptr', 'cgep'):
        e = e[1]
    return e


def enqueues(p):
    return [e for e in p.events if e[0] == 'call' and (e[2] or '').split('::')[-1] in ('asyncEnqueue', 'enqueue')]
