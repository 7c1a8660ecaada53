"""Turns /repo's current sources into facts: clang -> bitcode -> irdump -> JSON."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import ir

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-20'
CACHE = os.path.join(HERE, '.build')

CONFIG = {'CMAKE_PROJECT_VERSION': '0.0', 'HAVE_READLINE': '1', 'LLVM_VERSION': '201',
          'IS_BIG_ENDIAN': '0'}

# pseudo translation units: name -> (source, extra flags)
EXTRA = {'runtime_icd': ('runtime/runtime.cpp', ['-DOCLGRIND_ICD']),
         'async_queue_icd': ('runtime/async_queue.cpp', ['-DOCLGRIND_ICD'])}

FLAGS = ['-std=gnu++17', '-fno-rtti', '-fPIC', '-g', '-fstandalone-debug', '-O1', '-Xclang',
         '-disable-llvm-passes', '-flto', '-fwhole-program-vtables', '-DNDEBUG', '-D_GNU_SOURCE',
         '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
         '-DLIBDIR_SUFFIX=""', '-w', '-emit-llvm']


def sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def tool():
    src = os.path.join(HERE, 'tool', 'irdump.cpp')
    out = os.path.join(CACHE, 'irdump-' + sha(src))
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        r = subprocess.run(['bash', os.path.join(HERE, 'tool', 'build.sh'), out],
                           capture_output=True, text=True)
        if r.returncode:
            raise ir.Broken('cannot build the fact extractor:\n' + r.stderr[-2000:])
    return out


def sources():
    r = {}
    for p in sorted(glob.glob(REPO + '/src/*/*.cpp')):
        rel = os.path.relpath(p, REPO + '/src')
        r[os.path.basename(p)[:-4]] = (rel, [])
    for k, v in EXTRA.items():
        if os.path.exists(os.path.join(REPO, 'src', v[0])):
            r[k] = v
    return r


def tree_hash():
    files = sorted(glob.glob(REPO + '/src/**/*.h', recursive=True) +
                   glob.glob(REPO + '/src/**/*.cpp', recursive=True) +
                   glob.glob(REPO + '/include/**/*.h', recursive=True))
    return files


def facts(names, opts=()):
    """list of (tu, json) for the named translation units"""
    t = tool()
    known = os.path.join(HERE, 'data', 'known_functions.txt')
    srcs = sources()
    if names == 'all':
        names = [n for n in srcs if n not in EXTRA]
    hdrs = sorted(glob.glob(REPO + '/src/**/*.h', recursive=True)) + [REPO + '/config.h.in']
    hkey = sha(t, __file__, *([known] if os.path.exists(known) else []), *hdrs) + ''.join(opts)
    work = tempfile.mkdtemp(prefix='verif-facts-')
    try:
        cfg = open(REPO + '/config.h.in').read()
        cfg = re.sub(r'@(\w+)@', lambda m: CONFIG.get(m.group(1), '0'), cfg)
        with open(work + '/config.h', 'w') as f:
            f.write(cfg)

        def one(n):
            rel, fl = srcs[n]
            src = os.path.join(REPO, 'src', rel)
            key = hashlib.sha256((hkey + sha(src) + ' '.join(fl)).encode()).hexdigest()[:24]
            cached = os.path.join(CACHE, 'facts-%s-%s.json' % (n, key))
            try:
                with open(cached) as f:
                    return n, json.load(f)
            except (OSError, ValueError):
                pass
            bc, js = os.path.join(work, n + '.bc'), os.path.join(work, n + '.json')
            cmd = [LLVM + '/bin/clang++'] + FLAGS + fl + [
                '-I' + LLVM + '/include', '-I' + REPO + '/src', '-I' + work, '-c', src, '-o', bc]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise ir.Broken('%s does not compile:\n%s' % (src, r.stderr[-3000:]))
            cmd = [t, '--in', bc, '--out', js, '--root', REPO + '/src']
            if os.path.exists(known):
                cmd += ['--known', known]
            cmd += list(opts)
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise ir.Broken('fact extraction failed for %s:\n%s' % (src, r.stderr[-3000:]))
            with open(js) as f:
                d = json.load(f)
            try:
                os.makedirs(CACHE, exist_ok=True)
                shutil.copy(js, cached + '.tmp%d' % os.getpid())
                os.replace(cached + '.tmp%d' % os.getpid(), cached)
            except OSError:
                pass
            return n, d
        missing = [n for n in names if n not in srcs]
        if missing:
            raise ir.Broken('translation unit(s) vanished: %s' % missing)
        with cf.ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, names))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def prune_cache(limit=400):
    try:
        fs = sorted(glob.glob(CACHE + '/facts-*.json'), key=os.path.getmtime)
        for f in fs[:-limit]:
            os.remove(f)
    except OSError:
        pass        # another run pruned at the same time


def program(names='all', opts=()):
    fs = facts(names, opts)
    syms = set()
    for _, d in fs:
        for x in d['functions']:
            syms.add(x['name'])
            for b in x['blocks']:
                for i in b:
                    if 'c' in i:
                        syms.add(i['c'])
                    for a in i.get('a', []):
                        _collect(a, syms)
        for g in d['globals'].values():
            _collect(g['init'], syms)
    ir.load_demangler(syms)
    p = ir.Program()
    for n, d in fs:
        p.add(d, n)
    prune_cache()
    return p


def _collect(a, syms):
    if isinstance(a, list):
        if len(a) == 2 and a[0] == 'fn':
            syms.add(a[1])
        else:
            for x in a:
                _collect(x, syms)


if __name__ == '__main__':
    p = program('all')
    if sys.argv[1] == 'known':
        out = sorted({f.qual for f in p.fns.values()})
        print('\n'.join(out))
    elif sys.argv[1] == 'show':
        for q in sys.argv[2:]:
            for f in p.get(q):
                ir.dump(f)
