"""Constant propagation through std::string / std::istringstream / llvm::StringRef locals, for Flow(effects=...).

The known contents of a local string or stream are kept per path in st.env under ('str', object) / ('stream', object)."""
import re
from common import *

US = 1 << 64


def num(e):
    e = strip(e)
    return e[1] if e[0] == 'c' else None


def lit(e):
    e = strip(e)
    while e[0] in ('ptrto', 'cgep') and isinstance(e[1], tuple):
        e = e[1]
    return e[1] if e[0] == 's' else None


class Strings:
    """hooks: callable(fl, st, inst, callee, args, model) -> value | True | None, tried first"""

    def __init__(self, hook=None):
        self.hook = hook

    # objects
    def obj(self, fl, st, e):
        e = nz(e) if e[0] in ('trunc', 'zext', 'sext') else e
        while e[0] in ('add', 'ptr', 'cgep', 'ptrto') and e[0] != 'call':
            if e[0] == 'add':
                e = e[1]
            else:
                e = e[1]
        if e[0] == 'call' and re.search(r'operator(>>|<<|=|\+=)', e[1]):
            return self.obj(fl, st, e[2])
        return e

    def get(self, fl, st, e):
        t = lit(e)
        if t is not None:
            return t
        if e[0] == 'call' and e[1].split('::')[-1] in ('c_str', 'data'):
            return self.get(fl, st, e[2])
        return st.env.get(('str', self.obj(fl, st, e)))

    def set(self, fl, st, e, t):
        k = ('str', self.obj(fl, st, e))
        if t is None:
            st.env.pop(k, None)
        else:
            st.env[k] = t

    def stream(self, fl, st, e):
        return st.env.get(('stream', self.obj(fl, st, e)))

    def put(self, fl, st, e, v):
        st.env[('stream', self.obj(fl, st, e))] = v

    def __call__(self, fl, st, i, c, a):
        if self.hook:
            r = self.hook(fl, st, i, c, a, self)
            if r is not None:
                return r
        if c is None:
            return None
        s = short(c)
        if 'istringstream' in c and s == 'basic_istringstream':
            t = self.get(fl, st, a[1])
            if t is not None:
                self.put(fl, st, a[0], (t, 0, False, False))
                return True
            return None
        if s == 'operator>>':
            v = self.stream(fl, st, a[0])
            if v is None:
                return None
            ref = ('call', c) + tuple(a)
            if a[1][0] == 'fn':
                return ref
            t, p, eof, fail = v
            if fail or eof:
                self.put(fl, st, a[0], (t, p, True, True))
                return ref
            m = re.compile(r'\s*').match(t, p)
            p = m.end()
            link = i.callee_link or ''
            kind = 'str' if 'basic_string' in link else 'char' if re.search(r'rsI[cC]S|RS3_$', link) and 'Em' not in link and not link.startswith('_ZNSi') else 'int'
            m = re.compile({'str': r'\S+', 'char': r'.', 'int': r'[-+]?\d+'}[kind]).match(t, p)
            if m is None:
                self.put(fl, st, a[0], (t, len(t), p >= len(t), True))
                return ref
            p = m.end()
            self.put(fl, st, a[0], (t, p, kind != 'char' and p >= len(t), False))
            if kind == 'str':
                self.set(fl, st, a[1], m.group())
            else:
                w = {'char': 1}.get(kind, {'t': 2, 's': 2, 'j': 4, 'i': 4}.get(link[-1], 8))
                v = ord(m.group()) if kind == 'char' else int(m.group()) % (1 << 8 * w)
                st.mem.append(('st', fl.key(a[1]), w, ('c', v)))
            return ref
        if s in ('eof', 'fail', 'good', 'operator bool', 'operator!', 'peek'):
            v = self.stream(fl, st, a[0])
            if v is None:
                return None
            t, p, eof, fail = v
            if s == 'peek':
                return ('c', ord(t[p]) if p < len(t) else 0xffffffff)
            return ('c', int({'eof': eof, 'fail': fail, 'good': not (eof or fail), 'operator bool': not fail, 'operator!': fail}[s]))
        if s == 'basic_string' and a:
            t = self.get(fl, st, a[1]) if len(a) > 1 else ''
            if len(a) > 1 and num(a[-1]) is None and t is not None or len(a) == 1:
                self.set(fl, st, a[0], t)
                return True
            return None
        if s in ('operator=', 'assign') and len(a) == 2 and ('basic_string' in c):
            t = self.get(fl, st, a[1])
            self.set(fl, st, a[0], t)
            return True if t is not None else None
        if s in ('operator+=', 'append', 'push_back') and len(a) == 2 and 'basic_string' in c:
            t, u = self.get(fl, st, a[0]), self.get(fl, st, a[1])
            if u is None and num(a[1]) is not None:
                u = chr(num(a[1]) & 255)
            self.set(fl, st, a[0], None if t is None or u is None else t + u)
            return True if t is not None and u is not None else None
        if s == 'operator+' and len(a) == 3:
            t, u = ((self.get(fl, st, x) if num(x) is None else chr(num(x) & 255)) for x in a[1:])
            self.set(fl, st, a[0], None if t is None or u is None else t + u)
            return True if t is not None and u is not None else None
        if s == 'substr' and len(a) == 4:
            t, p, n = self.get(fl, st, a[1]), num(a[2]), num(a[3])
            if t is None or p is None or n is None or p > len(t):
                self.set(fl, st, a[0], None)
                return None
            n %= US
            self.set(fl, st, a[0], t[p:p + n])
            return True
        if s in ('starts_with', 'startswith') and len(a) >= 2:
            t = self.get(fl, st, a[0])
            u = self.get(fl, st, a[1]) if len(a) == 2 else None
            if u is None:
                e = [x for x in st.events if x[0] == 'call' and short(x[2]) == 'StringRef' and lit(x[3][1]) is not None]
                u = lit(e[-1][3][1]) if e else None
            if t is None or u is None:
                return None
            return ('c', int(t.startswith(u)))
        if 'basic_string' in c or s.startswith('operator'):
            t = self.get(fl, st, a[0]) if a else None
            if t is None and not (len(a) == 2 and s in ('operator==', 'operator!=')):
                return None
            if s in ('size', 'length'):
                return ('c', len(t))
            if s == 'empty':
                return ('c', int(not t))
            if s in ('operator[]', 'at') and num(a[1]) is not None:
                k = num(a[1]) % US
                return ('chr', ord(t[k]) if k < len(t) else 0)
            if s in ('back', 'front') and t:
                return ('chr', ord(t[-1 if s == 'back' else 0]))
            if s in ('operator==', 'operator!='):
                u = self.get(fl, st, a[1])
                if t is None or u is None:
                    return None
                return ('c', int((t == u) == (s == 'operator==')))
            if s == 'compare':
                if len(a) == 4 and num(a[1]) is not None and num(a[2]) is not None:
                    u = self.get(fl, st, a[3])
                    v = t[num(a[1]):][:num(a[2]) % US]
                elif len(a) == 2:
                    u, v = self.get(fl, st, a[1]), t
                else:
                    return None
                return None if u is None else ('c', 0 if u == v else (1 << 32) - 1 if v < u else 1)
            if s in ('find', 'rfind', 'find_first_of', 'find_last_of') and len(a) >= 2:
                u = self.get(fl, st, a[1])
                if u is None and num(a[1]) is not None:
                    u = chr(num(a[1]) & 255)
                p = num(a[2]) % US if len(a) > 2 and num(a[2]) is not None else None
                if u is None:
                    return None
                if s == 'find':
                    r = t.find(u, p or 0)
                elif s == 'rfind':
                    r = t.rfind(u) if p is None or p > len(t) else t.rfind(u, 0, p + len(u))
                else:
                    ks = [k for k, ch in enumerate(t) if ch in u]
                    r = (ks[0] if s == 'find_first_of' else ks[-1]) if ks else -1
                return ('c', r % US)
        return None

    def leaf(self, e):
        if e[0] == 'load' and isinstance(e[1], tuple) and e[1] and e[1][0] == 'chr':
            return e[1][1]
        return None
