"""Constant propagation through std::vector objects with known contents, for Flow(effects=..., leaf=...).

A vector is described by a predicate on the address of the vector object, the size of an element and its initial elements (values, or a
function of the position).  Growth, shrinking and element stores are kept per path in the memory of the Flow state."""
from common import *


class Vectors:
    def __init__(self, vecs, hook=None, more=None):
        """vecs: {name: (pred(addr), element size, [initial elements] or (count, fn))}; hook(fl, st, i, c, a, m), more(e): tried first"""
        self.vecs, self.hook, self.more = vecs, hook, more
        self.fl, self.addr = None, {}

    def which(self, a):
        b = nz(a)
        for n, (pred, w, init) in self.vecs.items():
            if pred(b):
                self.addr.setdefault(n, a)
                return n
        return None

    def count(self, n):
        init = self.vecs[n][2]
        return init[0] if isinstance(init, tuple) else len(init)

    def begin(self, n):
        return ('g', '#' + n)

    def end(self, n, k):
        e = ('cgep', self.begin(n), k * self.vecs[n][1])
        return e if k else self.begin(n)

    def elem(self, n, k):
        init = self.vecs[n][2]
        if isinstance(init, tuple):
            return init[1](k) if k < init[0] else None
        return init[k] if 0 <= k < len(init) else None

    def leaf(self, e):
        if self.more:
            r = self.more(e)
            if r is not None:
                return r
        if e[0] == 'load':
            a = e[1]
            n = self.which(a)
            if n:
                return self.begin(n)
            if a[0] == 'fld' and a[2] == '#1':
                n = self.which(a[1])
                if n:
                    return self.end(n, self.count(n))
            if self.fl is not None:
                r, v, o = self.fl.key(a)
                if r[0] == 'g' and r[1].startswith('#') and r[1][1:] in self.vecs and not v:
                    n = r[1][1:]
                    if o % self.vecs[n][1] == 0:
                        return self.elem(n, o // self.vecs[n][1])
        return None

    # on a path
    def endaddr(self, fl, a):
        e = ('fld', a, '#1')
        r, v, o = fl.key(a)
        fl.keys[e] = (r, v, o + 8)
        return e

    def size(self, fl, st, a, upto=None):
        """number of elements, None when not known"""
        n = self.which(a)
        e = fl.post(st, fl.load(st, self.endaddr(fl, a), 8, upto))
        r, v, o = fl.key(e)
        return o // self.vecs[n][1] if r == self.begin(n) and not v else None

    def size_of(self, p, n, event=None):
        """size at the end of a path, or before its store event number `event`"""
        if n not in self.addr:
            return self.count(n)
        upto = None if event is None else next((k for k, x in enumerate(p.st.mem) if x[0] == 'st' and len(x) > 4 and x[4] == event), None)
        return self.size(p.flow, p.st, self.addr[n], upto)

    def setsize(self, fl, st, a, k):
        n = self.which(a)
        e = self.end(n, k)
        st.mem.append(('st', fl.key(self.endaddr(fl, a)), 8, e))

    def at(self, fl, st, n, k, upto=None):
        e = self.end(n, k)
        return fl.post(st, fl.load(st, e, self.vecs[n][1], upto))

    def put(self, fl, st, n, k, v):
        st.mem.append(('st', fl.key(self.end(n, k)), self.vecs[n][1], v))

    def __call__(self, fl, st, i, c, a):
        self.fl = fl
        if self.hook:
            r = self.hook(fl, st, i, c, a, self)
            if r is not None:
                return r
        if c is None or not a:
            return None
        s = short(c)
        if s == 'find' and len(a) == 3:
            b, e = fl.key(a[0]), fl.key(a[1])
            if b[0] == e[0] and b[0][0] == 'g' and b[0][1][:1] == '#' and not b[1] and not e[1]:
                n = b[0][1][1:]
                w = self.vecs[n][1]
                x = fl.post(st, fl.load(st, a[2], w))
                for k in range(b[2] // w, e[2] // w):
                    y = self.at(fl, st, n, k)
                    if y == x:
                        return self.end(n, k)
                    if y[0] != 'c' or x[0] != 'c':
                        return None
                return a[1]
            return None
        n = self.which(a[0])
        if n is None:
            return None
        k = self.size(fl, st, a[0])
        w = self.vecs[n][1]
        if s in ('at', 'operator[]') and len(a) == 2 and strip(a[1])[0] == 'c':
            return self.end(n, strip(a[1])[1])
        if k is not None and len(a) == 1 and s in ('size', 'empty', 'begin', 'cbegin', 'data', 'front', 'end', 'cend', 'back'):
            return {'size': C(k), 'empty': C(int(k == 0)), 'end': self.end(n, k), 'cend': self.end(n, k), 'back': self.end(n, k - 1)}.get(s, self.begin(n))
        if s == 'pop_back' and k:
            self.setsize(fl, st, a[0], k - 1)
            return True
        if s in ('push_back', 'emplace_back') and len(a) == 2 and k is not None:
            x = a[1] if s == 'push_back' and a[1][0] == 'c' else fl.post(st, fl.load(st, a[1], w))
            self.put(fl, st, n, k, x)
            self.setsize(fl, st, a[0], k + 1)
            return True
        if s in ('resize', 'assign') and len(a) >= 2 and strip(a[1])[0] == 'c' and k is not None:
            m = strip(a[1])[1]
            v = C(0) if len(a) < 3 else fl.post(st, fl.load(st, a[2], w))
            for j in range(k if s == 'resize' else 0, min(m, 4096)):
                self.put(fl, st, n, j, v)
            self.setsize(fl, st, a[0], m)
            return True
        if s == 'clear':
            self.setsize(fl, st, a[0], 0)
            return True
        return None
