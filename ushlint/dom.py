"""Abstract values and abstract states of the path-partitioned abstract interpreter."""
from .lin import Sym, Lin, sym, ZERO, ONE, C, infeasible, related, key_str

FULL = (1 << 256) - 1


def mask_of(pred):
    m = 0
    for i in range(256):
        if pred(i):
            m |= 1 << i
    return m


def mask_vals(m):
    return [i for i in range(256) if m >> i & 1]


class PSym:
    """symbolic pointer (interned by key): the address of some object of class `cls`"""
    __slots__ = ("key", "cls", "null", "n", "meta")

    def __repr__(self):
        return "&" + key_str(self.key)


_psyms = {}


def psym(key, cls, null=False, meta=None):
    p = _psyms.get(key)
    if p is None:
        p = PSym()
        p.key, p.cls, p.null, p.meta = key, cls, null, meta
        p.n = len(_psyms)
        _psyms[key] = p
    return p


class Region:
    """a concrete object: SELF, DESC, IO, buffers, globals, stack slots"""
    __slots__ = ("name", "cls", "size", "kind", "fields", "const", "string", "garbage", "meta")

    def __init__(self, name, cls, size=None, kind="struct", const=False, string=None, garbage=False, meta=None):
        self.name, self.cls, self.size, self.kind = name, cls, size, kind
        self.const, self.string, self.garbage, self.meta = const, string, garbage, meta

    def __repr__(self):
        return self.name


NULLB = Region("NULL", "null", ZERO)


class Ptr:
    __slots__ = ("base", "off", "_h")

    def __init__(self, base, off=ZERO):
        self.base, self.off = base, off
        self._h = hash((id(base), off))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base is o.base and self.off == o.off

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return "%r+%r" % (self.base, self.off) if self.off != ZERO else repr(self.base)


NULL = Ptr(NULLB, ZERO)


class BF:
    """value that is a function of one input byte (finite table)"""
    __slots__ = ("s", "tbl", "w", "_h")

    def __init__(self, s, tbl, w):
        self.s, self.tbl, self.w = s, tbl, w
        self._h = hash((id(s), tbl, w))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, BF) and self.s is o.s and self.tbl == o.tbl and self.w == o.w

    def __repr__(self):
        return "bf(%s)" % (self.s,)


IDT = tuple(range(256))


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()

TRUE = ('c', True)
FALSE = ('c', False)


def neg(c):
    k = c[0]
    if k == 'c':
        return FALSE if c[1] else TRUE
    if k == 'ge':
        return ('ge', -c[1] - 1)
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'bs':
        return ('bs', c[1], FULL & ~c[2])
    if k == 'peq':
        return ('pne', c[1], c[2])
    if k == 'pne':
        return ('peq', c[1], c[2])
    if k == 'pred':
        return ('pred', c[1], not c[2])
    if k == 'and':
        return ('or', neg(c[1]), neg(c[2]))
    if k == 'or':
        return ('and', neg(c[1]), neg(c[2]))
    raise ValueError(c)


def cst(v):
    """numeric constant of a value or None"""
    if isinstance(v, Lin) and not v.t:
        return v.c
    return None


def cls_of(base):
    return base.cls


class Buf:
    """byte (or element) buffer contents: a version (opaque contents) overlaid with a write log"""
    __slots__ = ("ver", "log", "text", "undef")

    def __init__(self, ver, log=(), text=None, undef=False):
        self.ver, self.log, self.text, self.undef = ver, log, text, undef


class Dead(Exception):
    pass


class State:
    __slots__ = ("ineqs", "sub", "neqs", "sets", "psub", "nonnull", "pneq", "preds", "alls", "bytes", "cells",
                 "written", "alias", "cnts", "bufs", "events", "trail", "zero", "epoch", "strl", "writes", "cache", "rc", "havocs",
                 "reads", "defs")

    def __init__(self):
        self.ineqs = []
        self.sub = {}
        self.neqs = []
        self.sets = {}
        self.psub = {}
        self.nonnull = set()
        self.pneq = set()
        self.preds = {}
        self.alls = []
        self.bytes = {}
        self.cells = {}
        self.written = set()
        self.bufs = {}
        self.alias = {}
        self.cnts = ()
        self.events = ()
        self.trail = None
        self.zero = {}
        self.epoch = {}
        self.strl = {}
        self.writes = ()
        self.cache = {}
        self.rc = {}
        self.havocs = 0
        self.reads = frozenset()     # struct cells whose previous contents were read: (base, offset, file, line, fn)
        self.defs = frozenset()      # struct cells assigned on this path

    def copy(self):
        s = State.__new__(State)
        s.ineqs = list(self.ineqs)
        s.sub = dict(self.sub)
        s.neqs = list(self.neqs)
        s.sets = dict(self.sets)
        s.psub = dict(self.psub)
        s.nonnull = set(self.nonnull)
        s.pneq = set(self.pneq)
        s.preds = dict(self.preds)
        s.alls = list(self.alls)
        s.bytes = dict(self.bytes)
        s.cells = dict(self.cells)
        s.written = set(self.written)
        s.bufs = dict(self.bufs)
        s.alias = dict(self.alias)
        s.cnts = self.cnts
        s.events = self.events
        s.trail = self.trail
        s.zero = dict(self.zero)
        s.epoch = dict(self.epoch)
        s.strl = dict(self.strl)
        s.writes = self.writes
        s.cache = {}
        s.rc = self.rc
        s.havocs = self.havocs
        s.reads = self.reads
        s.defs = self.defs
        return s

    # ---------------------------------------------------------------- normalisation
    def nl(self, e):
        """normalise a Lin"""
        if self.sub:
            e = e.subst(self.sub)
        # byte functions whose byte became a singleton
        for s, k in e.t:
            if isinstance(s.key, tuple) and s.key[0] == 'bf':
                m = self.sets.get(s.key[1], FULL)
                if m & (m - 1) == 0 and m:
                    v = _sgn(s.key[2][m.bit_length() - 1], s.key[3])
                    return self.nl(e.subst({s: C(v)}))
        return e

    def np(self, p):
        """normalise a Ptr"""
        n = 0
        b, o = p.base, p.off
        while isinstance(b, PSym) and b in self.psub:
            q = self.psub[b]
            b, o = q.base, q.off + o
            n += 1
            if n > 50:
                raise RuntimeError("pointer substitution cycle")
        if b is NULLB:
            return NULL if o == ZERO else Ptr(NULLB, self.nl(o))
        return Ptr(b, self.nl(o))

    def nv(self, v):
        if isinstance(v, Lin):
            return self.nl(v)
        if isinstance(v, Ptr):
            return self.np(v)
        if isinstance(v, BF):
            m = self.sets.get(v.s, FULL)
            if m and m & (m - 1) == 0:
                return C(v.tbl[m.bit_length() - 1])
            vals = {v.tbl[i] for i in mask_vals(m)}
            if len(vals) == 1:
                return C(vals.pop())
            return v
        return v

    # ---------------------------------------------------------------- entailment
    def _rows(self, syms):
        rows = related(syms, self.ineqs)
        return rows

    def entails_ge(self, e):
        """e >= 0 ?"""
        e = self.nl(e)
        if not e.t:
            return e.c >= 0
        if len(e.t) == 1:
            s, k = e.t[0]
            if k > 0 and s.lo is not None and k * s.lo + e.c >= 0:
                return True
            if k < 0 and s.hi is not None and k * s.hi + e.c >= 0:
                return True
        key = ('ge', e)
        r = self.cache.get(key)
        if r is None:
            n = -e - 1
            rows = self._rows(e.syms())
            rows.append((dict(n.t), n.c))
            r = infeasible(rows)
            self.cache[key] = r
        return r

    def entails_eq(self, a, b=ZERO):
        e = self.nl(a - b)
        if not e.t:
            return e.c == 0
        return self.entails_ge(e) and self.entails_ge(-e)

    def entails_ne(self, a, b=ZERO):
        e = self.nl(a - b)
        if not e.t:
            return e.c != 0
        for n in self.neqs:
            n = self.nl(n)
            if n == e or n == -e:
                return True
        return self.entails_ge(e - 1) or self.entails_ge(-e - 1)

    def feasible(self, syms):
        return not infeasible(self._rows(syms))

    # ---------------------------------------------------------------- adding facts (in place); False = contradiction
    def add_ge(self, e):
        e = self.nl(e)
        if not e.t:
            return e.c >= 0
        if self.entails_ge(e):
            return True
        if self.entails_ge(-e - 1):
            return False
        for n in list(self.neqs):
            n2 = self.nl(n)
            if n2 == e or n2 == -e:
                self.neqs.remove(n)
                return self.add_ge(e - 1)
        self.ineqs.append(e)
        self.cache = {}
        # turn implied equalities into substitutions
        if self.entails_ge(-e):
            if not self.add_eq(e):
                return False
        # single-symbol byte-function constraint
        if len(e.t) == 1 and isinstance(e.t[0][0].key, tuple) and e.t[0][0].key[0] == 'bf':
            s, k = e.t[0]
            _, bs, tbl, w = s.key
            m = mask_of(lambda i: k * _sgn(tbl[i], w) + e.c >= 0)
            if not self.add_set(bs, m):
                return False
        return self._recheck_neqs()

    def _recheck_neqs(self):
        for n in list(self.neqs):
            if n not in self.neqs:
                continue
            n2 = self.nl(n)
            if not n2.t:
                if n2.c == 0:
                    return False
                self.neqs.remove(n)
                continue
            if self.entails_ge(n2):
                self.neqs.remove(n)
                if not self.add_ge(n2 - 1):
                    return False
            elif self.entails_ge(-n2):
                self.neqs.remove(n)
                if not self.add_ge(-n2 - 1):
                    return False
        return True

    def add_eq(self, e):
        e = self.nl(e)
        if not e.t:
            return e.c == 0
        if self.entails_ge(e - 1) or self.entails_ge(-e - 1):
            return False
        # choose a unit-coefficient symbol, the youngest
        best = None
        for s, k in e.t:
            if k in (1, -1) and (best is None or s.n > best[0].n):
                best = (s, k)
        if best is None:
            self.ineqs.append(e)
            self.ineqs.append(-e)
            self.cache = {}
            return self._recheck_neqs()
        s, k = best
        rest = e + Lin(0, ((s, -k),))
        val = -rest if k == 1 else rest
        # bounds of the eliminated symbol
        self.sub = {a: b.subst({s: val}) for a, b in self.sub.items()}
        self.sub[s] = val
        old = self.ineqs
        self.ineqs = []
        self.cache = {}
        for q in old:
            q2 = self.nl(q)
            if not q2.t:
                if q2.c < 0:
                    return False
                continue
            self.ineqs.append(q2)
        if s.lo is not None and not self.add_ge(val - s.lo):
            return False
        if s.hi is not None and not self.add_ge(-val + s.hi):
            return False
        if isinstance(s.key, tuple) and s.key[0] == 'bf':
            if not val.t:
                _, bs, tbl, w = s.key
                if not self.add_set(bs, mask_of(lambda i: _sgn(tbl[i], w) == val.c)):
                    return False
        # offsets of known bytes may have become equal
        if not self._merge_bytes():
            return False
        return self._recheck_neqs()

    def _merge_bytes(self):
        for ver, lst in list(self.bytes.items()):
            seen = {}
            for off, bs in lst:
                o = self.nl(off)
                if o in seen and seen[o] is not bs:
                    m = self.sets.get(bs, FULL) & self.sets.get(seen[o], FULL)
                    if not m:
                        return False
                    if self.sets.get(bs, FULL) != m and not self.add_set(bs, m):
                        return False
                    if self.sets.get(seen[o], FULL) != m and not self.add_set(seen[o], m):
                        return False
                else:
                    seen[o] = bs
        return True

    def add_ne(self, e):
        e = self.nl(e)
        if not e.t:
            return e.c != 0
        if self.entails_ge(e - 1) or self.entails_ge(-e - 1):
            return True
        if self.entails_ge(e):
            return self.add_ge(e - 1)
        if self.entails_ge(-e):
            return self.add_ge(-e - 1)
        if len(e.t) == 1 and isinstance(e.t[0][0].key, tuple) and e.t[0][0].key[0] == 'bf':
            s, k = e.t[0]
            _, bs, tbl, w = s.key
            return self.add_set(bs, mask_of(lambda i: k * _sgn(tbl[i], w) + e.c != 0))
        self.neqs.append(e)
        return True

    def add_set(self, bs, mask):
        old = self.sets.get(bs, FULL)
        m = old & mask
        if not m:
            return False
        if m == old:
            return True
        self.sets[bs] = m
        self.cache = {}
        return self._byte_refined(bs, m)

    def _byte_refined(self, bs, m):
        """propagate content knowledge: positions whose byte sets are disjoint are different positions"""
        key = bs.key
        if not (isinstance(key, tuple) and key[0] == 'byte'):
            return True
        ver, off = key[1], key[2]
        for o2, b2 in self.bytes.get(ver, ()):
            if b2 is bs:
                continue
            if self.sets.get(b2, FULL) & m == 0:
                if not self.add_ne(off - o2):
                    return False
        for (v, lo, hi, am) in self.alls:
            if v == ver and am & m == 0:
                # off not in [lo,hi)
                if self.entails_ge(off - lo):
                    if not self.add_ge(off - hi):
                        return False
                elif self.entails_ge(hi - 1 - off):
                    if not self.add_ge(lo - 1 - off):
                        return False
        return True

    # -- pointers
    def known_nonnull(self, p):
        p = self.np(p)
        b = p.base
        if b is NULLB:
            return False
        if isinstance(b, Region):
            return True
        if p.off != ZERO:
            return True
        return (not b.null) or b in self.nonnull

    def pcompat(self, a, b):
        """may two base objects be the same address (offset 0 based)?"""
        ca, cb = a.cls, b.cls
        if ca == cb:
            return True
        s = {ca, cb}
        if s == {"node", "self"}:
            return True
        if s <= {"str", "rostr", "arg", "inbuf", "outbuf", "data", "any"}:
            return True
        return "any" in s

    def add_peq(self, a, b):
        a, b = self.np(a), self.np(b)
        if a.base is b.base:
            return self.add_eq(a.off - b.off)
        if a.base is NULLB or b.base is NULLB:
            x = b if a.base is NULLB else a
            if self.known_nonnull(x):
                return False
            return self._psub(x.base, Ptr(NULLB, ZERO))
        if isinstance(a.base, Region) and isinstance(b.base, Region):
            return False
        if not self.pcompat(a.base, b.base):
            # pointers of unrelated classes can only both be null
            for x in (a, b):
                if self.known_nonnull(x):
                    return False
            for x in (a, b):
                if not self._psub(x.base, Ptr(NULLB, ZERO)):
                    return False
            return True
        if isinstance(a.base, Region) or (isinstance(b.base, PSym) and isinstance(a.base, PSym) and
                                          b.base.n > a.base.n):
            a, b = b, a
        # a.base is a PSym to be replaced
        if frozenset((a, b)) in self.pneq_norm():
            return False
        if (isinstance(b.base, Region) and b.base.cls == "self" and a.base.cls == "node"):
            bc = b.base.meta.get("bc_off") if b.base.meta else None
            if b.off - a.off != C(bc):
                return False
        if self.known_nonnull(a) and isinstance(b.base, PSym):
            self.nonnull.add(b.base)
        return self._psub(a.base, Ptr(b.base, b.off - a.off))

    def pneq_norm(self):
        r = set()
        for x in self.pneq:
            x = tuple(x)
            if len(x) == 2:
                r.add(frozenset((self.np(x[0]), self.np(x[1]))))
        return r

    def _psub(self, p, q):
        if q.base is p:
            return self.add_eq(q.off)
        if p in self.nonnull and isinstance(q.base, PSym):
            self.nonnull.add(q.base)
        if q.base is NULLB and (p in self.nonnull or not p.null):
            return False
        self.psub[p] = q
        self.cache = {}
        for x in self.pneq:
            x = tuple(x)
            if len(x) == 1:
                return False
            if self.np(x[0]) == self.np(x[1]):
                return False
        # re-key cells
        mv = [(k, v) for k, v in self.cells.items() if k[0] is p]
        for (b, o), v in mv:
            del self.cells[(b, o)]
            if q.base is NULLB:
                continue
            off = self.nl(_l(o) + q.off)
            nk = (q.base, off.c if not off.t else off)
            w = (b, o) in self.written
            if w:
                self.written.discard((b, o))
            if nk in self.cells:
                if not self.add_veq(self.cells[nk], v):
                    return False
            else:
                self.cells[nk] = v
                if w:
                    self.written.add(nk)
        if p in self.bufs:
            bf = self.bufs.pop(p)
            if q.base not in self.bufs and q.base is not NULLB:
                self.bufs[q.base] = bf
        return True

    def add_veq(self, a, b):
        a, b = self.nv(a), self.nv(b)
        if a == b:
            return True
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.add_eq(a - b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.add_peq(a, b)
        return True

    def add_pne(self, a, b):
        a, b = self.np(a), self.np(b)
        if a.base is b.base:
            return self.add_ne(a.off - b.off)
        if a.base is NULLB or b.base is NULLB:
            x = b if a.base is NULLB else a
            if x.base is NULLB:
                return False
            if isinstance(x.base, PSym) and x.off == ZERO:
                self.nonnull.add(x.base)
            return True
        if isinstance(a.base, Region) and isinstance(b.base, Region):
            return True
        self.pneq.add(frozenset((a, b)))
        return True

    # ---------------------------------------------------------------- conditions
    def assume(self, c):
        """-> list of states satisfying c (self is consumed)"""
        k = c[0]
        if k == 'c':
            return [self] if c[1] else []
        if k == 'ge':
            ok = self.add_ge(c[1])
        elif k == 'eq':
            ok = self.add_eq(c[1])
        elif k == 'ne':
            ok = self.add_ne(c[1])
        elif k == 'bs':
            ok = self.add_set(c[1], c[2])
        elif k == 'peq':
            ok = self.add_peq(c[1], c[2])
        elif k == 'pne':
            ok = self.add_pne(c[1], c[2])
        elif k == 'pred':
            o = self.preds.get(c[1])
            if o is not None:
                ok = o == c[2]
            else:
                self.preds[c[1]] = c[2]
                ok = True
        elif k == 'and':
            out = []
            for s in self.assume(c[1]):
                out += s.assume(c[2])
            return out
        elif k == 'or':
            a = self.copy().assume(c[1])
            out = list(a)
            for s in self.assume(neg(c[1])):
                out += s.assume(c[2])
            return out
        else:
            raise ValueError(c)
        return [self] if ok else []

    def split(self, c):
        """-> (states where c, states where not c)"""
        k = c[0]
        if k == 'c':
            return ([self], []) if c[1] else ([], [self])
        t = self.copy().assume(c)
        f = self.assume(neg(c))
        return t, f

    def decide(self, c):
        if c[0] == 'c':
            return c[1]
        if not self.copy().assume(neg(c)):
            return True
        if not self.copy().assume(c):
            return False
        return None

    # ---------------------------------------------------------------- events / trail
    def event(self, *e):
        self.events = self.events + (e,)

    def mark(self, what):
        self.trail = (self.trail, what)

    def trail_list(self):
        out = []
        t = self.trail
        while t:
            out.append(t[1])
            t = t[0]
        return out[::-1]


def _l(o):
    return C(o) if isinstance(o, int) else o


def _sgn(v, w):
    """signed reading of a table entry for widths where the sign bit is set"""
    if w and v >= 1 << (w - 1) and w > 8:
        return v - (1 << w)
    return v
