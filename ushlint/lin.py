"""Linear expressions over interned symbols and a small convex-polyhedra entailment test.

The numeric part of the abstract domain: conjunctions of linear inequalities over integer symbols, with
entailment decided by Fourier-Motzkin projection (the textbook operation of the polyhedra domain).
No external solver is involved.
"""
from math import gcd

_syms = {}
_serial = [0]


class Sym:
    """integer symbol (interned by key)"""
    __slots__ = ("key", "n", "lo", "hi", "w")

    def __repr__(self):
        return key_str(self.key)


def key_str(k):
    if isinstance(k, tuple):
        return "%s(%s)" % (k[0], ",".join(key_str(x) for x in k[1:])) if k and isinstance(k[0], str) else \
            "(" + ",".join(key_str(x) for x in k) + ")"
    return str(k)


def sym(key, lo=0, hi=None, w=64):
    s = _syms.get(key)
    if s is None:
        s = Sym()
        s.key = key
        _serial[0] += 1
        s.n = _serial[0]
        s.lo, s.hi, s.w = lo, hi, w
        _syms[key] = s
    return s


_fresh = [0]


def fresh_id():
    _fresh[0] += 1
    return _fresh[0]


class Lin:
    """c + sum coef*sym ; immutable, hashable"""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    @staticmethod
    def of(s):
        return Lin(0, ((s, 1),))

    def isconst(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin(self.c + o.c, _canon(d))

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.t))

    def subst(self, m):
        hit = False
        for s, k in self.t:
            if s in m:
                hit = True
                break
        if not hit:
            return self
        r = Lin(self.c, ())
        for s, k in self.t:
            e = m.get(s)
            if e is None:
                r = r + Lin(0, ((s, k),))
            else:
                r = r + e.subst(m).scale(k)
        return r

    def syms(self):
        return [s for s, _ in self.t]

    def __repr__(self):
        out = []
        for s, k in self.t:
            out.append(("%s" % s) if k == 1 else "%d*%s" % (k, s))
        if self.c or not out:
            out.append(str(self.c))
        return " + ".join(out)


def _canon(d):
    return tuple(sorted(((s, k) for s, k in d.items() if k), key=lambda x: x[0].n))


ZERO = Lin(0)
ONE = Lin(1)


def C(v):
    return Lin(v)


def _norm_row(row, c):
    g = 0
    for k in row.values():
        g = gcd(g, abs(k))
    if g > 1:
        row = {s: k // g for s, k in row.items()}
        c = c // g      # floor: integer tightening of  sum >= -c
    return row, c


def infeasible(rows, cap=900):
    """rows: list of (dict sym->coef, const) meaning sum+const >= 0. True when no integer/rational point exists
    (False means 'not shown')."""
    cur = []
    seen = set()
    for row, c in rows:
        if not row:
            if c < 0:
                return True
            continue
        row, c = _norm_row(row, c)
        cur.append((row, c))
    while True:
        # drop dominated duplicates
        best = {}
        for row, c in cur:
            k = tuple(sorted(((s.n, v) for s, v in row.items())))
            o = best.get(k)
            if o is None or c < o[1]:
                best[k] = (row, c)
        cur = list(best.values())
        # direct contradictions  e + c1 >= 0, -e + c2 >= 0, c1 + c2 < 0
        for k, (row, c) in best.items():
            nk = tuple((n, -v) for n, v in k)
            o = best.get(nk)
            if o is not None and c + o[1] < 0:
                return True
        if not cur:
            return False
        pos, neg = {}, {}
        for row, c in cur:
            for s, v in row.items():
                if v > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        allv = set(pos) | set(neg)
        if not allv:
            return False
        v = min(allv, key=lambda s: (pos.get(s, 0) * neg.get(s, 0) - pos.get(s, 0) - neg.get(s, 0), s.n))
        P = [r for r in cur if r[0].get(v, 0) > 0]
        N = [r for r in cur if r[0].get(v, 0) < 0]
        rest = [r for r in cur if v not in r[0]]
        for pr, pc in P:
            for nr, nc in N:
                a, b = pr[v], -nr[v]
                row = {}
                for s, k in pr.items():
                    if s is not v:
                        row[s] = row.get(s, 0) + k * b
                for s, k in nr.items():
                    if s is not v:
                        row[s] = row.get(s, 0) + k * a
                row = {s: k for s, k in row.items() if k}
                c = pc * b + nc * a
                if not row:
                    if c < 0:
                        return True
                    continue
                rest.append(_norm_row(row, c))
                if len(rest) > cap:
                    return False
        cur = rest


def related(target_syms, ineqs):
    """the inequalities connected to the target symbols (with sym bounds)"""
    todo = list(target_syms)
    seen = set(todo)
    idx = {}
    for e in ineqs:
        for s, _ in e.t:
            idx.setdefault(s, []).append(e)
    out = []
    got = set()
    while todo:
        s = todo.pop()
        for e in idx.get(s, ()):
            if e in got:
                continue
            got.add(e)
            out.append(e)
            for s2, _ in e.t:
                if s2 not in seen:
                    seen.add(s2)
                    todo.append(s2)
    rows = [(dict(e.t), e.c) for e in out]
    for s in seen:
        if s.lo is not None:
            rows.append(({s: 1}, -s.lo))
        if s.hi is not None:
            rows.append(({s: -1}, s.hi))
    return rows
