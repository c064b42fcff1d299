"""Path-partitioned abstract interpreter over LLVM IR.

Straight-line code and branches are followed per abstract path (trace partitioning); every loop is summarised by an
inductive invariant found by widening + Houdini filtering of template candidates, never by running it; constant
trip-count loops are peeled.  Library calls, callbacks and libc are modelled in model.py.
"""
import time
from math import gcd

from .lin import Lin, sym, ZERO, ONE, C, fresh_id
from .dom import (State, Ptr, PSym, Region, BF, IDT, UNDEF, NULL, NULLB, TRUE, FALSE, neg, cst, psym, mask_of,
                  mask_vals, FULL, Buf, _sgn)


CAP = 560      # CPU seconds of the process after which an analysis gives up; the thorough tier has more

class Broken(Exception):
    """the analysis cannot interpret the code (not a verdict about the code)"""


class Budget(Exception):
    pass


class Frame:
    __slots__ = ("fn", "args", "depth", "chain", "allocas", "va")

    def __init__(self, fn, args, depth, chain):
        self.fn, self.args, self.depth, self.chain = fn, args, depth, chain
        self.allocas = {}
        self.va = None


class NoInst:
    file, line, op, id, bytes = "", 0, "", -1, 1


class NoFrame:
    class fn:
        name = "<invariant>"
    chain = ()
    depth = 0


class LoopInfo:
    __slots__ = ("fn", "header", "chain", "parts", "iters", "exits", "inst", "entry", "line", "file", "peeled", "rets",
                 "invs")


def exact_div(e, k):
    """e / k as a linear form, None when not all of it is a multiple of k"""
    if e.c % k or any(v % k for _, v in e.t):
        return None
    return Lin(e.c // k, tuple((s, v // k) for s, v in e.t))


HUGE = 1 << 62
SIGNED = {'sgt', 'sge', 'slt', 'sle'}


class Interp:
    MAXPATHS = 60000

    def __init__(self, mod):
        self.mod = mod
        self.loops = []
        self.obls = {}
        self.npaths = 0
        self.ninst = 0
        self.fns_seen = set()
        self.calls_seen = set()
        self.callsites = {}
        self.contracts = {}
        self.quiet = 0
        self.nopeel = False
        self.unroll = 0
        self.txtvers = {}
        self.guards = []
        self.limit = 400000
        self.deadline = min(time.process_time() + 90, CAP)

    # ------------------------------------------------------------------ obligations
    def ob(self, kind, ok, st, inst, frame, what="", region=None):
        key = (kind, frame.fn.name, inst.file, inst.line, region, what)
        o = self.obls.get(key)
        if o is None:
            o = self.obls[key] = {"ok": 0, "bad": [], "kind": kind, "fn": frame.fn.name, "file": inst.file,
                                  "line": inst.line, "region": region, "what": what}
        if self.quiet:
            return
        if ok:
            o["ok"] += 1
        elif len(o["bad"]) < 3:
            o["bad"].append({"chain": list(frame.chain), "trail": st.trail_list()[-14:]})

    # ------------------------------------------------------------------ operand evaluation
    def val(self, fr, regs, o, st):
        k = o[0]
        if k == 'i':
            return st.nv(regs[o[1]])
        if k == 'a':
            return st.nv(fr.args[o[1]])
        if k == 'c':
            if o[2] == 1:
                return TRUE if o[1] & 1 else FALSE
            return C(o[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.gptr(o[1], o[2], st)
        return UNDEF

    def gptr(self, name, off, st):
        return Ptr(self.global_region(name), C(off))

    # numbers
    def lin(self, st, v, w=None, signed=False):
        """value -> Lin"""
        if isinstance(v, Lin):
            v = st.nl(v)
            if v.isconst() and signed and w and v.c >= 1 << (w - 1):
                return C(v.c - (1 << w))
            return v
        if isinstance(v, BF):
            m = st.sets.get(v.s, FULL)
            vals = [_sgn(v.tbl[i], v.w) for i in mask_vals(m)]
            if min(vals) == max(vals):
                return C(vals[0])
            # identical affine form?
            allv = [_sgn(x, v.w) for x in v.tbl]
            return Lin.of(sym(('bf', v.s, v.tbl, v.w), lo=min(allv), hi=max(allv), w=v.w))
        if v is UNDEF:
            return Lin.of(sym(('undef', fresh_id()), lo=None, hi=None))
        if isinstance(v, Ptr):
            if v.base is NULLB:
                return v.off
            return Lin.of(sym(('addr', v.base), lo=1, hi=None)) + v.off
        if isinstance(v, tuple):
            raise Broken("boolean used as a number")
        raise Broken("lin of %r" % (v,))

    def opaque(self, tag, args, w, lo=0, hi=None):
        if hi is None and w and w < 64:
            hi = (1 << w) - 1
        return Lin.of(sym((tag,) + tuple(args), lo=lo, hi=hi, w=w))

    def unsigned_forms(self, st, e, w):
        """[(state, Lin nonneg)] the unsigned reading of a Lin of width w"""
        if st.entails_ge(e):
            return [(st, e)]
        out = []
        for s in st.copy().assume(('ge', e)):
            out.append((s, s.nl(e)))
        for s in st.assume(('ge', -e - 1)):
            out.append((s, s.nl(e + (1 << w))))
        return out

    # ------------------------------------------------------------------ function execution
    def run_fn(self, fn, args, st, chain=(), depth=0):
        """-> [(state, return value)]"""
        if depth > 24:
            raise Broken("call depth in %s" % fn.name)
        self.fns_seen.add(fn.name)
        fr = Frame(fn, args, depth, tuple(chain) + (fn.name,))
        rets, exits, backs = self.region(fr, [(fn.blocks[0], None, {}, st)], None, None)
        return rets

    def region(self, fr, items, within, header):
        rets, exits, backs = [], [], []
        work = list(items)[::-1]
        while work:
            blk, prev, regs, st = work.pop()
            self.npaths += 1
            if self.npaths > self.limit or self.npaths & 63 == 0 and time.process_time() > self.deadline:
                raise Budget("path budget exceeded in %s" % fr.fn.name)
            if within is not None and prev is not None:
                if blk is header and prev in within and (blk, prev) != (None, None) and regs.get('__started'):
                    backs.append((blk, prev, regs, st))
                    continue
                if blk not in within:
                    exits.append((blk, prev, regs, st))
                    continue
            if blk in fr.fn.headers and not (blk is header and not regs.get('__started')):
                r2, e2 = self.loop(fr, blk, prev, regs, st)
                rets += r2
                for it in reversed(e2):
                    work.append(it)
                continue
            if blk is header:
                regs = dict(regs)
                regs['__started'] = True
            outs = self.block(fr, blk, prev, regs, st, skip_phi=(blk is header))
            for kind, a, b, c in outs:
                if kind == 'ret':
                    rets.append((a, b))
                else:
                    work.append((a, blk, b, c))
        return rets, exits, backs

    def block(self, fr, blk, prev, regs, st, skip_phi=False):
        """execute one block -> list of ('ret', st, val, None) | ('go', succ, regs, st)"""
        regs = dict(regs)
        if not skip_phi:
            news = {}
            for I in blk.insts:
                if I.op != 'phi':
                    break
                for pb, v in I.incoming:
                    if pb is prev:
                        news[I.id] = self.val(fr, regs, v, st)
                        break
            regs.update(news)
        cur = [(regs, st)]
        n0 = 0
        for I in blk.insts:
            if I.op == 'phi':
                continue
            nxt = []
            last = I.op in ('ret', 'br', 'switch', 'unreachable')
            if last:
                out = []
                for regs, st in cur:
                    out += self.term(fr, I, regs, st)
                return out
            for regs, st in cur:
                self.ninst += 1
                r = self.inst(fr, I, regs, st)
                if len(r) == 1:
                    s2, v = r[0]
                    regs[I.id] = v
                    nxt.append((regs, s2))
                else:
                    for s2, v in r:
                        rg = dict(regs)
                        rg[I.id] = v
                        nxt.append((rg, s2))
            cur = nxt
            if not cur:
                return []
        raise Broken("no terminator")

    def term(self, fr, I, regs, st):
        if I.op == 'ret':
            return [('ret', st, self.val(fr, regs, I.ops[0], st) if I.ops else None, None)]
        if I.op == 'unreachable':
            return []
        if I.op == 'br':
            if not I.ops:
                return [('go', I.succs[0], regs, st)]
            c = self.cond(self.val(fr, regs, I.ops[0], st))
            t, f = self.split(st, c, I)
            out = []
            for s in t:
                if f:
                    s.mark((I.file, I.line, True))
                out.append(('go', I.succs[0], regs, s))
            for s in f:
                if t:
                    s.mark((I.file, I.line, False))
                out.append(('go', I.succs[1], regs, s))
            return out
        # switch
        v = self.val(fr, regs, I.ops[0], st)
        out = []
        cur = [st]
        w = I.cases[0][0][2] if I.cases else 32
        done = {}
        for cv, tb in I.cases:
            nxt = []
            for s in cur:
                c = self.icmp(s, 'eq', v, C(cv[1]), w)
                for s0, cc in c:
                    t, f = s0.split(cc)
                    for x in t:
                        x.mark((I.file, I.line, "case %d" % cv[1]))
                        out.append(('go', tb, regs, x))
                    nxt += f
            cur = nxt
        for s in cur:
            s.mark((I.file, I.line, "default"))
            out.append(('go', I.succs[0], regs, s))
        return out

    def split(self, st, c, I):
        self.guards.append(c)
        return st.split(c)

    def cond(self, v):
        if isinstance(v, tuple):
            return v
        if v is UNDEF:
            return ('pred', ('undef', fresh_id()), True)
        if isinstance(v, Lin):
            return ('ne', v)
        if isinstance(v, BF):
            return ('bs', v.s, mask_of(lambda i: v.tbl[i] & 1))
        raise Broken("cond of %r" % (v,))

    # ------------------------------------------------------------------ instructions
    def inst(self, fr, I, regs, st):
        op = I.op
        V = lambda k: self.val(fr, regs, I.ops[k], st)
        if op == 'load':
            return self.load(fr, I, st, V(0))
        if op == 'store':
            return [(s, None) for s in self.store(fr, I, st, V(1), V(0))]
        if op == 'gep':
            b = self.val(fr, regs, I.gep[0], st)
            if not isinstance(b, Ptr):
                b = self.as_ptr(st, b)
            res = [(st, Ptr(b.base, b.off + I.gep[1]))]
            for o, sc in I.gep[2]:
                nr = []
                for s, p in res:
                    v = s.nv(self.val(fr, regs, o, s))
                    self.narrowuse(fr, I, s, v)
                    x = self.lin(s, v, 64, signed=True)
                    if x.c >= HUGE:                 # modulo arithmetic of the address
                        x = x - (1 << 64)
                    nr.append((s, Ptr(p.base, s.nl(p.off + x.scale(sc)))))
                res = nr
            return res
        if op == 'icmp':
            w, isp = I.bytes
            a, b = V(0), V(1)
            self.narrowuse(fr, I, st, a)
            self.narrowuse(fr, I, st, b)
            return self.icmp(st, I.pred, a, b, w or 64)
        if op in ('zext', 'sext', 'trunc'):
            return self.cast(fr, I, st, V(0))
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            return [(st, V(0))]
        if op == 'ptrtoint':
            v = V(0)
            return [(st, self.lin(st, v))]
        if op == 'inttoptr':
            return [(st, self.as_ptr(st, V(0)))]
        if op == 'select':
            c = self.cond(V(0))
            t, f = st.split(c)
            return [(s, self.val(fr, regs, I.ops[1], s)) for s in t] + \
                   [(s, self.val(fr, regs, I.ops[2], s)) for s in f]
        if op == 'alloca':
            return [(st, self.alloca(fr, I, st, V(0)))]
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            return self.arith(fr, I, st, V(0), V(1))
        if op == 'call':
            return self.call(fr, I, regs, st)
        if op == 'fence':
            return [(st, None)]
        raise Broken("unsupported instruction %s in %s (%s:%s)" % (op, fr.fn.name, I.file, I.line))

    def as_ptr(self, st, v):
        if isinstance(v, Ptr):
            return v
        if v is UNDEF:
            return Ptr(psym(('undefp', fresh_id()), "any", True))
        if isinstance(v, Lin):
            v = st.nl(v)
            if v == ZERO:
                return NULL
            for s, k in v.t:
                if k == 1 and isinstance(s.key, tuple) and s.key[0] == 'addr':
                    return Ptr(s.key[1], v - Lin.of(s))
        return Ptr(psym(('ptrof', v), "any", True))

    def cast(self, fr, I, st, v):
        op, w = I.op, I.width
        sw = I.bytes[0]
        if isinstance(v, tuple):   # i1
            one = C(1) if op == 'zext' else C(-1)
            t, f = st.split(v)
            return [(s, one) for s in t] + [(s, ZERO) for s in f]
        if v is UNDEF:
            return [(st, UNDEF)]
        if isinstance(v, BF):
            if op == 'zext':
                return [(st, BF(v.s, v.tbl, w))]
            if op == 'sext':
                m = (1 << w) - 1
                return [(st, BF(v.s, tuple((x if x < 1 << (sw - 1) else (x - (1 << sw)) & m) for x in v.tbl), w))]
            if w == 1:
                return [(st, ('bs', v.s, mask_of(lambda i: v.tbl[i] & 1)))]
            return [(st, BF(v.s, tuple(x & ((1 << w) - 1) for x in v.tbl), w))]
        e = self.lin(st, v)
        if op == 'trunc':
            if w == 1:
                if st.entails_ge(e) and st.entails_ge(C(1) - e):
                    return [(st, ('ne', e))]
                if e.isconst():
                    return [(st, TRUE if e.c & 1 else FALSE)]
                return [(st, ('pred', ('bit0', e), True))]
            if e.isconst():
                x = e.c & ((1 << w) - 1)
                if w > 8 and x >= 1 << (w - 1) and e.c < 0:
                    x -= 1 << w
                return [(st, C(x))]
            if w >= 32:
                return [(st, e)]       # sizes are assumed to fit an int (stated assumption)
            if st.entails_ge(e) and st.entails_ge(C((1 << w) - 1) - e):
                return [(st, e)]
            return [(st, self.opaque('trunc', (e, w), w))]
        if op == 'sext':
            if e.isconst() and e.c >= 1 << (sw - 1):
                return [(st, C(e.c - (1 << sw)))]
            if sw in (8, 16) and not st.entails_ge(C((1 << (sw - 1)) - 1) - e):
                return [(st, self.opaque('sext', (e,), w, lo=-(1 << (sw - 1)), hi=(1 << (sw - 1)) - 1))]
            return [(st, e)]
        # zext
        if e.isconst() and e.c < 0:
            return [(st, C(e.c + (1 << sw)))]
        if not st.entails_ge(e):
            return self.unsigned_forms(st, e, sw)
        return [(st, e)]

    def arith(self, fr, I, st, a, b):
        op, w = I.op, I.width
        if isinstance(a, tuple) or isinstance(b, tuple):     # booleans
            a, b = self.cond(a), self.cond(b)
            if op == 'and':
                return [(st, ('and', a, b))]
            if op == 'or':
                return [(st, ('or', a, b))]
            if op == 'xor':
                if b == TRUE:
                    return [(st, neg(a))]
                if a == TRUE:
                    return [(st, neg(b))]
                return [(st, ('or', ('and', a, neg(b)), ('and', neg(a), b)))]
            raise Broken("boolean %s" % op)
        if a is UNDEF or b is UNDEF:
            return [(st, UNDEF)]
        m = (1 << w) - 1
        ca, cb = cst(a), cst(b)

        def sg(x):
            x &= m
            return x - (1 << w) if x >= 1 << (w - 1) else x

        FN = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y,
              'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
              'shl': lambda x, y: x << y if y < w else 0, 'lshr': lambda x, y: (x & m) >> y,
              'ashr': lambda x, y: sg(x) >> y,
              'udiv': lambda x, y: (x & m) // (y & m) if y & m else 0,
              'urem': lambda x, y: (x & m) % (y & m) if y & m else 0,
              'sdiv': lambda x, y: int(sg(x) / sg(y)) if sg(y) else 0,
              'srem': lambda x, y: sg(x) - sg(y) * int(sg(x) / sg(y)) if sg(y) else 0}
        if isinstance(a, BF) and (cb is not None or (isinstance(b, BF) and b.s is a.s)):
            tb = b.tbl if isinstance(b, BF) else [cb] * 256
            return [(st, BF(a.s, tuple(FN[op](x, y) & m for x, y in zip(a.tbl, tb)), w))]
        if isinstance(b, BF) and ca is not None:
            return [(st, BF(b.s, tuple(FN[op](ca, y) & m for y in b.tbl), w))]
        if ca is not None and cb is not None:
            if op in ('add', 'sub', 'mul'):
                x = FN[op](sg(ca) if abs(ca) >= 1 << (w - 1) else ca, sg(cb) if abs(cb) >= 1 << (w - 1) else cb)
                if op == 'sub' and x < 0 and w == 64 and not I.nsw:
                    return [(st, C(x + (1 << w)))]
                if op == 'add' and w == 64 and x >= 1 << 64:
                    x -= 1 << 64
                return [(st, C(x))]
            return [(st, C(FN[op](ca, cb) & m))]
        ea, eb = self.lin(st, a, w, True), self.lin(st, b, w, True)
        if op == 'add':
            r = st.nl(ea + eb)
            if w == 64 and r.c >= HUGE and st.entails_ge(r - (1 << 64)):
                return [(st, st.nl(r - (1 << 64)))]
            if w <= 16:
                return self.narrow(st, r, w)
            # decrement written as an addition of a negative constant
            if eb.isconst() and eb.c < 0 and not I.nsw and w == 64:
                return self.usub(fr, I, st, ea, C(-eb.c), w)
            return [(st, r)]
        if op == 'sub':
            if w <= 16:
                return self.narrow(st, st.nl(ea - eb), w)
            if I.nsw or w < 64 or ea == ZERO:      # 0 - x: pointer decrement
                return [(st, st.nl(ea - eb))]
            if any(isinstance(s.key, tuple) and s.key[0] == 'addr' for s in ea.syms()):
                return [(st, st.nl(ea - eb))]
            return self.usub(fr, I, st, ea, eb, w)
        if op == 'mul':
            if eb.isconst():
                return [(st, ea.scale(eb.c))]
            if ea.isconst():
                return [(st, eb.scale(ea.c))]
        if op == 'shl' and eb.isconst() and 0 <= eb.c < w and w >= 32:
            return [(st, ea.scale(1 << eb.c))]
        if op in ('lshr', 'udiv') and eb.isconst() and st.entails_ge(ea):
            k = (1 << eb.c) if op == 'lshr' else eb.c
            if k > 0:
                q = sym(('div', ea, k), lo=0)
                st.add_ge(ea - Lin.of(q).scale(k))
                st.add_ge(Lin.of(q).scale(k) + (k - 1) - ea)
                return [(st, Lin.of(q))]
        if op == 'urem' and eb.isconst() and eb.c > 0 and st.entails_ge(ea):
            q = sym(('div', ea, eb.c), lo=0)
            r = ea - Lin.of(q).scale(eb.c)
            st.add_ge(r)
            st.add_ge(C(eb.c - 1) - r)
            return [(st, st.nl(r))]
        if op == 'urem' and not eb.isconst() and st.entails_ge(ea) and st.entails_ge(eb - 1):
            # a mod b: a below b, below 2b, or anything below b
            out = []
            lt, ge = st.split(('ge', eb - 1 - ea))
            out += [(s, s.nl(ea)) for s in lt]
            for g in ge:
                one, more = g.split(('ge', eb + eb - 1 - ea))
                out += [(s, s.nl(ea - eb)) for s in one]
                for s in more:
                    r = Lin.of(sym(('mod', ea, eb), lo=0))
                    s.add_ge(r)
                    s.add_ge(eb - 1 - r)
                    out.append((s, s.nl(r)))
            return out
        if op == 'and' and eb.isconst() and eb.c >= 0:
            return [(st, self.opaque('and', (ea, eb), w, 0, eb.c))]
        if op in ('and', 'or', 'xor'):
            x = sorted([ea, eb], key=repr)
            return [(st, self.opaque(op, x, w))]
        return [(st, self.opaque(op, (ea, eb), w, lo=None if op in ('sdiv', 'srem', 'ashr') else 0))]

    def narrow(self, st, r, w):
        if st.entails_ge(r + (1 << (w - 1))) and st.entails_ge(C((1 << w) - 1) - r):
            return [(st, r)]
        return [(st, self.opaque('mod', (r, w), w))]

    def wrapuse(self, fr, I, st, v):
        """a number that wrapped below zero leaves the function's own variables"""
        if isinstance(v, Lin) and v.c >= HUGE and v.c < 1 << 64:
            self.ob('wrap', False, st, I, fr, "unsigned subtraction below zero is used")
        else:
            self.narrowuse(fr, I, st, v, 'narrow')

    def narrowuse(self, fr, I, st, v, kind='counter'):
        if isinstance(v, Lin) and len(v.t) == 1 and isinstance(v.t[0][0].key, tuple) and v.t[0][0].key[0] in ('mod', 'trunc'):
            self.ob(kind, False, st, I, fr, "a result that may not fit its type is used")

    def usub(self, fr, I, st, ea, eb, w):
        """unsigned subtraction; both the exact and the wrapped case are followed"""
        r = st.nl(ea - eb)
        if st.entails_ge(r):
            self.ob('wrap', True, st, I, fr, "unsigned subtraction")
            return [(st, r)]
        t, f = st.split(('ge', r))
        out = [(s, s.nl(r)) for s in t]
        for s in f:
            s.mark((I.file, I.line, "wraps below zero"))
            out.append((s, s.nl(r + (1 << w))))
        return out

    def icmp(self, st, pred, a, b, w):
        """-> [(st, cond)]"""
        if isinstance(a, tuple) or isinstance(b, tuple):
            a, b = self.cond(a) if not isinstance(a, Lin) else (TRUE if a.c else FALSE), \
                self.cond(b) if not isinstance(b, Lin) else (TRUE if b.c else FALSE)
            x = ('or', ('and', a, neg(b)), ('and', neg(a), b))
            if pred == 'ne':
                return [(st, x)]
            if pred == 'eq':
                return [(st, neg(x))]
            raise Broken("icmp on i1")
        if a is UNDEF or b is UNDEF:
            return [(st, ('pred', ('undef', fresh_id()), True))]
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            a, b = st.np(a), st.np(b)
            if pred == 'eq':
                return [(st, self.pcond(st, a, b))]
            if pred == 'ne':
                return [(st, neg(self.pcond(st, a, b)))]
            if a.base is b.base:
                return self.icmp(st, pred.replace('u', 's') if pred[0] == 'u' else pred, a.off, b.off, w)
            return [(st, ('pred', ('pcmp', pred, a, b), True))]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a, b = self.as_ptr(st, a), self.as_ptr(st, b)
            return self.icmp(st, pred, a, b, w)
        ca, cb = cst(a), cst(b)
        M = (1 << w) - 1

        def sg(x):
            x &= M
            return x - (1 << w) if x >= 1 << (w - 1) else x

        CMP = {'eq': lambda x, y: x & M == y & M, 'ne': lambda x, y: x & M != y & M,
               'ugt': lambda x, y: x & M > y & M, 'uge': lambda x, y: x & M >= y & M,
               'ult': lambda x, y: x & M < y & M, 'ule': lambda x, y: x & M <= y & M,
               'sgt': lambda x, y: sg(x) > sg(y), 'sge': lambda x, y: sg(x) >= sg(y),
               'slt': lambda x, y: sg(x) < sg(y), 'sle': lambda x, y: sg(x) <= sg(y)}
        if ca is not None and cb is not None:
            return [(st, TRUE if CMP[pred](ca, cb) else FALSE)]
        if isinstance(a, BF) and cb is not None:
            return [(st, self.bs(st, a.s, mask_of(lambda i: CMP[pred](a.tbl[i], cb))))]
        if isinstance(b, BF) and ca is not None:
            return [(st, self.bs(st, b.s, mask_of(lambda i: CMP[pred](ca, b.tbl[i]))))]
        if isinstance(a, BF) and isinstance(b, BF) and a.s is b.s:
            return [(st, self.bs(st, a.s, mask_of(lambda i: CMP[pred](a.tbl[i], b.tbl[i]))))]
        sgn = pred in SIGNED or pred in ('eq', 'ne')
        ea, eb = self.lin(st, a, w, sgn), self.lin(st, b, w, sgn)
        res = []
        if pred in ('eq', 'ne'):
            e = self.bytes_eq(st.nl(ea - eb))
            # equality of unsigned 32/64 bit values with a huge constant
            c = ('eq', e)
            if not e.t:
                c = TRUE if e.c == 0 else FALSE
            return [(st, c if pred == 'eq' else neg(c))]
        if pred in SIGNED:
            forms = [(st, ea, eb)]
        else:
            forms = []
            for s1, x in self.unsigned_forms(st, ea, w):
                for s2, y in self.unsigned_forms(s1, s1.nl(eb), w):
                    forms.append((s2, s2.nl(x), y))
        for s, x, y in forms:
            d = s.nl(x - y)
            k = pred[1:]
            c = {'gt': ('ge', d - 1), 'ge': ('ge', d), 'lt': ('ge', -d - 1), 'le': ('ge', -d)}[k]
            if not d.t:
                c = TRUE if c[1].c >= 0 else FALSE
            res.append((s, c))
        return res

    def bytes_eq(self, e):
        """the difference of the same one-to-one function of two bytes vanishes exactly when the bytes are equal"""
        if len(e.t) == 2 and e.c == 0:
            (x, i), (y, j) = e.t
            kx, ky = x.key, y.key
            if i + j == 0 and i in (1, -1) and all(isinstance(k, tuple) and k[0] == 'bf' for k in (kx, ky)) and \
                    kx[2:] == ky[2:] and kx[2:] != (IDT, 8) and len(set(kx[2])) == 256:
                return (Lin.of(sym(('bf', kx[1], IDT, 8), lo=0, hi=255, w=8)) -
                        Lin.of(sym(('bf', ky[1], IDT, 8), lo=0, hi=255, w=8)))
        return e

    def bs(self, st, s, mask):
        cur = st.sets.get(s, FULL)
        if cur & ~mask == 0:
            return TRUE
        if cur & mask == 0:
            return FALSE
        return ('bs', s, mask)

    def pcond(self, st, a, b):
        if a == b:
            return TRUE
        if a.base is b.base:
            return ('eq', st.nl(a.off - b.off))
        if a.base is NULLB or b.base is NULLB:
            x = b if a.base is NULLB else a
            if st.known_nonnull(x):
                return FALSE
        return ('peq', a, b)

    # ------------------------------------------------------------------ loops
    def shape(self, st, v, widened, ent):
        """abstract shape of a loop-carried value; ('k',..) shapes keep the value, others get a fresh symbol"""
        v = st.nv(v)
        if v is UNDEF:
            return ('undef',)
        if isinstance(v, BF):
            return ('byte',)
        if isinstance(v, tuple):
            if v[0] == 'c':
                return ('b', v[1])
            return ('bool',)
        if isinstance(v, Lin):
            if v.isconst() and not widened:
                return ('k', v.c)
            return ('int',)
        if isinstance(v, Ptr):
            if v.base is NULLB:
                return ('null',)
            if isinstance(v.base, PSym) and v.base.cls in ('node', 'file', 'fn', 'any'):
                if v.base.cls == 'file' and isinstance(ent, Ptr) and st.np(ent).base is v.base:
                    return ('poff', v.base) if (widened or not v.off.isconst()) else ('pk', v.base, v.off.c)
                if v.off.isconst():
                    return ('ps', v.base.cls, v.off.c, st.known_nonnull(Ptr(v.base)))
                return ('ps', v.base.cls, None, True)
            if v.off.isconst() and not widened:
                return ('pk', v.base, v.off.c)
            return ('poff', v.base)
        raise Broken("shape of %r" % (v,))

    def loop(self, fr, h, prev, regs, st):
        fn = fr.fn
        body = fn.loops[h]
        phis = [I for I in h.insts if I.op == 'phi']
        ent = {}
        for I in phis:
            for pb, v in I.incoming:
                if pb is prev:
                    ent[I.id] = self.val(fr, regs, v, st)
        # constant trip-count peeling
        pe = None if self.nopeel else self.try_peel(fr, h, body, ent, regs, st)
        if pe is None and self.unroll:
            pe = self.peel_all(fr, h, body, ent, regs, st)
        if pe is not None:
            return pe
        lid = ('L', fn.name, h.idx, fresh_id())
        widened = set()
        for I in phis:
            for pb, v in I.incoming:
                if pb in body and self.is_step(fn, I, v):
                    widened.add(I.id)
        modc = {}      # (base, off) -> True    cells written in the body
        modb = set()   # buffers written in the body
        cells_w = set()
        dropped = set()
        strides = self.strides_of(fn, phis, body)
        kcount = {}
        rounds = 0
        extra = []     # learned candidate templates
        entcells = {}
        while True:
            rounds += 1
            if rounds > 40:
                raise Broken("loop in %s (line %s) does not stabilise" % (fn.name, h.insts[0].line))
            parts = {}
            order = []
            iters, exits, rets = [], [], []
            restart = False
            ekey = self.part_key(st, ent, regs, widened, modc, cells_w, ent, st)
            pend = [ekey]
            incoming = {ekey: [('entry', ent, regs, st, 0)]}
            hstates = {}
            g0 = len(self.guards)
            while pend and not restart:
                key = pend.pop(0)
                if key in hstates:
                    continue
                if len(hstates) > 40:
                    raise Broken("too many loop partitions in %s" % fn.name)
                hv, hs, cand = self.make_header(fr, lid, key, phis, ent, st, modc, modb, cells_w, dropped, extra, strides)
                hstates[key] = (hv, hs, cand)
                rg = dict(regs)
                rg.update(hv)
                s0 = hs.copy()
                s0.writes = ()
                nev = len(s0.events)
                rg['__started'] = False
                self.quiet += 1
                try:
                    r2, e2, b2 = self.region(fr, [(h, None, rg, s0)], body, h)
                finally:
                    self.quiet -= 1
                # newly written memory
                for (_, _, _, s2) in e2 + b2:
                    if self.note_writes(s2, st, modc, modb):
                        restart = True
                for s2, _ in r2:
                    if self.note_writes(s2, st, modc, modb):
                        restart = True
                if restart:
                    break
                for (_, pb, rg2, s2) in b2:
                    nv = {}
                    for I in phis:
                        for ib, v in I.incoming:
                            if ib is pb:
                                nv[I.id] = self.val(fr, rg2, v, s2)
                    k2 = self.part_key(s2, nv, rg2, widened, modc, cells_w, ent, st)
                    # too many constants for one phi -> widen it
                    for I in phis:
                        sh = self.shape(s2, nv[I.id], I.id in widened, ent[I.id])
                        if sh[0] in ('k', 'pk'):
                            ks = kcount.setdefault(I.id, set())
                            ks.add(sh)
                            if len(ks) > 6 and I.id not in widened:
                                widened.add(I.id)
                                restart = True
                    for ck in modc:
                        sh = self.cell_shape(s2, ck, cells_w)
                        if sh and sh[0] in ('k', 'pk'):
                            ks = kcount.setdefault(ck, set())
                            ks.add(sh)
                            if len(ks) > 6 and ck not in cells_w:
                                cells_w.add(ck)
                                restart = True
                    if restart:
                        break
                    # a constant that becomes non constant: the const partition is kept as well
                    incoming.setdefault(k2, []).append(('back', nv, rg2, s2, nev))
                    iters.append((key, k2, nv, rg2, s2))
                    if k2 not in hstates:
                        pend.append(k2)
                exits += [(key,) + e for e in e2]
                rets += [(key,) + r for r in r2]
            if restart:
                dropped = set()
                continue
            if rounds == 1 or not getattr(self, '_noextra', False):
                new = self.learn(fr, lid, phis, ent, st, hstates, iters, self.guards[g0:], modc)
                new = [x for x in new if x not in extra]
                if new and rounds < 12:
                    extra += new
                    del self.guards[g0:]
                    continue
            del self.guards[g0:]
            # verify candidates
            bad = False
            for key, (hv, hs, cand) in hstates.items():
                for cid, tmpl in cand:
                    if (key, cid) in dropped:
                        continue
                    for kind, nv, rg2, s2, nev in incoming.get(key, ()):
                        if not self.holds(tmpl, nv, s2, ent, st, modc, lid):
                            dropped.add((key, cid))
                            bad = True
                            break
            if not bad:
                break
        # final run with obligations recorded
        info = LoopInfo()
        info.fn, info.header, info.chain, info.inst = fn, h, fr.chain, lid
        info.entry = (dict(ent), st)
        info.line = next((i.line for i in h.insts if i.line), 0)
        info.file = fn.file
        info.peeled = False
        info.parts = {k: hv for k, (hv, hs, c) in hstates.items()}
        info.invs = {k: [t for cid, t in c if (k, cid) not in dropped] for k, (hv, hs, c) in hstates.items()}
        info.iters, info.exits, info.rets = [], [], []
        r_out, e_out = [], []
        again = st.reads
        for key, (hv, hs, cand) in hstates.items():
            rg = dict(regs)
            rg.update(hv)
            s0 = hs.copy()
            s0.events = st.events + (('loop', lid, fn.name),)
            s0.writes = st.writes
            rg['__started'] = False
            r2, e2, b2 = self.region(fr, [(h, None, rg, s0)], body, h)
            for (_, pb, rg2, s2) in b2:
                again = again | s2.reads
                nv = {}
                for I in phis:
                    for ib, v in I.incoming:
                        if ib is pb:
                            nv[I.id] = self.val(fr, rg2, v, s2)
                            x = s2.nv(nv[I.id]) if isinstance(nv[I.id], Lin) else ZERO
                            k = x.t[0][0].key if len(x.t) == 1 else None
                            if isinstance(k, tuple) and k[0] == 'mod' and isinstance(hv[I.id], Lin) and \
                                    s2.nl(k[1] - hv[I.id]).isconst():
                                self.narrowuse(fr, I, s2, x)       # the loop variable moved on beyond its type
                k2 = self.part_key(s2, nv, rg2, widened, modc, cells_w, ent, st)
                info.iters.append((key, k2, nv, s2))
            for it in e2:
                rg2 = dict(it[2])
                rg2.pop('__started', None)
                if '__started' in regs:
                    rg2['__started'] = regs['__started']
                info.exits.append((key, it[0], it[1], rg2, it[3]))
                e_out.append((it[0], it[1], rg2, it[3]))
            for s2, v in r2:
                info.rets.append((key, s2, v))
                r_out.append((s2, v))
        if not self.quiet:
            self.loops.append(info)
        # what any earlier iteration read
        for it in e_out:
            it[3].reads = it[3].reads | again
        for s2, v in r_out:
            s2.reads = s2.reads | again
        return r_out, e_out

    def try_peel(self, fr, h, body, ent, regs, st, maxit=20):
        """peel loops whose exit test is decided by constants; None when not applicable"""
        # quick syntactic filter: some phi starts constant and is stepped by a constant, compared with a constant
        ok = False
        for I in h.insts:
            if I.op == 'phi' and isinstance(ent.get(I.id), Lin) and ent[I.id].isconst():
                for pb, v in I.incoming:
                    if pb in body and self.is_step(fr.fn, I, v):
                        for b in body:
                            for J in b.insts:
                                if J.op == 'icmp' and ('i', I.id) in J.ops and any(self.isk(fr, regs, o, st) for o in J.ops) and \
                                        any(s not in body for s in b.succs):
                                    ok = True
        if not ok:
            return None
        self.quiet += 1
        g0 = len(self.guards)
        try:
            r = self._peel(fr, h, body, ent, regs, st, maxit)
        finally:
            self.quiet -= 1
        del self.guards[g0:]
        if r is None:
            return None
        if self.quiet:
            return r
        return self._peel(fr, h, body, ent, regs, st, maxit)

    def peel_all(self, fr, h, body, ent, regs, st):
        """explicit data: follow every iteration; None when the loop does not end within the bound"""
        self.quiet += 1
        g0 = len(self.guards)
        try:
            r = self._peel(fr, h, body, ent, regs, st, self.unroll)
        finally:
            self.quiet -= 1
        del self.guards[g0:]
        if r is None or self.quiet:
            return r
        return self._peel(fr, h, body, ent, regs, st, self.unroll)

    def isk(self, fr, regs, o, st):
        if o[0] == 'c':
            return True
        if o[0] == 'a' or (o[0] == 'i' and o[1] in regs):
            v = self.val(fr, regs, o, st)
            return isinstance(v, Lin) and v.isconst() and abs(v.c) <= 20
        return False

    def _peel(self, fr, h, body, ent, regs, st, maxit):
        cur = [(dict(regs, **{}), ent, st.copy())]
        rets, exits = [], []
        for it in range(maxit):
            nxt = []
            for rg, hv, s in cur:
                rg = dict(rg)
                rg.update(hv)
                rg['__started'] = False
                r2, e2, b2 = self.region(fr, [(h, None, rg, s)], body, h)
                rets += r2
                for x in e2:
                    rg2 = dict(x[2])
                    rg2.pop('__started', None)
                    if '__started' in regs:
                        rg2['__started'] = regs['__started']
                    exits.append((x[0], x[1], rg2, x[3]))
                for (_, pb, rg2, s2) in b2:
                    nv = {}
                    for I in h.insts:
                        if I.op != 'phi':
                            break
                        for ib, v in I.incoming:
                            if ib is pb:
                                nv[I.id] = self.val(fr, rg2, v, s2)
                    nxt.append((rg2, nv, s2))
                if len(nxt) > 1500:
                    return None
            if not nxt:
                return rets, exits
            cur = nxt
        return None

    def is_step(self, fn, phi, v):
        """v is phi +/- something (possibly through a gep)"""
        if v[0] != 'i':
            return False
        for b in fn.blocks:
            for J in b.insts:
                if J.id == v[1]:
                    if J.op in ('add', 'sub'):
                        return ('i', phi.id) in J.ops
                    if J.op == 'gep':
                        return J.gep[0] == ('i', phi.id)
                    return False
        return False

    def strides_of(self, fn, phis, body):
        """pointer phis advanced on every back edge by a constant number of bytes: id -> greatest common step above one"""
        defs = {J.id: J for b in fn.blocks for J in b.insts}
        out = {}
        for I in phis:
            g = 0
            for pb, v in I.incoming:
                if pb not in body:
                    continue
                n = self.step_of(defs, I, v, 0)
                if n is None:
                    g = 0
                    break
                g = gcd(g, n)
            if g > 1:
                out[I.id] = g
        return out

    def step_of(self, defs, phi, v, depth):
        """constant byte distance of v from the phi, None when unknown"""
        if v == ('i', phi.id):
            return 0
        J = defs.get(v[1]) if v[0] == 'i' else None
        if J is None or depth > 4:
            return None
        if J.op == 'phi':
            g = 0
            for _, x in J.incoming:
                n = self.step_of(defs, phi, x, depth + 1)
                if n is None:
                    return None
                g = gcd(g, n)
            return g
        if J.op != 'gep':
            return None
        n = self.step_of(defs, phi, J.gep[0], depth + 1)
        if n is None:
            return None
        n = gcd(n, abs(J.gep[1]))
        for _, sc in J.gep[2]:
            n = gcd(n, abs(sc))
        return n

    def cell_shape(self, s, ck, cells_w):
        v = s.cells.get(ck)
        if v is None:
            return None
        return self.shape(s, v, ck in cells_w, None)

    def part_key(self, s, vals, regs, widened, modc, cells_w, ent, st0):
        k = []
        for i in sorted(vals):
            k.append((i, self.shape(s, vals[i], i in widened, ent.get(i))))
        for ck in sorted(modc, key=lambda c: (repr(c[0]), repr(c[1]))):
            sh = self.cell_shape(s, ck, cells_w)
            if sh is None:
                sh = ('init',)
            elif sh[0] == 'int' and isinstance(s.cells.get(ck), Lin):
                sh = ('int',)
            k.append((ck, sh))
        return tuple(k)

    def note_writes(self, s, st0, modc, modb):
        ch = False
        for (b, o) in s.written:
            v = s.cells.get((b, o))
            if (b, o) in st0.written and st0.cells.get((b, o)) == v:
                continue
            if (b, o) not in st0.written and False:
                continue
            base_known = self.base_known(b, st0)
            if not base_known:
                # store through a loop-variant pointer: whole class is havocked
                if isinstance(b, Region) and b.kind == 'stack':
                    continue
                kk = ('class', b.cls, o if isinstance(o, int) else None)
                if kk not in modb:
                    modb.add(kk)
                    ch = True
                continue
            if (b, o) not in modc:
                modc[(b, o)] = True
                ch = True
        for b, bf in s.bufs.items():
            o = st0.bufs.get(b)
            if o is not None and (o.ver != bf.ver or o.log != bf.log):
                if b not in modb:
                    modb.add(b)
                    ch = True
        return ch

    def base_known(self, b, st0):
        if isinstance(b, Region):
            return True
        # psyms created by this loop (fresh) or loaded through them are not known before the loop
        return not self.mentions_loop(b.key)

    def mentions_loop(self, key):
        if isinstance(key, tuple):
            if key and key[0] == 'loopv':
                return True
            return any(self.mentions_loop(x) for x in key)
        if isinstance(key, PSym):
            return self.mentions_loop(key.key)
        return False

    def make_header(self, fr, lid, key, phis, ent, st, modc, modb, cells_w, dropped, extra, strides):
        hs = st.copy()
        hv = {}
        for I in phis:
            sh = dict((k, v) for k, v in key if isinstance(k, int))[I.id]
            hv[I.id] = self.fresh_of(hs, lid, I.id, sh, ent[I.id], I.width, st)
        kd = dict((k, v) for k, v in key if not isinstance(k, int))
        for x in modb:
            if isinstance(x, tuple) and x[0] == 'class':
                for ck in [c for c in hs.cells if c[0].cls == x[1] and (x[2] is None or c[1] == x[2])]:
                    if ck not in modc:
                        del hs.cells[ck]
                        hs.written.discard(ck)
                hs.epoch[x[1]] = ('loopv', lid)
                hs.havocs += 1
        for ck in modc:
            sh = kd[ck]
            if sh == ('init',):
                continue
            ev = st.cells.get(ck)
            v = self.fresh_of(hs, lid, ck, sh, ev if ev is not None else self.cell_init(st, ck), 64, st)
            hs.cells[ck] = v
            hs.written.add(ck)
        for b in modb:
            if not isinstance(b, tuple):
                hs.bufs[b] = Buf(('loopv', lid, b), (), None, False)
        # invariants
        cand = []
        vals = dict(hv)
        for ck in modc:
            if ck in hs.cells:
                vals[ck] = hs.cells[ck]
        ints = []      # (id, header Lin, entry Lin)
        for i, v in vals.items():
            e = ent.get(i) if isinstance(i, int) else (st.cells.get(i) if st.cells.get(i) is not None
                                                       else self.cell_init(st, i))
            if isinstance(v, Lin) and not v.isconst() and isinstance(e, (Lin, BF)):
                ints.append((i, v, self.lin(st, e)))
            elif isinstance(v, Ptr) and isinstance(e, Ptr) and st.np(e).base is v.base and not v.off.isconst():
                ints.append((i, v.off, st.np(e).off))
        cand = []

        def add(t):
            cand.append((t, t))
        for b in sorted([x for x in modb if not isinstance(x, tuple)], key=repr):
            if self.esz(b) != 1:
                continue
            e = self.slen(st, b)
            if e is None:
                continue
            i = ('strlen', b)
            v = Lin.of(sym(('loopv', lid, 'strlen', b), lo=0))
            vals[i] = v
            add(('strz', i, b))
            ints.append((i, v, e))
        for b in sorted([x for x in modb if not isinstance(x, tuple)], key=repr):
            bf = self.getbuf(st, b)
            if self.esz(b) != 1 or bf.log or bf.text is not None:
                continue
            for i, v in list(vals.items()):
                if isinstance(v, Ptr) and v.base is b and not v.off.isconst():
                    add(('tail', i, b))
        for i, v, e in list(ints):
            if i in strides and isinstance(v, Lin) and isinstance(vals.get(i), Ptr):
                j = ('q', i, strides[i], st.nl(e))
                vals[j] = Lin.of(sym(('loopv', lid, 'q', i), lo=None))
                add(('stride', j))
                ints.append((j, vals[j], ZERO))
        for t in extra:
            if t[0] == 'cntvar' and any(i == t[1] for i, _, _ in ints):
                i = ('cnt',) + t[1:]
                v = self.tv(i, vals, hs)
                if v is not None:
                    ints.append((i, v, ZERO))
        ids = [i for i, _, _ in ints]
        for i, v, e in ints:
            add(('lo', i))
            add(('hi', i))
            add(('bound', (i,), Lin.of(sym(('ph', i), lo=None))))
        for a in range(len(ids)):
            for b in range(a + 1, len(ids)):
                cn = [isinstance(x, tuple) and x[0] == 'cnt' for x in (ids[a], ids[b])]
                if all(cn):
                    continue
                for r in ('eq', 'neg', 'le', 'ge'):
                    add(('pair', r, ids[a], ids[b]))
                if any(cn):
                    for k in (-1, 1):
                        add(('pairc', 'le', ids[a], ids[b], k))
                        add(('pairc', 'ge', ids[a], ids[b], k))
        for t in extra:
            if t[0] in ('bound', 'all', 'oth') and all(x in ids for x in t[1]):
                add(t)
        for i, v in vals.items():
            if isinstance(v, Ptr) and isinstance(v.base, PSym) and v.base.key[:1] == ('loopv',):
                add(('same', i))
                add(('reach', i))
                for j, q in vals.items():
                    if j != i and isinstance(q, Ptr) and (isinstance(q.base, PSym)) and q.base.cls == 'node':
                        for off in self.node_links():
                            add(('link', j, off, i))
                        add(('deref', j, i))
        # assume the surviving ones; candidates contradicting the others are left out (not dropped) in this round
        skip = set()
        base = hs
        while True:
            hs = base.copy()
            ok = True
            for cid, t in cand:
                if (key, cid) in dropped or cid in skip:
                    continue
                if not self.assume_tmpl(t, vals, hs, ent, st, lid):
                    skip.add(cid)
                    ok = False
                    break
            if ok:
                break
        return hv, hs, cand

    def fresh_of(self, hs, lid, i, sh, e, w, st):
        k = sh[0]
        kk = ('loopv', lid, i if isinstance(i, int) else (i[0], i[1]), sh)
        if k == 'k':
            return C(sh[1])
        if k == 'b':
            return ('c', sh[1])
        if k == 'bool':
            return ('pred', kk, True)
        if k == 'undef':
            return UNDEF
        if k == 'byte':
            s = sym(('byte', kk, ZERO), lo=0, hi=255, w=8)
            return BF(s, IDT, w or 8)
        if k == 'int':
            return Lin.of(sym(kk, lo=0 if w in (8, 64) else None, hi=255 if w == 8 else None, w=w))
        if k == 'null':
            return NULL
        if k == 'pk':
            return Ptr(sh[1], C(sh[2]))
        if k == 'poff':
            return Ptr(sh[1], Lin.of(sym(kk, lo=None, hi=None)))
        if k == 'ps':
            p = psym(kk, sh[1], not sh[3])
            return Ptr(p, C(sh[2]) if sh[2] is not None else Lin.of(sym(kk + ('o',), lo=0)))
        raise Broken("fresh_of %r" % (sh,))

    # templates ------------------------------------------------------------
    def slen(self, st, b):
        """length of the NUL-terminated text at the start of buffer b, None when not known to be terminated"""
        self.quiet += 1
        try:
            s = st.copy()
            bf = self.getbuf(s, b)
            if bf.text is None and not bf.log and ("len", bf.ver, ZERO) not in s.strl and \
                    not any(s.sets.get(x, FULL) == 1 for o, x in s.bytes.get(bf.ver, ())):
                return None
            r = self.strlen2(NoFrame, NoInst, s, Ptr(b))
        finally:
            self.quiet -= 1
        if len(r) != 1:
            return None
        s2, L = r[0]
        if s2 is not st:
            for a in State.__slots__:
                setattr(st, a, getattr(s2, a))
        return st.nl(L)

    def tv(self, i, vals, s):
        """numeric view of variable i"""
        if isinstance(i, tuple) and i[0] == 'cnt':
            x = self.tv(i[1], vals, s)
            return None if x is None else self.cnt_term(s, i[2], i[3], i[4], x + i[5])
        if isinstance(i, tuple) and i[0] == 'q':
            if i in vals:
                return s.nl(vals[i])
            x = self.tv(i[1], vals, s)
            return None if x is None else exact_div(s.nl(x - i[3]), i[2])
        if isinstance(i, tuple) and i[0] == 'strlen':
            v = vals.get(i)
            return s.nl(v) if v is not None else self.slen(s, i[1])
        v = vals.get(i) if (isinstance(i, int) or i in vals) else None
        if v is None:
            v = s.cells.get(i)
        v = s.nv(v) if v is not None else None
        if isinstance(v, (Lin, BF)):
            return self.lin(s, v)
        if isinstance(v, Ptr):
            return v.off
        return None

    def te(self, i, ent, st):
        if isinstance(i, tuple) and i[0] in ('cnt', 'q'):
            return ZERO
        if isinstance(i, tuple) and i[0] == 'strlen':
            return self.slen(st, i[1])
        v = ent.get(i) if isinstance(i, int) else (st.cells.get(i) if st.cells.get(i) is not None
                                                   else self.cell_init(st, i))
        v = st.nv(v)
        if isinstance(v, (Lin, BF)):
            return self.lin(st, v)
        if isinstance(v, Ptr):
            return v.off
        return None

    def tmpl_form(self, t, vals, s, ent, st):
        """-> list of conditions (all must hold) or None"""
        k = t[0]
        if k in ('lo', 'hi'):
            x, x0 = self.tv(t[1], vals, s), self.te(t[1], ent, st)
            if x is None or x0 is None:
                return None
            return [('ge', x - x0)] if k == 'lo' else [('ge', x0 - x)]
        if k in ('pair', 'pairc'):
            x, x0 = self.tv(t[2], vals, s), self.te(t[2], ent, st)
            y, y0 = self.tv(t[3], vals, s), self.te(t[3], ent, st)
            if None in (x, x0, y, y0):
                return None
            dx, dy = x - x0, y - y0
            if k == 'pairc':
                dy = dy + t[4]
            if t[1] == 'eq':
                return [('eq', dx - dy)]
            if t[1] == 'neg':
                return [('eq', dx + dy)]
            if t[1] == 'le':
                return [('ge', dy - dx)]
            return [('ge', dx - dy)]
        if k in ('bound', 'oth'):
            # t[2]: Lin over placeholder symbols + invariant symbols, >= 0
            m = {}
            for i in t[1]:
                x = self.tv(i, vals, s)
                if x is None:
                    return None
                m[sym(('ph', i), lo=None)] = x
            return [('ge', t[2].subst(m))]
        return None

    def assume_tmpl(self, t, vals, s, ent, st, lid):
        k = t[0]
        if k == 'stride':
            _, i, n, e = t[1]
            return s.add_eq(vals[i].off - e - vals[t[1]].scale(n))
        if k == 'tail':
            bf0 = self.getbuf(st, t[2])
            ver = s.bufs[t[2]].ver
            s.alias[ver] = s.alias.get(ver, ()) + ((bf0.ver, vals[t[1]].off),)
            return True
        if k == 'strz':
            v = vals[t[1]]
            sz = self.size_of(s, t[2])
            if sz is not None and not s.add_ge(sz - 1 - v):
                return False
            self.reg_zero(s, s.bufs[t[2]].ver, ZERO, v)
            return True
        if k in ('lo', 'hi', 'pair', 'pairc', 'bound', 'oth'):
            f = self.tmpl_form(t, vals, s, ent, st)
            if f is None:
                return False
            for c in f:
                if not (s.add_ge(c[1]) if c[0] == 'ge' else s.add_eq(c[1])):
                    return False
            return True
        if k == 'all':
            _, ids, ver, dirn, off, mask = t
            x, x0 = self.tv(ids[0], vals, s), self.te(ids[0], ent, st)
            if x is None or x0 is None:
                return False
            if dirn > 0:
                s.alls.append((ver, x0 + off, x + off, mask))
            else:
                s.alls.append((ver, x + off + 1, x0 + off + 1, mask))
            return True
        if k == 'same':
            return s.add_peq(vals[t[1]], ent.get(t[1]) if isinstance(t[1], int) else
                             (st.cells.get(t[1]) or self.cell_init(st, t[1])))
        if k == 'reach':
            v = vals[t[1]]
            if isinstance(v, Ptr) and isinstance(v.base, PSym) and v.base.key[:1] == ('loopv',):
                e = ent.get(t[1]) if isinstance(t[1], int) else (st.cells.get(t[1]) or self.cell_init(st, t[1]))
                s.preds[('reach', v.base, st.np(e))] = True
                return True
            return False
        if k == 'link':
            q = s.np(vals[t[1]])
            p = vals[t[3]]
            if not s.known_nonnull(Ptr(q.base)) or q.off != ZERO:
                return False
            ck = (q.base, t[2])
            if ck in s.cells:
                return s.add_veq(s.cells[ck], p)
            s.cells[ck] = s.nv(p)
            return True
        if k == 'deref':
            q = s.np(vals[t[1]])
            p = vals[t[2]]
            if q.base is NULLB or not q.off.isconst():
                return False
            if isinstance(q.base, PSym) and q.off == ZERO:
                return False
            ck = (q.base, q.off.c)
            if ck in s.cells:
                return s.add_veq(s.cells[ck], p)
            s.cells[ck] = s.nv(p)
            return True
        return False

    def holds(self, t, vals, s, ent, st, modc, lid):
        k = t[0]
        vals = dict(vals)
        if k == 'stride':
            return self.tv(t[1], vals, s) is not None
        if k == 'tail':
            x = self.tv(t[1], vals, s)
            bf0, bf = self.getbuf(st, t[2]), self.getbuf(s, t[2])
            if x is None or bf.text is not None:
                return False
            if not all(s.entails_ge(x - 1 - o) for o, _, _ in bf.log):
                return False
            if bf.ver == bf0.ver:
                return True
            return any(o == bf0.ver and s.entails_ge(x - lo) for o, lo in s.alias.get(bf.ver, ()))
        if k == 'strz':
            L = self.slen(s, t[2])
            sz = self.size_of(s, t[2])
            return L is not None and (sz is None or s.entails_ge(sz - 1 - L))
        if k in ('lo', 'hi', 'pair', 'pairc', 'bound', 'oth'):
            f = self.tmpl_form(t, vals, s, ent, st)
            if f is None:
                return False
            for c in f:
                if c[0] == 'ge' and not s.entails_ge(c[1]):
                    if not s.cnts:
                        return False
                    self.cnt_lemmas(s)
                    if not s.entails_ge(c[1]):
                        return False
                if c[0] == 'eq' and not s.entails_eq(c[1]):
                    return False
            return True
        if k == 'all':
            _, ids, ver, dirn, off, mask = t
            x, x0 = self.tv(ids[0], vals, s), self.te(ids[0], ent, st)
            if x is None or x0 is None:
                return False
            if dirn > 0:
                return self.prove_all(s, ver, x0 + off, x + off, mask)
            return self.prove_all(s, ver, x + off + 1, x0 + off + 1, mask)
        if k == 'same':
            v = vals.get(t[1], s.cells.get(t[1]) if not isinstance(t[1], int) else None)
            e = ent.get(t[1]) if isinstance(t[1], int) else (st.cells.get(t[1]) or self.cell_init(st, t[1]))
            if not isinstance(v, Ptr) or not isinstance(e, Ptr):
                return False
            return s.np(v) == s.np(e)
        if k == 'reach':
            v = vals.get(t[1], s.cells.get(t[1]) if not isinstance(t[1], int) else None)
            e = ent.get(t[1]) if isinstance(t[1], int) else (st.cells.get(t[1]) or self.cell_init(st, t[1]))
            if not isinstance(v, Ptr):
                return False
            v, e = s.np(v), s.np(e)
            if v == e:
                return True
            if s.preds.get(('reach', v.base, e)):
                return True
            # next field of a reachable node
            kk = v.base.key if isinstance(v.base, PSym) else ()
            if kk[:1] == ('init',) and v.off == ZERO and kk[2] == self.next_off():
                b = s.np(Ptr(kk[1]))
                return b == e or bool(s.preds.get(('reach', b.base, e)))
            return False
        if k == 'link':
            q = vals.get(t[1], s.cells.get(t[1]) if not isinstance(t[1], int) else None)
            p = vals.get(t[3], s.cells.get(t[3]) if not isinstance(t[3], int) else None)
            if not isinstance(q, Ptr) or not isinstance(p, Ptr):
                return False
            q, p = s.np(q), s.np(p)
            if q.off != ZERO:
                return False
            c = s.cells.get((q.base, t[2]))
            return c is not None and s.nv(c) == p
        if k == 'deref':
            q = vals.get(t[1], s.cells.get(t[1]) if not isinstance(t[1], int) else None)
            p = vals.get(t[2], s.cells.get(t[2]) if not isinstance(t[2], int) else None)
            if not isinstance(q, Ptr) or not isinstance(p, Ptr):
                return False
            q, p = s.np(q), s.np(p)
            if not q.off.isconst():
                return False
            c = s.cells.get((q.base, q.off.c))
            return c is not None and s.nv(c) == p
        return False

    def prove_all(self, s, ver, lo, hi, mask):
        """all bytes of version ver in [lo,hi) belong to mask?"""
        lo, hi = s.nl(lo), s.nl(hi)
        n = cst(s.nl(hi - lo))
        for _ in range(4 if n is None else max(4, min(n + 2, 80))):
            if s.entails_ge(lo - hi):
                return True
            hit = False
            for (v, a, b, m) in s.alls:
                if v == ver and m & ~mask == 0:
                    if s.entails_ge(lo - a) and s.entails_ge(b - hi):
                        return True
                    # extend from the left
                    if s.entails_ge(lo - a) and s.entails_ge(b - lo - 1):
                        lo = s.nl(b)
                        hit = True
                        break
                    if s.entails_ge(b - hi) and s.entails_ge(hi - 1 - a):
                        hi = s.nl(a)
                        hit = True
                        break
            if hit:
                continue
            for off, bs in s.bytes.get(ver, ()):
                if s.sets.get(bs, FULL) & ~mask == 0:
                    if s.entails_eq(off, lo):
                        lo = s.nl(lo + 1)
                        hit = True
                        break
                    if s.entails_eq(off, hi - 1):
                        hi = s.nl(hi - 1)
                        hit = True
                        break
            if not hit:
                return False
        return False

    def learn(self, fr, lid, phis, ent, st, hstates, iters, guards, modc):
        """candidate bounds from the branch conditions met in the body and byte classes from the bytes it read"""
        out = []
        # header symbols -> variable id
        back = {}
        for key, (hv, hs, cand) in hstates.items():
            vals = dict(hv)
            for ck in modc:
                if ck in hs.cells:
                    vals[ck] = hs.cells[ck]
            for cid, t in cand:
                if t[0] == 'stride':
                    back[sym(('loopv', lid, 'q', t[1][1]), lo=None)] = t[1]
            for i, v in vals.items():
                if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0:
                    back[v.t[0][0]] = i
                elif isinstance(v, Ptr) and len(v.off.t) == 1 and v.off.c == 0:
                    back[v.off.t[0][0]] = i

        def conv(e):
            ids = []
            m = {}
            for s in e.syms():
                if s in back:
                    ids.append(back[s])
                    m[s] = Lin.of(sym(('ph', back[s]), lo=None))
                elif self.mentions_loop_sym(s, lid):
                    return None
            if not ids:
                return None
            return tuple(sorted(set(ids), key=repr)), e.subst(m)

        def atoms(c):
            if c[0] in ('ge', 'eq', 'ne'):
                yield c[1]
            elif c[0] in ('and', 'or'):
                yield from atoms(c[1])
                yield from atoms(c[2])
        seen = set()
        for c in guards:
            for e in atoms(c):
                for s_key, (hv, hs, cand) in hstates.items():
                    for ee in {e, hs.nl(e)}:
                        r = conv(ee)
                        if r is None or r in seen:
                            continue
                        seen.add(r)
                        ids, f = r
                        for g in (f, f + 1, f - 1, -f, -f + 1, -f - 1):
                            out.append(('bound', ids, g))
        for c in guards:
            for x in self.byte_atoms(c):
                kk = x[1].key
                m = x[2]
                if bin(m).count('1') > 128:
                    m = FULL & ~m
                if m == 1 or bin(m).count('1') != 1:
                    continue
                if not (isinstance(kk, tuple) and kk[0] == 'byte'):
                    continue
                off = kk[2]
                for q, kf in off.t:
                    if q in back and kf == 1 and len(off.t) == 1:
                        i = back[q]
                        e0 = self.te(i, ent, st)
                        t = ('cntvar', i, kk[1], m, st.nl(e0 + off.c), off.c) if e0 is not None else None
                        if t and t not in out:
                            out.append(t)
        # string scans: offset never passes the terminator
        for key, (hv, hs, cand) in hstates.items():
            for i, v in list(hv.items()):
                if isinstance(v, Ptr) and not v.off.isconst():
                    e = st.np(ent[i]) if isinstance(ent[i], Ptr) else None
                    if e is not None and e.base is v.base:
                        z = self.zero_pos(st, e)
                        if z is not None:
                            ph = Lin.of(sym(('ph', i), lo=None))
                            out.append(('bound', (i,), z - ph))
        # byte classes
        masks = {}
        for key, k2, nv, rg2, s2 in iters:
            hv, hs, cand = hstates[key]
            for ver, lst in s2.bytes.items():
                for off, bs in lst:
                    o = s2.nl(off)
                    for s in off.syms():
                        if s in back and len(off.t) == 1 and off.t[0][1] == 1:
                            i = back[s]
                            m = s2.sets.get(bs, FULL)
                            kk = (i, ver, off.c)
                            masks.setdefault(kk, {})
                            masks[kk][id(s2)] = masks[kk].get(id(s2), FULL) & m
        nit = len(iters)
        for (i, ver, c), d in masks.items():
            if len(d) < nit:
                continue
            u = 0
            for m in d.values():
                u |= m
            if u != FULL and u:
                for dirn in (1, -1):
                    out.append(('all', (i,), ver, dirn, c, u))
        return out

    def byte_atoms(self, c):
        if c[0] == 'bs':
            yield c
        elif c[0] in ('and', 'or'):
            yield from self.byte_atoms(c[1])
            yield from self.byte_atoms(c[2])

    def mentions_loop_sym(self, s, lid):
        def rec(k):
            if isinstance(k, tuple):
                if len(k) > 1 and k[0] == 'loopv' and k[1] == lid:
                    return True
                return any(rec(x) for x in k)
            if isinstance(k, PSym):
                return rec(k.key)
            if isinstance(k, Lin):
                return any(rec(x.key) for x in k.syms())
            if hasattr(k, 'key') and not isinstance(k, PSym):
                return rec(k.key)
            return False
        return rec(s.key)
