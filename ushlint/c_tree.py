"""Checks on the directory tree, the command sets and the session object (C13-C15, C17-C20, C34)."""
import itertools

from .lin import Lin, sym, ZERO, ONE, C
from .dom import (State, Ptr, PSym, Region, BF, IDT, NULL, NULLB, cst, psym, FULL, mask_vals, mask_of)
from . import model, steps, entries
from .interp import Broken, Budget
from .steps import short, veq
from .c_mem import guarded, services, commands, processes, apis, outs, queue_of
from .c_fsm import truth, where, eqv, show, lit_of, status_text


# ------------------------------------------------------------------------------------------------ heap comparison
def off(M, f, cls="node"):
    return M.foff[(cls, f)]


def initial(o, b, k):
    """value of a cell before the entry"""
    v = o.E.st0.cells.get((b, k))
    if v is None:
        v = o.M.init_value(o.E.st0.copy(), b, k, None, None)
    return o.st.nv(v)


def final(o, p, f, cls="node"):
    """value of field f of the object at pointer p after the entry"""
    p = o.st.np(p)
    k = off(o.M, f, cls)
    v = o.st.cells.get((p.base, k))
    return initial(o, p.base, k) if v is None else o.st.nv(v)


def start(o, p, f, cls="node"):
    return initial(o, o.st.np(p).base, off(o.M, f, cls))


def heapdiff(o):
    """{(base, field): final value} of all node and session fields that may differ from their initial value"""
    M, st = o.M, o.st
    d = {}
    for (b, k) in st.written:
        if not hasattr(b, "cls") or b.cls not in ("self", "node"):
            continue
        v = st.cells.get((b, k))
        if v is None:
            continue
        v = st.nv(v)
        if veq(st, v, initial(o, b, k)):
            continue
        nm = M.fields[b.cls].get(k, ("+%s" % (k,),))[0]
        d[(b, nm)] = v
    return d


def nodediff(o):
    return {k: v for k, v in heapdiff(o).items() if k[0] is not o.M.SELF}


def selfdiff(o):
    return {k[1]: v for k, v in heapdiff(o).items() if k[0] is o.M.SELF}


def peq(o, a, b):
    """True / False / None"""
    a, b = o.st.np(a), o.st.np(b)
    if a == b:
        return True
    for x, y in ((a, b), (b, a)):
        if x.base is NULLB:
            if o.st.known_nonnull(y):
                return False
            return None
    if isinstance(a.base, Region) and isinstance(b.base, Region):
        return False
    if frozenset((a, b)) in o.st.pneq_norm():
        return False
    return None


def isnull(o, p):
    p = o.st.np(p)
    if p.base is NULLB:
        return True
    if o.st.known_nonnull(p):
        return False
    return None


def untangle(d):
    return ", ".join("%s of %s" % (k[1], "the session" if getattr(k[0], "cls", "") == "self" else k[0]) for k in d)


def expect_diff(c, R, E, o, want, what, good=None):
    """the fields that changed, and their values, are exactly `want`: {(ptr, field): value}"""
    st = o.st
    w = {}
    for (p, f), v in want.items():
        w[(st.np(p).base if isinstance(p, Ptr) else p, f)] = v
    d = heapdiff(o)
    extra = {k: v for k, v in d.items() if k not in w}
    ok = c.expect(R, not extra, where(E, o), "%s also modifies %s" % (what, untangle(extra)), o.trail(), good)
    for (b, f), v in w.items():
        cls = "self" if b is o.M.SELF else "node"
        got = final(o, Ptr(b), f, cls)
        ok = c.expect(R, veq(st, got, C(v) if isinstance(v, int) else v), where(E, o),
                      "%s leaves a wrong value in %s of %s" % (what, f, "the session" if b is o.M.SELF else b),
                      o.trail() + ["found %s" % (got,), "expected %s" % (v,)], good) and ok
    return ok


def found(o, kind, t=None, cwd=None):
    """truth of the lookup of path term t on this outcome: True / False / None (not looked up)"""
    t = t if t is not None else o.M.strterm(o.st, Ptr(psym(("param", "path"), "rostr", False)))
    return o.st.preds.get(("found", kind, (cwd, 0), t))


def found_ptr(o, kind, t=None, cwd=None):
    t = t if t is not None else o.M.strterm(o.st, Ptr(psym(("param", "path"), "rostr", False)))
    return Ptr(psym((kind, (cwd, 0), t), "file" if kind == "file" else "node", False, meta="tree"))


def path_is(o, p, lit):
    """the text at p equals the literal: True / False / None"""
    M, st = o.M, o.st
    M.quiet += 1
    try:
        cur = [(st.copy(), True)]
        base = st.np(p)
        for i, ch in enumerate(lit + b"\0"):
            nxt = []
            for s, okk in cur:
                if not okk:
                    nxt.append((s, okk))
                    continue
                for s2, v in M.read_byte(steps.FakeFrame(o.E), steps.FakeInst, s, base.base, s.nl(base.off + i)):
                    t, f = s2.split(M.byte_is(v, 1 << ch))
                    nxt += [(x, True) for x in t] + [(x, False) for x in f]
            cur = nxt
    finally:
        M.quiet -= 1
    r = {okk for _, okk in cur}
    return r.pop() if len(r) == 1 else None


def table(c, R, E, o, names, known, consistent, spec, got, what):
    """every completion of the known facts must lead to the status the outcome returns"""
    free = [n for n in names if known.get(n) is None]
    res = set()
    for vals in itertools.product((True, False), repeat=len(free)):
        f = dict(known)
        f.update(zip(free, vals))
        if not consistent(f):
            continue
        res.add(spec(f))
    if not res:
        return None
    if res == {got}:
        c.ok(R, "%s: %s" % (what, got))
        return got
    kn = ", ".join("%s=%s" % (n, v) for n, v in known.items() if v is not None)
    c.bad(R, where(E, o), "%s returns %s where %s is required (known: %s)" %
          (what, stname(o, got), "/".join(stname(o, x) for x in sorted(res, key=repr)), kn or "nothing"), o.trail())
    return None


def stname(o, v):
    for n, k in o.M.P["status"].items():
        if k == v and n != "_TOTAL_NUM":
            return n
    return str(v)


PATH = None


def pparam(name, cls="rostr"):
    return Ptr(psym(("param", name), cls, False))


# ------------------------------------------------------------------------------------------------ C13 mount
def c13(c):
    R1 = c.rule("mount status", "the returned status follows from: path taken, parent present, root path", 4)
    R2 = c.rule("mount effect", "a successful mount sets every link of the new node and its parent (or the root) and "
                "nothing else; a failed one modifies nothing", 4)
    E = guarded(c, "mount", lambda: entries.call("ush_node_mount"))
    if E is None:
        return
    c.use(E)
    S = E.M.P["status"]
    node, files = pparam("node", "node"), Ptr(psym(("param_files",), "file", False))
    seen = set()
    for o in E.outcomes:
        par = found_ptr(o, "parent")
        if peq(o, par, node) is True:
            continue        # the node is already part of the tree: excluded by the documented use
        known = {"taken": found(o, "node"), "parent": found(o, "parent"), "root path": path_is(o, pparam("path"), b"/")}

        def spec(f):
            if f["taken"]:
                return S["ERROR_NODE_ALREADY_MOUNTED"]
            if f["parent"]:
                return S["OK"]
            return S["OK"] if f["root path"] else S["ERROR_NODE_WITHOUT_PARENT"]
        r = table(c, R1, E, o, ("taken", "parent", "root path"), known,
                  lambda f: not (f["root path"] and f["parent"]), spec, cst(o.st.nv(o.ret)), "mount")
        if r is None:
            continue
        seen.add((r, known["parent"] is True))
        if r != S["OK"]:
            expect_diff(c, R2, E, o, {}, "a failed mount")
            continue
        n = Lin.of(sym(("param_files_size",), lo=0, hi=(1 << 31) - 1))
        want = {(node, "file_list"): files, (node, "file_list_size"): n, (node, "path"): pparam("path"),
                (node, "children"): NULL}
        if known["parent"] is True:
            want[(node, "next")] = start(o, par, "children")
            want[(node, "parent")] = par
            want[(par, "children")] = node
        else:
            want[(node, "next")] = NULL
            want[(node, "parent")] = NULL
            want[(E.M.SELF, "root")] = node
            want[(E.M.SELF, "current_node")] = node
        expect_diff(c, R2, E, o, want, "mount")
    for need in ((S["OK"], True), (S["OK"], False), (S["ERROR_NODE_ALREADY_MOUNTED"], False),
                 (S["ERROR_NODE_WITHOUT_PARENT"], False)):
        c.expect(R1, need in seen, "mount", "no path of the operation returns %s%s" %
                 (need[0], " below a parent" if need[1] else ""))


# ------------------------------------------------------------------------------------------------ explicit lists
def list_heap(E, head, k, names="listnode"):
    """an explicit list of k nodes starting in the link cell `head` = (base, offset)"""
    M, st = E.M, E.st0
    ns = [Ptr(psym((names, i), "node", False)) for i in range(k)]
    st.cells[head] = ns[0] if ns else NULL
    for i, p in enumerate(ns):
        st.cells[(p.base, off(M, "next"))] = ns[i + 1] if i + 1 < k else NULL
    for a in range(k):
        for b in range(a):
            st.add_pne(ns[a], ns[b])
    return ns


def apart(st, p, others):
    for q in others:
        st.add_pne(p, q)


# ------------------------------------------------------------------------------------------------ C14 unmount
def c14(c):
    R1 = c.rule("unmount status", "the returned status follows from: node found, parent found, node is the root, node has "
                "children", 4)
    R2 = c.rule("unmount effect", "a successful unmount redirects exactly the one link that pointed to the node to its "
                "successor and moves a current directory up to the parent; a failed one modifies nothing", 4)
    R3 = c.rule("every position", "in a child list every node can be unlinked wherever it stands, and the rest of the list "
                "stays intact", 6)
    E = guarded(c, "unmount", lambda: entries.call("ush_node_unmount"))
    if E is None:
        return
    c.use(E)
    M = E.M
    S = M.P["status"]
    seen = set()
    for o in E.outcomes:
        node, par = found_ptr(o, "node"), found_ptr(o, "parent")
        root, cwd = o.init("root"), o.init("current_node")
        fn, fp = found(o, "node"), found(o, "parent")
        if fn and (peq(o, node, par) and fp or peq(o, start(o, node, "next"), node)):
            continue        # cyclic: excluded
        known = {"node": fn, "parent": fp, "root": peq(o, node, root) if fn else None,
                 "children": (lambda x: None if x is None else not x)(isnull(o, start(o, node, "children"))) if fn else None}

        def spec(f):
            if not f["node"] or (not f["root"] and not f["parent"]):
                return S["ERROR_NODE_NOT_FOUND"]
            if f["children"]:
                return S["ERROR_NODE_WITH_CHILDS"]
            return S["OK"]
        got = cst(o.st.nv(o.ret))
        if got == S["ERROR_NODE_NOT_FOUND"] and fn and fp and exhausted(o, par):
            # only an inconsistent tree: the node is not in its parent's list (R3 shows that it is found otherwise)
            expect_diff(c, R2, E, o, {}, "a failed unmount")
            continue
        r = table(c, R1, E, o, ("node", "parent", "root", "children"), known,
                  lambda f: not (f["root"] and f["parent"]), spec, got, "unmount")
        if r is None:
            if fn and fp and known["root"]:
                continue        # the root has no parent: inconsistent
            continue
        seen.add((r, fp is True))
        if r != S["OK"]:
            expect_diff(c, R2, E, o, {}, "a failed unmount")
            continue
        if not fp:
            expect_diff(c, R2, E, o, {(M.SELF, "root"): NULL, (M.SELF, "current_node"): NULL}, "unmounting the root")
            continue
        unlink(c, R2, E, o, node, "unmount")
        was = peq(o, cwd, node)
        sd = selfdiff(o)
        if was is True:
            c.expect(R2, set(sd) == {"current_node"} and veq(o.st, sd["current_node"], o.st.np(par)), where(E, o),
                     "unmounting the current directory does not move to its parent", o.trail(), "current directory")
        else:
            c.expect(R2, not sd and was is False, where(E, o), "unmounting another directory changes the session (%s)" %
                     ", ".join(sd), o.trail(), "other directory")
    for need in ((S["OK"], True), (S["OK"], False), (S["ERROR_NODE_NOT_FOUND"], True), (S["ERROR_NODE_WITH_CHILDS"], True)):
        c.expect(R1, need in seen or (need[0], False) in seen and need[0] != S["OK"], "unmount",
                 "no path of the operation returns %s" % stname(E.outcomes[0], need[0]))
    # explicit child lists
    for k in (1, 2, 3, 4):
        for i in range(k):
            def mk():
                return positions("ush_node_unmount", k, i)
            X = guarded(c, "unmount position %d of %d" % (i + 1, k), mk)
            if X is None:
                continue
            c.use(X)
            ns = X.nodes
            for o in X.outcomes:
                c.expect(R3, cst(o.st.nv(o.ret)) == S["OK"], where(X, o),
                         "a mounted leaf at position %d of %d is not unmounted" % (i + 1, k), o.trail())
                nxt = ns[i + 1] if i + 1 < k else NULL
                want = {(X.parent, "children"): nxt} if i == 0 else {(ns[i - 1], "next"): nxt}
                if peq(o, X.init("current_node"), ns[i]) is True:
                    want[(X.M.SELF, "current_node")] = X.parent
                # links of the removed node itself no longer matter
                d = {kk: v for kk, v in heapdiff(o).items() if kk[0] is not ns[i].base}
                w = {(o.st.np(p).base if isinstance(p, Ptr) else p, f): v for (p, f), v in want.items()}
                ok = set(d) <= set(w) and all(veq(o.st, final(o, Ptr(b), f, "self" if b is X.M.SELF else "node"),
                                                  o.st.nv(v)) for (b, f), v in w.items())
                c.expect(R3, ok, where(X, o), "unlinking position %d of %d damages the tree (%s)" %
                         (i + 1, k, untangle(d)), o.trail(), "position %d of %d" % (i + 1, k))


def exhausted(o, par):
    """the walk of the parent's child list reached its end"""
    h = start(o, par, "children")
    if isnull(o, h):
        return True
    for k, v in o.st.preds.items():
        if k[0] == 'reach' and v:
            p = o.st.np(Ptr(k[1])) if isinstance(k[1], PSym) else None
            if p is not None and p.base is NULLB:
                return True
    for (b, off_), v in o.st.cells.items():
        if getattr(b, "cls", "") == "node" and off_ == o.M.foff[("node", "next")] and o.st.nv(v) == NULL and \
                (b, off_) not in o.st.written:
            return True
    return False


def unlink(c, R, E, o, node, what, head=None):
    """exactly one link outside of the node changed: it pointed to the node and now points to the node's successor"""
    d = {k: v for k, v in heapdiff(o).items() if k[0] is not o.st.np(node).base and
         (k[0] is not o.M.SELF or k[1] == head)}
    ok = len(d) == 1
    if ok:
        (b, f), v = next(iter(d.items()))
        ok = f in ("next", "children", head) and veq(o.st, v, start(o, node, "next"))
        old = preimage(o, b, off(o.M, f, "self" if b is o.M.SELF else "node"))
        ok = ok and old is not None and o.st.np(old) == o.st.np(node)
    elif not d:
        # a link that already had the new value: the successor of the node is the node's own position (empty case)
        ok = False
    c.expect(R, ok, where(E, o), "%s does not redirect exactly the link to the node to its successor (%s)" %
             (what, untangle(d) or "nothing changes"), o.trail(), "unlink")


def preimage(o, b, k):
    """what the cell held before its last overwrite"""
    for w in reversed(o.st.writes):
        if w[1] == k and o.st.np(Ptr(w[0])).base is b and len(w) > 6 and w[6] is not None:
            return o.st.nv(w[6]) if isinstance(w[6], Ptr) else None
    v = initial(o, b, k)
    return v if isinstance(v, Ptr) else None


def positions(fn, k, i):
    """unmount / remove with an explicit list of k nodes, the i-th one being the target"""
    def f():
        E = steps.Entry("%s at position %d of %d" % (fn, (i if i is not None else -1) + 1, k))
        E.kind, E.api = "api", fn
        M = E.M
        M.unroll = 12
        st = E.st0
        if fn == "ush_node_unmount":
            t = M.strterm(st, pparam("path"))
            node = Ptr(psym(("node", (None, 0), t), "node", False, meta="tree"))
            par = Ptr(psym(("parent", (None, 0), t), "node", False, meta="tree"))
            ns = list_heap(E, (par.base, off(M, "children")), k)
            st.add_peq(node, ns[i])
            ns[i] = st.np(ns[i])
            st.preds[("found", "node", (None, 0), t)] = True
            st.preds[("found", "parent", (None, 0), t)] = True
            for p in ns:
                st.add_pne(p, par)
                st.add_pne(p, E.init("root"))
            st.cells[(st.np(node).base, off(M, "children"))] = NULL
            fixcells(st)
            ns = [st.np(p) for p in ns]
            E.parent = par
            E.nodes = ns
            E.run(fn, [Ptr(M.SELF), pparam("path")])
        else:
            head = (M.SELF, off(M, "commands", "self"))
            ns = list_heap(E, head, k)
            node = pparam("node", "node")
            if i is not None:
                st.add_peq(node, ns[i])
                fixcells(st)
            else:
                for p in ns:
                    st.add_pne(node, p)
            E.nodes = [st.np(p) for p in ns]
            E.run(fn, [Ptr(M.SELF), node])
        return E
    return entries.memo(("positions", fn, k, i), f)


def fixcells(st):
    """re-key cells after pointer identifications"""
    for (b, k) in list(st.cells):
        if isinstance(b, PSym):
            q = st.np(Ptr(b))
            if q.base is not b:
                st.cells[(q.base, k)] = st.cells.pop((b, k))
    for kk in list(st.cells):
        v = st.cells[kk]
        if isinstance(v, Ptr):
            st.cells[kk] = st.np(v)


# ------------------------------------------------------------------------------------------------ C15 change directory
def abs_term(o, cwd, t):
    return (('abs', (cwd, 0), t), ZERO)


def c15(c):
    R1 = c.rule("status", "the call succeeds exactly when the non-empty path, resolved against the current directory, is "
                "mounted", 2)
    R2 = c.rule("effect", "success makes exactly the found directory current; failure changes nothing", 2)
    R3 = c.rule("command", "the command passes its argument to that operation and reports its failure; wrong usage is "
                "reported and changes nothing", 4)
    E = guarded(c, "set current dir", lambda: entries.call("ush_node_set_current_dir"))
    if E is None:
        return
    c.use(E)
    S = E.M.P["status"]
    seen = set()
    for o in E.outcomes:
        r = setdir(c, R1, R2, E, o, pparam("path"))
        seen.add(r)
    for need in (S["OK"], S["ERROR_NODE_NOT_FOUND"]):
        c.expect(R1, need in seen, "set current directory", "no path returns %s" % stname(E.outcomes[0], need))
    for E in commands(c, names=("cd",)):
        for o in E.outcomes:
            usage = E.argc != 2
            if usage:
                c.expect(R3, not heapdiff_tree(o) and status_text_is(o, "ERROR_COMMAND_WRONG_ARGUMENTS"), where(E, o),
                         "wrong usage is not reported", o.trail(), "usage")
                continue
            arg = arg_ptr(E, o, 1)
            got = setdir_facts(o, arg)
            if got is None:
                c.bad(R3, where(E, o), "the outcome does not follow from resolving the argument", o.trail())
                continue
            okk, ptr = got
            if okk:
                d = heapdiff_tree(o)
                c.expect(R3, set(d) <= {(E.M.SELF, "current_node")} and
                         veq(o.st, final(o, Ptr(E.M.SELF), "current_node", "self"), o.st.np(ptr)), where(E, o),
                         "the found directory does not become current", o.trail(), "cd to a directory")
                c.expect(R3, not o.queued() and o.same("state"), where(E, o), "a successful change prints something",
                         o.trail(), "cd silent")
            else:
                c.expect(R3, not heapdiff_tree(o) and status_text_is(o, "ERROR_NODE_NOT_FOUND"), where(E, o),
                         "a directory that does not exist is not reported, or changes the session", o.trail(),
                         "cd to nowhere")


def heapdiff_tree(o):
    """changes of the tree and of the session's links into it"""
    d = heapdiff(o)
    return {k: v for k, v in d.items() if k[0] is not o.M.SELF or k[1] in ("root", "current_node", "commands") or
            k[1].startswith("buildin_commands.")}


def status_text_is(o, name):
    """the outcome queues exactly the message of this status"""
    if not o.queued():
        return False
    t = o.queue()[0]
    M = o.M
    w = status_text(M.P, M.P["status"][name])
    return lit_of(t) == w and o.state_name("write_next_state") == "RESET"


def arg_ptr(E, o, i):
    """the pointer a command received as its i-th argument"""
    return Ptr(psym(("arg", C(i)), "arg", False))


def setdir_facts(o, arg):
    """-> (success?, directory) | None when the outcome leaves it open"""
    t = o.M.strterm(o.st, arg)
    cwd = o.init("current_node")
    a = (('abs', (cwd, 0), t), ZERO)
    empty = path_is(o, arg, b"")
    if empty is True:
        return False, None
    f = found(o, "node", a)
    if f is False:
        return False, None
    if f is True and empty is False:
        return True, found_ptr(o, "node", a)
    if f is True and empty is None:
        return None
    return None


def setdir(c, R1, R2, E, o, arg):
    S = E.M.P["status"]
    got = setdir_facts(o, arg)
    r = cst(o.st.nv(o.ret))
    if got is None:
        c.bad(R1, where(E, o), "the result %s does not follow from resolving the path" % stname(o, r), o.trail())
        return r
    okk, ptr = got
    c.expect(R1, r == (S["OK"] if okk else S["ERROR_NODE_NOT_FOUND"]), where(E, o), "wrong status %s" % stname(o, r),
             o.trail(), "status")
    expect_diff(c, R2, E, o, {(E.M.SELF, "current_node"): ptr} if okk else {}, "changing the directory")
    return r


# ------------------------------------------------------------------------------------------------ C18 command sets
def c18(c):
    R1 = c.rule("add", "adding makes the set the first one, with its files, in front of the earlier sets, and changes nothing "
                "else", 1)
    R2 = c.rule("remove", "removing redirects exactly the one link to the set to its successor; an unknown set is an error and "
                "changes nothing", 3)
    R3 = c.rule("every position", "a set is removed wherever it stands, an unknown one never", 6)
    R4 = c.rule("built-in set", "initialisation makes the built-in commands available with every entry of their table", 1)
    E = guarded(c, "add", lambda: entries.call("ush_commands_add"))
    if E is not None:
        c.use(E)
        S = E.M.P["status"]
        node, files = pparam("node", "node"), Ptr(psym(("param_files",), "file", False))
        n = Lin.of(sym(("param_files_size",), lo=0, hi=(1 << 31) - 1))
        for o in E.outcomes:
            c.expect(R1, cst(o.st.nv(o.ret)) == S["OK"], where(E, o), "adding a command set fails", o.trail())
            want = {(node, "file_list"): files, (node, "file_list_size"): n, (node, "path"): NULL,
                    (node, "next"): o.init("commands"), (E.M.SELF, "commands"): node}
            # the tree links of a command set are never used; setting them is harmless
            d = heapdiff(o)
            for f in ("parent", "children"):
                if (node.base, f) in d:
                    want[(node, f)] = d[(node.base, f)]
            expect_diff(c, R1, E, o, want, "adding a command set", "add")
    E = guarded(c, "remove", lambda: entries.call("ush_commands_remove"))
    if E is not None:
        c.use(E)
        S = E.M.P["status"]
        node = pparam("node", "node")
        for o in E.outcomes:
            if peq(o, start(o, node, "next"), node):
                continue
            r = cst(o.st.nv(o.ret))
            if r == S["OK"]:
                unlink(c, R2, E, o, node, "removing a command set", "commands")
                bad = set(selfdiff(o)) - {"commands"}
                c.expect(R2, not bad, where(E, o), "removing a command set changes the session (%s)" %
                         ", ".join(sorted(bad)), o.trail(), "removal")
            else:
                c.expect(R2, r == S["ERROR_NODE_NOT_FOUND"], where(E, o), "unexpected status %s" % stname(o, r), o.trail())
                expect_diff(c, R2, E, o, {}, "a failed removal", "unknown set")
    for k in (0, 1, 2, 3, 4):
        for i in list(range(k)) + [None]:
            X = guarded(c, "remove %s of %d" % (i, k), lambda: positions("ush_commands_remove", k, i))
            if X is None:
                continue
            c.use(X)
            S = X.M.P["status"]
            ns = X.nodes
            for o in X.outcomes:
                r = cst(o.st.nv(o.ret))
                if i is None:
                    c.expect(R3, r == S["ERROR_NODE_NOT_FOUND"] and not heapdiff(o), where(X, o),
                             "removing an unknown set of %d succeeds or changes something" % k, o.trail(), "unknown")
                    continue
                nxt = ns[i + 1] if i + 1 < k else NULL
                d = {kk: v for kk, v in heapdiff(o).items() if kk[0] is not ns[i].base}
                key = (X.M.SELF, "commands") if i == 0 else (ns[i - 1].base, "next")
                ok = r == S["OK"] and set(d) == {key} and veq(o.st, d[key], o.st.np(nxt))
                c.expect(R3, ok, where(X, o), "removing set %d of %d fails or damages the others (%s)" %
                         (i + 1, k, untangle(d)), o.trail(), "set %d of %d" % (i + 1, k))
    builtin_set(c, R4)


def builtin_set(c, R):
    E = guarded(c, "init", lambda: entries.call("ush_init"))
    if E is None:
        return
    c.use(E)
    M = E.M
    n = len(entries.builtin())
    for o in E.outcomes:
        bc = Ptr(M.SELF, C(M.bc))
        cmds = final(o, Ptr(M.SELF), "commands", "self")
        ok = isinstance(cmds, Ptr) and o.st.np(cmds) == bc
        c.expect(R, ok, where(E, o), "a new session does not start with exactly the built-in command set", o.trail(), "set")
        if not ok:
            continue

        def f(name):
            return o.st.nv(o.st.cells.get((M.SELF, M.bc + off(M, name)), NULL))
        fl = f("file_list")
        c.expect(R, isinstance(fl, Ptr) and str(getattr(o.st.np(fl).base, "name", "")).endswith(entries.TABLE) and
                 o.st.np(fl).off == ZERO and veq(o.st, f("file_list_size"), C(n)), where(E, o),
                 "the built-in set does not cover the whole table of %d commands" % n, o.trail(), "table")
        c.expect(R, f("next") == NULL, where(E, o), "the built-in set is followed by something else", o.trail(), "end")


# ------------------------------------------------------------------------------------------------ C17 lookup by path
def streq(o, ta, tb):
    """decided equality of two strings on this outcome: True / False / None"""
    if ta == tb:
        return True
    if ta[0] == 'lit' and tb[0] == 'lit':
        return False
    x, y = sorted([ta, tb], key=repr)
    e = Lin.of(sym(("strcmp", x, y), lo=-255, hi=255, w=32))
    if o.st.entails_eq(e):
        return True
    if not o.st.copy().add_eq(e):
        return False
    return None


SHAPES = ((), ((),), ((), ()), ((), (), ()), (((),),), (((), ()),), ((((),),),), (((), ()), ((),)), (((),), ((), ())),
          ((((), ()),), ()), ((((), ()), ()),))


def tree_heap(E, shape, prefix=("tn",)):
    """children list of a node with the given explicit shape -> [(ptr, children)]"""
    M, st = E.M, E.st0
    ns = []
    for i, ch in enumerate(shape):
        ns.append((Ptr(psym(prefix + (i,), "node", False)), tree_heap(E, ch, prefix + (i,))))
    for i, (p, ch) in enumerate(ns):
        st.cells[(p.base, off(M, "next"))] = ns[i + 1][0] if i + 1 < len(ns) else NULL
        st.cells[(p.base, off(M, "children"))] = ch[0][0] if ch else NULL
        t = Ptr(psym(("init", p.base, off(M, "path")), "rostr", True))
        st.add_pne(t, NULL)
    return ns


def flat(ns):
    out = []
    for p, ch in ns:
        out.append(p)
        out += flat(ch)
    return out


def lookup_entry(shape, levels):
    def f():
        E = steps.Entry("lookup of a path of %d components in tree %s" % (levels, shape))
        E.kind, E.api = "api", "ush_node_get_by_path"
        M, st = E.M, E.st0
        M.unroll = 14
        if shape is None:
            st.add_peq(E.init("root"), NULL)
            E.set("root", NULL)
            E.tree = None
        else:
            root = E.init("root")
            st.add_pne(root, NULL)
            E.tree = tree_heap(E, shape)
            st.cells[(st.np(root).base, off(M, "children"))] = E.tree[0][0] if E.tree else NULL
            al = flat(E.tree)
            for a in range(len(al)):
                st.add_pne(al[a], root)
                for b in range(a):
                    st.add_pne(al[a], al[b])
        t = M.strterm(st, pparam("path"))
        E.term, E.levels = t, levels
        E.run("ush_node_get_by_path", [Ptr(M.SELF), pparam("path")])
        # the number of components is the scope of this entry
        keep = []
        LV = Lin.of(sym(("levels", t), lo=0, hi=(1 << 31) - 1))
        for o in E.outcomes:
            z = [e for e in o.ev('levels') if e[1] == t]
            if z and z[-1][2] == 0:
                if levels == 0:
                    keep.append(o)
                continue
            s = o.st.copy()
            if levels and s.add_eq(LV - levels):
                o.st = s
                keep.append(o)
        E.outcomes = keep
        return E
    return entries.memo(("lookup", shape, levels), f)


def c17(c):
    R1 = c.rule("component walk", "for every tree shape and number of components the result is the root, the child mounted "
                "under exactly each prefix in turn, or nothing", 30)
    R2 = c.rule("parent", "the parent of a path is looked up under exactly its parent path; a path without parent has none", 3)
    R3 = c.rule("resolution", "a path is resolved as is when absolute, else behind the current directory, one trailing "
                "separator dropped, then collapsed; a too long one resolves to a name no directory can have", 6)
    R4 = c.rule("pure", "looking up modifies nothing", 30)
    scopes = [(s, l) for s in SHAPES for l in (1, 2, 3) if l <= depth(s) + 1] + [(None, 0), (None, 1), ((), 0), (((),), 0)]
    for shape, lv in scopes:
        E = guarded(c, "lookup %s/%d" % (shape, lv), lambda: lookup_entry(shape, lv))
        if E is None:
            continue
        c.use(E)
        if not E.outcomes:
            c.bad(R1, E.name, "no result for a path of %d components" % lv)
        rets = set()
        for o in E.outcomes:
            c.expect(R4, not heapdiff(o), where(E, o), "the lookup modifies %s" % untangle(heapdiff(o)), o.trail())
            r = o.st.np(o.ret) if isinstance(o.ret, Ptr) else None
            if lv == 0:
                c.expect(R1, r is not None and r == o.st.np(o.init("root")), where(E, o),
                         "the root path does not yield the root", o.trail(), "root path")
                continue
            if shape is None:
                c.expect(R1, r == NULL, where(E, o), "something is found although nothing is mounted", o.trail(), "no root")
                continue
            L = E.M.ro_len(o.st.copy(), psym(("param", "path"), "rostr", False))
            if o.st.entails_ge(L - E.M.PML):
                c.expect(R1, r == NULL, where(E, o), "a path beyond the maximum length is found", o.trail(), "too long")
                continue
            ref = reference(o, E.tree, E.term, lv)
            if isinstance(ref, str):
                c.bad(R1, where(E, o), "the result does not follow from comparing each component: %s" % ref, o.trail())
                continue
            rets.add(repr(ref))
            c.expect(R1, r is not None and r == (ref if ref is NULL else o.st.np(ref)), where(E, o),
                     "the lookup yields %s instead of %s" % (r, ref), o.trail(), "%s in %s" % (ref, shape))
        want = 1 + len(at_depth(E.tree, lv)) if E.tree is not None and lv else None
        if want is not None:
            c.expect(R1, len(rets) == want, E.name, "of %d possible results only %d occur" % (want, len(rets)), sorted(rets))
    parent_rule(c, R2, R4)
    abs_rule(c, R3, R4)


def depth(s):
    return 0 if not s else 1 + max(depth(x) for x in s)


def at_depth(ns, d):
    if d == 1:
        return [p for p, _ in ns]
    return sum((at_depth(ch, d - 1) for _, ch in ns), [])


def reference(o, ns, t, lv):
    """the node a path with lv components leads to, by the equalities decided on this outcome"""
    for i in range(1, lv + 1):
        hit = None
        for p, ch in ns:
            pt = o.M.strterm(o.st, start(o, p, "path"))
            e = streq(o, pt, (('level', C(i), t), ZERO))
            if i == lv and e is None:
                e = streq(o, pt, t)
            if e is None:
                return "component %d is not compared with %s" % (i, p)
            if e:
                hit = (p, ch)
                break
        if hit is None:
            return NULL
        if i == lv:
            return hit[0]
        ns = hit[1]
    return NULL


def parent_rule(c, R, R4):
    E = guarded(c, "parent", lambda: entries.call("ush_node_get_parent_by_path"))
    if E is None:
        return
    c.use(E)
    t = E.M.strterm(E.st0, pparam("path"))
    u = (('upper', t), ZERO)
    seen = set()
    for o in E.outcomes:
        c.expect(R4, not heapdiff(o), where(E, o), "the lookup modifies %s" % untangle(heapdiff(o)), o.trail())
        r = o.st.np(o.ret) if isinstance(o.ret, Ptr) else None
        f = found(o, "node", u)
        n = Lin.of(sym(("len", ('upper', t), ZERO), lo=0, hi=(1 << 31) - 1))
        if f is True:
            seen.add("found")
            c.expect(R, r == o.st.np(found_ptr(o, "node", u)), where(E, o), "the found parent is not returned", o.trail(),
                     "found")
        elif f is False:
            seen.add("none")
            c.expect(R, r == NULL, where(E, o), "a parent is returned that was not found", o.trail(), "not found")
        else:
            seen.add("root")
            # without a lookup only for a path whose parent is empty
            M = o.M
            empty = o.st.entails_eq(n) or first_is_nul(o, ('upper', t))
            c.expect(R, r == NULL and empty, where(E, o), "the parent is not looked up under the parent path", o.trail(),
                     "no parent")
        others = [e for e in o.ev('lookup') if e[2] != u]
        c.expect(R, not others, where(E, o), "another path than the parent path is looked up", o.trail(), "lookup path")
    c.expect(R, {"found", "none", "root"} <= seen, "parent lookup", "only the cases %s occur" % sorted(seen))


def first_is_nul(o, t):
    s = o.st.copy()
    n = Lin.of(sym(("len", t, ZERO), lo=0, hi=(1 << 31) - 1))
    b = o.M.byte_sym(s, t, ZERO)
    return s.sets.get(b, FULL) == 1 or not s.add_ge(n - 1)


def abs_rule(c, R, R4):
    E = guarded(c, "absolute path", lambda: entries.call("ush_node_get_absolute_path"))
    if E is None:
        return
    c.use(E)
    M = E.M
    path = pparam("path")
    cwd = E.init("current_node")
    cpath = Ptr(psym(("init", cwd.base, off(M, "path")), "rostr", True))
    Lp = M.ro_len(E.st0, path.base)
    seen = set()
    for o in E.outcomes:
        st = o.st
        c.expect(R4, not heapdiff(o), where(E, o), "the resolution modifies %s" % untangle(heapdiff(o)), o.trail())
        fr = steps.FakeFrame(E)
        M.quiet += 1
        try:
            out = M.text_of(fr, steps.FakeInst, st.copy(), Ptr(E.out))
        finally:
            M.quiet -= 1
        out = out[0][1] if len(out) == 1 else None
        isabs = first_slash(o, path)
        Lc = M.ro_len(st, cpath.base)
        col = o.ev('collapse')
        if not col:
            tl = Lp + (Lc + 1 if isabs is False else ZERO)
            lit = lit_of(out)
            okk = lit is not None and lit and not lit.startswith(b"/") and isabs is not None and \
                st.entails_ge(tl - M.PML)
            seen.add("long")
            c.expect(R, okk, where(E, o), "a path that would fit does not resolve, or the result could be a directory",
                     o.trail() + [show(out)], "too long path")
            continue
        if len(col) != 1 or col[0][2] is None or out is None or len(out) != 1 or \
                out[0][0] != 'str' or out[0][1] != (col[0][1], ZERO):
            c.bad(R, where(E, o), "the result is not the collapsed form of one path (%s)" % show(out), o.trail())
            continue
        pieces, cut = col[0][2]
        root = path_is(o, cpath, b"/")
        want = []
        if isabs is None:
            c.bad(R, where(E, o), "absolute and relative paths are not told apart", o.trail())
            continue
        total = Lp
        if not isabs:
            if root is None:
                c.bad(R, where(E, o), "the current directory's path is not told apart from the root", o.trail())
                continue
            want.append(('str', M.strterm(st, cpath)))
            total = total + Lc
            if not root:
                want.append(b"/")
                total = total + 1
        want.append(('str', M.strterm(st, path)))
        seen.add("abs" if isabs else "root" if root else "rel")
        okk = text_matches(o, pieces, want, path, Lp)
        c.expect(R, okk, where(E, o), "the resolved path is built from %s" % show(pieces), o.trail(), "composition")
        lb = last_byte(o, path, Lp, isabs, root)
        slash = 1 << ord('/')
        if cut is not None:
            c.expect(R, st.entails_eq(cut, total - 1) and lb & ~slash == 0 and st.entails_ge(total - 2), where(E, o),
                     "something else than one trailing separator is dropped", o.trail(), "trailing separator dropped")
        else:
            s2 = st.copy()
            if s2.add_ge(total - 2):
                o2 = steps.Outcome(E, s2, None)
                lb = last_byte(o2, path, Lp, isabs, root)
                c.expect(R, not lb & slash, where(E, o), "a trailing separator is kept", o.trail(), "nothing to drop")
    c.expect(R, {"abs", "root", "rel", "long"} <= seen, "path resolution", "only the cases %s occur" % sorted(seen))


def text_matches(o, pieces, want, path, Lp):
    from .c_fsm import same_text
    if same_text(o, pieces, want):
        return True
    return o.st.entails_eq(Lp) and same_text(o, pieces, want[:-1])


def first_slash(o, p):
    m = byte_mask(o, p, ZERO)
    s = 1 << ord('/')
    return True if m == s else False if not m & s else None


def byte_mask(o, p, at):
    M = o.M
    M.quiet += 1
    try:
        q = o.st.np(p)
        r = M.read_byte(steps.FakeFrame(o.E), steps.FakeInst, o.st.copy(), q.base, o.st.nl(q.off + at))
    finally:
        M.quiet -= 1
    m = 0
    for s, v in r:
        v = s.nv(v)
        k = cst(v)
        if k is not None:
            m |= 1 << (k & 255)
        elif isinstance(v, BF):
            for i in mask_vals(s.sets.get(v.s, FULL)):
                m |= 1 << (v.tbl[i] & 255)
        else:
            m = FULL
    return m


def last_byte(o, path, Lp, isabs, root):
    """possible last bytes of the composed path"""
    st = o.st
    m = 0
    a = st.copy()
    if a.add_ge(Lp - 1):
        m |= byte_mask(steps.Outcome(o.E, a, None), path, Lp - 1)
    b = st.copy()
    if b.add_eq(Lp) and not isabs:
        m |= 1 << ord('/')
    return m


# ------------------------------------------------------------------------------------------------ C34 lookup by name
def name_entry(sets, nodes, here=False):
    """here: the current directory is given too, away from the resolved one, with one file"""
    def f():
        E = steps.Entry("lookup of a name in command sets of %s files and directories of %s files" % (sets, nodes))
        E.kind, E.api = "api", "ush_file_find_by_name"
        M, st = E.M, E.st0
        M.unroll = 14
        E.sets = list_heap(E, (M.SELF, off(M, "commands", "self")), len(sets), "cmdset")
        for p, n in zip(E.sets, sets):
            st.cells[(p.base, off(M, "file_list_size"))] = C(n)
        t = M.strterm(st, pparam("name"))
        E.abs = (('abs', (E.init("current_node"), 0), t), ZERO)
        par = Ptr(psym(("parent", (None, 0), E.abs), "node", False, meta="tree"))
        E.nodes = []
        if nodes:
            E.nodes = [par] + [Ptr(psym(("sib", i), "node", False)) for i in range(1, len(nodes))]
            st.preds[("found", "parent", (None, 0), E.abs)] = True
        else:
            st.preds[("found", "parent", (None, 0), E.abs)] = False
        for i, p in enumerate(E.nodes):
            st.cells[(p.base, off(M, "next"))] = E.nodes[i + 1] if i + 1 < len(nodes) else NULL
            st.cells[(p.base, off(M, "file_list_size"))] = C(nodes[i])
            st.add_pne(Ptr(psym(("init", p.base, off(M, "path")), "rostr", True)), NULL)
        al = E.sets + E.nodes
        if here:
            cur = E.init("current_node")
            st.cells[(cur.base, off(M, "next"))] = NULL
            st.cells[(cur.base, off(M, "file_list_size"))] = C(1)
            al = al + [cur]
        for a in range(len(al)):
            for b in range(a):
                st.add_pne(al[a], al[b])
        E.sizes, E.nsizes = sets, nodes
        E.run("ush_file_find_by_name", [Ptr(M.SELF), pparam("name")])
        return E
    return entries.memo(("byname", sets, nodes, here), f)


def file_at(o, node, i):
    fl = start(o, node, "file_list")
    return o.st.np(Ptr(fl.base, fl.off + i * o.M.fsize))


def file_name(o, fp):
    return o.M.strterm(o.st, o.M.init_value(o.st, fp.base, fp.off.c + o.M.foff[("file", "name")], 64, True))


def c34(c):
    R1 = c.rule("search", "the result is the first entry of the command sets whose name equals the requested one, else an entry "
                "of the tree whose full path equals the resolved one, else nothing", 20)
    R2 = c.rule("pure", "looking up modifies nothing", 20)
    scopes = [((), ()), ((1,), ()), ((2,), ()), ((3,), ()), ((1, 1), ()), ((2, 2), ()), ((0, 1), ()), ((1, 0, 1), ()),
              ((), (1,)), ((), (2,)), ((), (3,)), ((1,), (1,)), ((), (0, 1)), ((), (1, 1)), ((2,), (2,)), ((), (0,))]
    for sets, nodes, here in [((), (1,), True), ((1,), (), True)] + [x + (False,) for x in scopes]:
        if here is False and any(r["bad"] for r in c.rules.values()):
            break                   # what is wrong is known; other searches may not end within the bounds
        E = guarded(c, "lookup by name %s %s" % (sets, nodes), lambda: name_entry(sets, nodes, here))
        if E is None:
            continue
        c.use(E)
        t = E.M.strterm(E.st0, pparam("name"))
        got = set()
        for o in E.outcomes:
            c.expect(R2, not heapdiff(o), where(E, o), "the lookup modifies %s" % untangle(heapdiff(o)), o.trail())
            r = o.st.np(o.ret) if isinstance(o.ret, Ptr) else None
            got.add(repr(r))
            v = by_name(o, E, t, r)
            c.expect(R1, v is None, where(E, o), v or "", o.trail(), "%s: %s" % (E.name, "nothing" if r == NULL else "entry"))
        n = sum(sets) + (nodes[0] if nodes else 0)
        c.expect(R1, len(got) >= 1 + n, E.name, "of %d entries only %d can be found" % (n, len(got) - 1), sorted(got))


def by_name(o, E, t, r):
    """None when the result r is right, else what is wrong"""
    if r is None:
        return "no pointer is returned"
    for p, n in zip(E.sets, E.sizes):
        for i in range(n):
            fp = file_at(o, p, i)
            e = streq(o, file_name(o, fp), t)
            if e is None:
                return "entry %d of a command set is skipped" % i
            if e:
                return None if r == fp else "the first command with that name is not returned"
    if not E.nodes:
        return None if r == NULL else "an entry is returned that does not have the name"
    first = True
    for p, n in zip(E.nodes, E.nsizes):
        for i in range(n):
            fp = file_at(o, p, i)
            e = path_eq(o, p, fp, E.abs)
            if e is None and first:
                L = o.M.ro_len(o.st.copy(), start(o, p, "path").base)
                nm = o.M.init_value(o.st, fp.base, fp.off.c + o.M.foff[("file", "name")], 64, True)
                N = o.M.ro_len(o.st.copy(), o.st.np(nm).base)
                if o.st.entails_ge(L + N + 2 - o.M.PML - 1):
                    continue        # its path cannot be represented: it cannot be meant
                if r == fp:
                    return "a file is returned whose path was not compared"
                if r != NULL and earlier(o, E, r, p, i):
                    return None
                return "file %d of the directory is skipped" % i
            if e is True:
                return None if r == fp else "the file with that path is not returned"
        first = False
    return None if r == NULL else "an entry is returned that does not have the name"


def earlier(o, E, r, p, i):
    return False


def path_eq(o, node, fp, t):
    """decided equality of directory path + separator + file name with the text t"""
    M, st = o.M, o.st
    pt = M.strterm(st, start(o, node, "path"))
    nt = file_name(o, fp)
    forms = []
    for mid in ((('lit', b"/"),), ()):
        forms.append(('text', ('str', pt)) + mid + (('str', nt),))
    forms.append(('text', ('lit', b"/"), ('str', nt)))
    for f in forms:
        e = streq(o, f, t)
        if e is not None:
            return e
    return None


CHECKS = {"C13": c13, "C14": c14, "C15": c15, "C17": c17, "C18": c18, "C34": c34}
