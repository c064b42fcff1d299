"""Checks on the built-in commands and their texts (C26-C29, C35, C39)."""
from .lin import Lin, sym, ZERO, ONE, C, fresh_id
from .dom import (State, Ptr, PSym, Region, BF, IDT, NULL, NULLB, cst, psym, FULL, mask_vals, mask_of)
from . import model, steps, entries
from .interp import Broken, Budget
from .steps import veq
from .c_mem import guarded
from .c_fsm import where, show, lit_of, status_text, same_text, term_eq
from .c_tree import off, list_heap, isnull, start, initial, file_at, heapdiff, heapdiff_tree, untangle

FLAGS = (("get_data", b"r"), ("set_data", b"w"), ("exec", b"x"), ("help", b"h"))


# ------------------------------------------------------------------------------------------------ text comparison
def plain(o, pieces):
    """normal form of text pieces: constants folded, padding explicit"""
    out = []
    for p in pieces or ():
        if p[0] == 'fmt' and p[1].endswith(b"s"):
            out += list(p[2])
            pad = o.st.nl(p[3] - o.M.tlen(p[2]))
            if p[1].startswith(b"%-"):
                pp = [('pad', pad)]
            else:
                out = out[:len(out) - len(p[2])]
                pp = [('pad', pad)] + list(p[2])
            out += pp
        elif p[0] == 'fmt':
            spec = bytes(ch for ch in p[1] if ch not in b"lhzjt")
            v = o.st.nv(p[2]) if not isinstance(p[2], tuple) else p[2]
            k = cst(v)
            if k is not None and spec[-1:] in b"xXud":
                out.append(('lit', (spec.replace(b"u", b"d") % k)))
            else:
                out.append(('fmt', spec, v))
        elif p[0] == 'chr':
            k = cst(o.st.nv(p[1]))
            out.append(('chr', p[1]) if k is None else ('lit', bytes([k & 255])))
        elif p[0] == 'str' and p[2] == ZERO:
            continue
        elif p[0] == 'bin' and o.st.entails_eq(p[3]):
            continue
        elif p[0] == 'str' and isinstance(p[1], tuple) and p[1] and p[1][0] == 'lit':
            out.append(p[1])
        else:
            out.append(p)
    res = []
    for p in out:
        if p[0] == 'pad' and p[1] is not None:
            n = cst(o.st.nl(p[1]))
            if n == 0 or o.st.entails_eq(p[1]):
                continue
            if n is not None:
                p = ('lit', b" " * n)
        if p[0] == 'lit' and res and res[-1][0] == 'lit':
            res[-1] = ('lit', res[-1][1] + p[1])
        elif p[0] != 'lit' or p[1]:
            res.append(p)
    return res


def wanted(o, want):
    w = []
    for x in want:
        if isinstance(x, bytes):
            x = ('lit', x)
        w.append(x)
    return plain(o, w)


def differ(o, pieces, want):
    """None when the text equals the wanted one, else a description"""
    if pieces is None or any(p[0] in ('partial', 'ambiguous', 'unknown', 'cut') for p in pieces):
        return "the text is not determined: %s" % show(pieces)
    g, w = plain(o, pieces), wanted(o, want)
    if len(g) == len(w) and all(piece_eq(o, a, b) for a, b in zip(g, w)):
        return None
    k = 0
    while k < min(len(g), len(w)) and piece_eq(o, g[k], w[k]):
        k += 1
    lo = max(0, k - 1)
    return "the text is%s %s instead of %s" % (" ..." if lo else "", show(g[lo:k + 2]), show(w[lo:k + 2]))


def piece_eq(o, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'lit':
        return a[1] == b[1]
    if a[0] == 'str':
        return term_eq(o, a[1], b[1])
    if a[0] == 'pad':
        return a[1] is not None and b[1] is not None and o.st.entails_eq(a[1], b[1])
    if a[0] == 'chr':
        return veq(o.st, a[1], b[1])
    if a[0] == 'fmt':
        return a[1] == b[1] and same_val(o, a[2], b[2])
    if a[0] == 'bin':
        return o.st.np(Ptr(a[1], a[2])) == o.st.np(Ptr(b[1], b[2])) and o.st.entails_eq(a[3], b[3])
    return a == b


def same_val(o, a, b):
    st = o.st
    if veq(st, a, b):
        return True
    try:
        return st.entails_eq(o.M.lin(st, a), o.M.lin(st, b))
    except Exception:
        return False


def text(o, p):
    """the whole string at pointer p as a piece"""
    p = o.st.np(p)
    L = o.M.strlen2(steps.FakeFrame(o.E), steps.FakeInst, o.st.copy(), p)
    return ('str', o.M.strterm(o.st, p), L[0][1])


def aligned(o, p):
    """a name filled up with blanks to the configured width"""
    n = o.M.P["align"]
    t = text(o, p)
    L = o.st.nl(t[2])
    if o.st.entails_ge(L - n):
        return [t]
    if o.st.entails_ge(C(n) - L):
        return [t, ('pad', o.st.nl(C(n) - L))]
    return [t, ('pad', None)]


def ffield(o, fp, f):
    return o.st.nv(initial(o, fp.base, fp.off.c + o.M.foff[("file", f)]) if fp.off.isconst() else
                   o.M.init_value(o.st, fp.base, o.st.nl(fp.off + o.M.foff[("file", f)]), 64, True))


def last_part(o, p):
    t = o.M.strterm(o.st, p)
    k = Lin.of(sym(("lastseg", t), lo=0))
    s2 = o.st
    return ('str', (t[0], o.st.nl(t[1] + k)) if t[0] != 'lit' else t, None)


def described(o, fp):
    """text of one entry: name, padded and with description when there is one"""
    P = o.M.P
    mag, grn, yel, rst = P["font"]
    d = ffield(o, fp, "description")
    n = isnull(o, d)
    nm = ffield(o, fp, "name")
    if n is None:
        return None
    if n:
        return [text(o, nm), b"\r\n"]
    return aligned(o, nm) + [b" " + yel + b"- ", text(o, d), rst + b"\r\n"]


def ls_file(o, fp):
    fl = b"-"
    for f, ch in FLAGS:
        n = isnull(o, ffield(o, fp, f))
        if n is None:
            return None
        fl += b"-" if n else ch
    d = described(o, fp)
    return None if d is None else [fl + b" "] + d


def ls_dir(o, child):
    mag, grn, yel, rst = o.M.P["font"]
    return [b"d---- " + grn, last_part(o, start(o, child, "path")), b"/" + rst + b"\r\n"]


def ls_head(o, parent):
    mag, grn, yel, rst = o.M.P["font"]
    t = b"d---- " + grn + b"." + rst + b"\r\n"
    return [t + (b"d---- " + grn + b".." + rst + b"\r\n" if parent else b"")]


def status_of(it, P):
    """the status reported by an item, or None"""
    t = lit_of(it.pieces) if it.pieces else None
    if t is None:
        return None
    for n, k in P["status"].items():
        if n != "_TOTAL_NUM" and k and t.rstrip(b"\r\n") == status_text(P, k):
            return n
    return None


def room(E, *names):
    """the work buffer is large enough for the given texts: nothing is cut (cutting is bounded by C02)"""
    M, st = E.M, E.st0
    st.add_ge(M.OBS - 256)
    for p in names:
        st.add_ge(M.OBS - 256 - M.ro_len(st, p))


def nofit(E, base, k):
    for i in range(k):
        nm = E.M.init_value(E.st0, base, i * E.M.fsize + E.M.foff[("file", "name")], 64, True)
        room(E, nm.base)


def fix_flags(E, base, i, flags):
    """flags: mapping field -> present?"""
    for f, v in flags.items():
        k = i * E.M.fsize + E.M.foff[("file", f)]
        p = E.M.init_value(E.st0, base, k, 64, True)
        if v:
            E.st0.add_pne(p, NULL)
        else:
            E.st0.cells[(base, k)] = NULL


ALLF = ("get_data", "set_data", "exec", "help", "description")


# ------------------------------------------------------------------------------------------------ C28 ls
def ls_scene(E, node, parent, nchild, nfile, free):
    M, st = E.M, E.st0
    room(E)
    st.add_pne(node, NULL)
    k = (node.base, off(M, "parent"))
    par = Ptr(psym(("lsparent",), "node", False))
    st.cells[k] = par if parent else NULL
    st.cells[(node.base, off(M, "file_list_size"))] = C(nfile)
    E.children = list_heap(E, (node.base, off(M, "children")), nchild, "lschild")
    for p in E.children:
        st.add_pne(p, node)
        t = Ptr(psym(("init", p.base, off(M, "path")), "rostr", True))
        st.add_pne(t, NULL)
        room(E, t.base)
    fl = M.init_value(st, node.base, off(M, "file_list"), 64, True)
    E.files = [Ptr(fl.base, C(i * M.fsize)) for i in range(nfile)]
    nofit(E, fl.base, nfile)
    for i in range(nfile):
        if i != free:
            fix_flags(E, fl.base, i, {f: bool((i * 7 + j * 3 + i // 3) % 2) for j, f in enumerate(ALLF)})
    E.node, E.parent = node, parent


def ls_run(argc, parent, nchild, nfile, free):
    def prep(E):
        M, st = E.M, E.st0
        if argc == 1:
            node = E.init("current_node")
        else:
            t = (('abs', (E.init("current_node"), 0), M.strterm(st, E.args[1])), ZERO)
            node = Ptr(psym(("node", (None, 0), t), "node", False, meta="tree"))
            E.term = t
        ls_scene(E, node, parent, nchild, nfile, free)
    return entries.transcript("ls", argc, prep, (parent, nchild, nfile, free))


def c28(c):
    R1 = c.rule("whole listing", "a run of ls prints its own entry, the parent's entry below the root, each child directory once "
                "and each file once, in order, each in the documented layout, and ends", 20)
    R2 = c.rule("every entry", "whatever the number of entries: one step prints the current entry and moves to its successor; the "
                "listing ends only behind the last entry", 8)
    R3 = c.rule("selection", "without argument the current directory is listed, with one the directory it resolves to; everything "
                "else reports the matching status", 4)
    P = model.get("arduino")[1]
    scopes = [(1, p, n, k, f) for p in (0, 1) for n, k, f in ((0, 0, -1), (1, 0, -1), (0, 1, 0), (2, 1, -1), (3, 3, -1),
                                                              (1, 2, 1), (0, 9, -1), (9, 0, -1))]
    scopes += [(2, 1, 0, 0, -1), (2, 0, 2, 2, -1), (2, 1, 1, 1, 0)]
    for sc in scopes:
        E = guarded(c, "ls %s" % (sc,), lambda: ls_run(*sc))
        if E is None:
            continue
        c.use(E)
        n = 0
        for it in E.items:
            o = it.last
            w = "ls: " + where(E, it.exec)
            if E.argc == 2:
                fnd = o.st.preds.get(("found", "node", (None, 0), E.term))
                if fnd is False:
                    c.expect(R3, it.end == "text" and status_of(it, P) == "ERROR_NODE_NOT_FOUND", w,
                             "an unknown directory reports %s" % show(it.pieces), it.where(), "unknown directory")
                    continue
                if not fnd:
                    c.bad(R3, w, "the directory named by the argument is not looked up", it.where())
                    continue
            n += 1
            c.expect(R3, it.end == "done", w, "listing an existing directory ends as %s" % it.end, it.where(),
                     "listing of %s" % ("an argument" if E.argc == 2 else "the current directory"))
            if it.end != "done":
                continue
            want = ls_head(o, E.parent)
            undecided = False
            for ch in E.children:
                want = want + ls_dir(o, ch)
            for f in E.files:
                t = ls_file(o, f)
                if t is None:
                    undecided = True
                    t = []
                want = want + t
            if undecided:
                c.bad(R1, w, "an entry is printed without regard to what the file offers", it.where())
                continue
            d = differ(o, it.pieces, want)
            c.expect(R1, d is None, w, "%s: %s" % (E.name, d), it.where(), E.name)
        if not n:
            c.bad(R1, E.name, "nothing is listed")
    for argc in (3, 4, 5):
        E = guarded(c, "ls with %d arguments" % argc, lambda: entries.command("ls", argc))
        if E is None:
            continue
        c.use(E)
        for o in E.outcomes:
            wrong_usage(c, R3, E, o)
    ls_steps(c, R2)


def wrong_usage(c, R, E, o, want="ERROR_COMMAND_WRONG_ARGUMENTS"):
    P = o.M.P
    t = o.queue()[0] if o.queued() else None
    t = lit_of(t)
    ok = t is not None and t.rstrip(b"\r\n") == status_text(P, P["status"][want]) and not o.ev("set_data", "get_data", "exec")
    c.expect(R, ok, where(E, o), "wrong usage is answered by %s" % (t,), o.trail(), "wrong usage")


def ls_steps(c, R):
    for state in ("PROCESS_START", "PROCESS_SERVICE", "PROCESS_FINISH"):
        def prep(E):
            M, st = E.M, E.st0
            node = E.init("process_node")
            room(E)
            ch = E.init("process_child_node")
            t = M.init_value(st, ch.base, off(M, "path"), 64, True)
            room(E, t.base)
            fl = M.init_value(st, node.base, off(M, "file_list"), 64, True)
            i = E.init("process_index_item")
            nm = M.init_value(st, fl.base, st.nl(i.scale(M.fsize) + M.foff[("file", "name")]), 64, True)
            room(E, nm.base)
        E = guarded(c, "items of ls", lambda: entries.items("ls", state, prep=prep, key="fit"))
        if E is None:
            continue
        c.use(E)
        for it in E.items:
            o = it.last
            w = "ls: %s" % (it.where()[-1] if it.where() else E.name)
            o0 = it.steps[0]
            node = o.st.np(E.init("process_node"))
            ch = o.st.np(E.init("process_child_node"))
            i = E.init("process_index_item")
            size = o.M.lin(o.st, start(o, node, "file_list_size"))
            fl = start(o, node, "file_list")
            fp = o.st.np(Ptr(fl.base, fl.off + i.scale(o.M.fsize)))
            head = isnull(o, start(o, node, "parent"))
            kinds = []
            if it.end == "done" and not it.pieces:
                c.expect(R, o.st.entails_ge(i - size), w, "the listing ends before the last file", it.where(), "end")
                continue
            if not it.pieces:
                same = state == o.state_name() and veq(o.st, o.get("process_index_item"), i) and \
                    veq(o.st, o.get("process_child_node"), ch)
                okk = not same and (state != "PROCESS_SERVICE" or isnull(o, ch) is True)
                c.expect(R, okk, w, "a step of the listing skips an entry or makes no progress", it.where(), "switch")
                continue
            if it.end in ("endless", "opaque"):
                c.bad(R, w, "one entry takes unboundedly many steps", it.where())
                continue
            if state == "PROCESS_START":
                nx = start(o, node, "children")
                okk = differ(o, it.pieces, ls_head(o, head is False)) is None and head is not None and \
                    veq(o.st, o.get("process_child_node"), nx)
                c.expect(R, okk, w, "the listing does not start with the own entry and the first child (%s)" % show(it.pieces),
                         it.where(), "start")
            elif state == "PROCESS_SERVICE":
                okk = isnull(o, ch) is False and differ(o, it.pieces, ls_dir(o, ch)) is None and \
                    veq(o.st, o.get("process_child_node"), start(o, ch, "next")) and o.state_name() == state
                c.expect(R, okk, w, "a directory entry is wrong or its successor is not next (%s)" % show(it.pieces),
                         it.where(), "child directory")
            else:
                t = ls_file(o, fp)
                okk = t is not None and differ(o, it.pieces, t) is None and o.st.entails_ge(size - i - 1) and \
                    o.st.entails_eq(o.M.lin(o.st, o.get("process_index_item")) - i - 1) and o.state_name() == state
                c.expect(R, okk, w, "a file entry is wrong or its successor is not next (%s)" % show(it.pieces), it.where(),
                         "file")


# ------------------------------------------------------------------------------------------------ C29 help
def help_run(sizes, free):
    def prep(E):
        M, st = E.M, E.st0
        room(E)
        E.sets = list_heap(E, (M.SELF, off(M, "commands", "self")), len(sizes), "cmdset")
        E.files = []
        for p, n in zip(E.sets, sizes):
            st.cells[(p.base, off(M, "file_list_size"))] = C(n)
            fl = M.init_value(st, p.base, off(M, "file_list"), 64, True)
            nofit(E, fl.base, n)
            for i in range(n):
                if len(E.files) != free:
                    fix_flags(E, fl.base, i, {f: bool((i * 7 + j * 3 + i // 3) % 2) for j, f in enumerate(ALLF)})
                E.files.append(Ptr(fl.base, C(i * M.fsize)))
    return entries.transcript("help", 1, prep, (sizes, free))


def c29(c):
    R1 = c.rule("whole help", "help without argument prints each command of each set once, in order, with its description, and "
                "ends", 8)
    R2 = c.rule("every command", "whatever the number of commands: one step prints the current one and moves to its successor; the "
                "list ends only behind the last set", 4)
    R3 = c.rule("help text", "help with one argument prints exactly the help text of that entry; otherwise the matching status is "
                "reported", 4)
    P = model.get("arduino")[1]
    for sizes, free in (((), -1), ((1,), 0), ((2,), 1), ((1, 1), 1), ((3, 2), -1), ((0, 2), -1), ((1, 0, 1), -1), ((9,), -1),
                        ((1, 1, 1, 1, 1), -1)):
        E = guarded(c, "help %s" % (sizes,), lambda: help_run(sizes, free))
        if E is None:
            continue
        c.use(E)
        for it in E.items:
            o = it.last
            w = "help: " + where(E, it.exec)
            if it.end != "done":
                c.bad(R1, w, "the command list ends as %s" % it.end, it.where())
                continue
            want = []
            und = False
            for f in E.files:
                t = described(o, f)
                und = und or t is None
                want = want + (t or [])
            d = "an entry is printed without regard to its description" if und else differ(o, it.pieces, want)
            c.expect(R1, d is None, w, "%s: %s" % (E.name, d), it.where(), E.name)

    def prep(E):
        M, st = E.M, E.st0
        node = E.init("process_node")
        room(E)
        fl = M.init_value(st, node.base, off(M, "file_list"), 64, True)
        i = E.init("process_index_item")
        nm = M.init_value(st, fl.base, st.nl(i.scale(M.fsize) + M.foff[("file", "name")]), 64, True)
        room(E, nm.base)
    E = guarded(c, "items of help", lambda: entries.items("help", "PROCESS_START", prep=prep, key="fit"))
    if E is not None:
        c.use(E)
        for it in E.items:
            o = it.last
            w = "help: %s" % (it.where()[-1] if it.where() else E.name)
            node = o.st.np(E.init("process_node"))
            i = E.init("process_index_item")
            if it.end in ("endless", "opaque"):
                c.bad(R2, w, "one entry takes unboundedly many steps", it.where())
                continue
            if it.end == "done" and not it.pieces:
                c.expect(R2, isnull(o, node) is True, w, "the list ends before the last set", it.where(), "end")
                continue
            size = o.M.lin(o.st, start(o, node, "file_list_size"))
            if not it.pieces:
                okk = o.st.entails_ge(i - size) and veq(o.st, o.get("process_node"), start(o, node, "next")) and \
                    cst(o.get("process_index_item")) == 0
                c.expect(R2, okk, w, "a step of the list skips a command, a set, or makes no progress", it.where(), "next set")
                continue
            fl = start(o, node, "file_list")
            fp = o.st.np(Ptr(fl.base, fl.off + i.scale(o.M.fsize)))
            t = described(o, fp)
            okk = t is not None and differ(o, it.pieces, t) is None and o.st.entails_ge(size - i - 1) and \
                o.st.entails_eq(o.M.lin(o.st, o.get("process_index_item")) - i - 1) and \
                veq(o.st, o.get("process_node"), node) and o.state_name() == "PROCESS_START"
            c.expect(R2, okk, w, "a command is printed wrongly or its successor is not next (%s)" % show(it.pieces), it.where(),
                     "command")
    E = guarded(c, "help for one entry", lambda: entries.transcript("help", 2))
    seen = set()
    if E is not None:
        c.use(E)
        t = E.M.strterm(E.st0, E.args[1])
        for it in E.items:
            o = it.last
            w = "help: " + where(E, o)
            key = ("file", (E.init("current_node"), 0), t)
            f = o.st.preds.get(("found",) + key)
            fp = Ptr(psym(key, "file", False, meta="tree"))
            hp = ffield(o, o.st.np(fp), "help") if f else None
            nh = isnull(o, hp) if f else None
            if f is None or f and nh is None:
                c.bad(R3, w, "the entry or its help text is not checked", it.where())
            elif not f:
                seen.add("nofile")
                c.expect(R3, status_of(it, P) == "ERROR_FILE_NOT_FOUND", w, "an unknown entry is answered by %s" % show(it.pieces),
                         it.where(), "unknown entry")
            elif nh:
                seen.add("nohelp")
                c.expect(R3, status_of(it, P) == "ERROR_FILE_NO_HELP", w, "an entry without help is answered by %s" %
                         show(it.pieces), it.where(), "no help")
            else:
                seen.add("help")
                d = differ(o, it.pieces, [text(o, hp)])
                if d is None and (it.end != "text" or o.qinfo[3] != "RESET_PROMPT"):
                    d = "the prompt does not follow directly"
                c.expect(R3, d is None, w, "help: %s" % d, it.where(), "help text")
    c.expect(R3, seen == {"nofile", "nohelp", "help"}, "help", "only the cases %s occur" % sorted(seen))
    for argc in (3, 4, 5):
        E = guarded(c, "help with %d arguments" % argc, lambda: entries.command("help", argc))
        if E is None:
            continue
        c.use(E)
        for o in E.outcomes:
            wrong_usage(c, R3, E, o)


# ------------------------------------------------------------------------------------------------ C35 cat
def filekey(E, i):
    return ("file", (E.init("current_node"), 0), E.M.strterm(E.st0, E.args[i]))


def c35(c):
    R1 = c.rule("whole output", "cat prints the data of each named file once, completely, in order and nothing else; any file that "
                "is missing or unreadable is reported instead and nothing is read", 6)
    R2 = c.rule("every file", "whatever the number of files: one step asks the current file once and delivers exactly the data and "
                "size it reported, then moves to the next", 3)
    R3 = c.rule("usage", "cat without file reports wrong usage", 1)
    P = model.get("arduino")[1]
    for argc in (2, 3, 4):
        E = guarded(c, "cat", lambda: entries.transcript("cat", argc))
        if E is None:
            continue
        c.use(E)
        seen = set()
        for it in E.items:
            o = it.last
            w = "cat: " + where(E, it.exec)
            verdict = None
            for i in range(1, argc):
                key = filekey(E, i)
                f = o.st.preds.get(("found",) + key)
                fp = o.st.np(Ptr(psym(key, "file", False, meta="tree")))
                g = isnull(o, ffield(o, fp, "get_data")) if f else None
                if f is False:
                    verdict = "ERROR_FILE_NOT_FOUND"
                elif f and g:
                    verdict = "ERROR_FILE_NOT_READABLE"
                elif f is None or g is None:
                    verdict = "?"
                if verdict:
                    break
            seen.add(verdict)
            if verdict == "?":
                c.bad(R1, w, "a named file is not checked before it is used", it.where())
                continue
            gets = [e for e in it.events if e[0] == 'get_data']
            if verdict:
                c.expect(R1, status_of(it, P) == verdict and not gets, w, "a bad file is answered by %s%s" %
                         (show(it.pieces), " after reading" if gets else ""), it.where(), verdict)
                continue
            want = []
            okk = it.end == "done" and len(gets) == argc - 1
            for e, i in zip(gets, range(1, argc)):
                fp = o.st.np(Ptr(psym(filekey(E, i), "file", False, meta="tree")))
                a = e[3]
                okk = okk and o.st.np(a[1]) == fp and o.st.np(a[0]) == Ptr(o.M.SELF)
                if e[6] is not None:
                    want.append(('bin', e[6], ZERO, e[5]))
            d = differ(o, it.pieces, want) if okk else "the files are asked %d times for %d arguments" % (len(gets), argc - 1)
            c.expect(R1, d is None, w, "cat: %s" % d, it.where(), "%d files" % (argc - 1))
        c.expect(R1, seen == {None, "ERROR_FILE_NOT_FOUND", "ERROR_FILE_NOT_READABLE"}, "cat",
                 "only the cases %s occur" % sorted(seen, key=repr))
    E = guarded(c, "cat without file", lambda: entries.command("cat", 1))
    if E is not None:
        c.use(E)
        for o in E.outcomes:
            wrong_usage(c, R3, E, o)
    E = guarded(c, "process of cat", lambda: entries.process("cat", "PROCESS_SERVICE", None))
    if E is None:
        return
    c.use(E)
    n = 0
    for o in E.outcomes:
        w = where(E, o)
        gets = o.ev('get_data')
        i = E.init("process_index_item")
        lk = o.ev('lookup')
        more = o.st.entails_ge(E.init("args_count") - i - 1)
        if not more:
            c.expect(R2, o.st.entails_ge(i - E.init("args_count")) and not gets and not o.queued(), w,
                     "something is printed behind the last file", o.trail(), "end")
            continue
        if lk and not lk[0][3]:
            # the file vanished while cat is running
            wrong_usage(c, R2, E, o, "ERROR_FILE_NOT_FOUND")
            continue
        n += 1
        okk = len(gets) == 1 and len(lk) == 1
        if okk:
            e = gets[0]
            t = o.M.strterm(o.st, Ptr(psym(("arg", o.st.nl(i)), "arg", False)))
            okk = term_eq(o, lk[0][2], t)
            if okk:
                want = [('bin', e[6], ZERO, e[5])] if e[6] is not None else []
                d = differ(o, o.queue()[0] if o.queued() else (), want)
                nx = o.st.entails_eq(o.M.lin(o.st, o.get("process_index_item")) - i - 1)
                c.expect(R2, d is None and nx, w, "a file's data are not delivered as reported: %s%s" %
                         (d, "" if nx else "; the next file is not next"), o.trail(), "one file")
                continue
        elif not gets and o.queued():
            # not readable any more
            ok = any((lit_of(o.queue()[0]) or b"").rstrip(b"\r\n") == status_text(P, P["status"][x])
                     for x in ("ERROR_FILE_NOT_FOUND", "ERROR_FILE_NOT_READABLE"))
            c.expect(R2, ok, w, "a file that cannot be read any more is answered by %s" % show(o.queue()[0]), o.trail(), "vanished")
            continue
        c.bad(R2, w, "the current argument is not looked up and read exactly once", o.trail())
    c.expect(R2, n > 0, "cat", "no step reads a file")


# ------------------------------------------------------------------------------------------------ C39 pwd
def c39(c):
    R1 = c.rule("path", "pwd without argument prints the path of the current directory, once and unmodified, followed by a line "
                "break and the prompt, in one go", 1)
    R2 = c.rule("usage", "pwd with arguments reports wrong usage and prints no path", 2)
    R3 = c.rule("effect", "pwd changes neither the tree nor the current directory", 3)
    for argc in (1, 2, 3):
        def prep(E):
            p = E.M.init_value(E.st0, E.init("current_node").base, off(E.M, "path"), 64, True)
            room(E, p.base)
        E = guarded(c, "pwd with %d arguments" % argc, lambda: entries.transcript("pwd", argc, prep=prep, key="fit"))
        if E is None:
            continue
        c.use(E)
        for it in E.items:
            o = it.last
            w = "pwd: " + where(E, it.exec)
            c.expect(R3, all(o.same(f) for f in ("root", "current_node", "commands")) and not heapdiff_tree(o), w,
                     "pwd modifies the session's tree", it.where(), "pwd %d" % argc)
            if argc != 1:
                wrong_usage(c, R2, E, o)
                continue
            pc = list(it.pieces or ())
            want = [text(o, start(o, E.init("current_node"), "path"))]
            nx = o.state_name("write_next_state")
            if nx == "RESET_PROMPT":
                want = want + [b"\r\n"]
            d = differ(o, pc, want) if it.end == "text" or pc else "nothing is printed"
            c.expect(R1, d is None and nx in ("RESET", "RESET_PROMPT"), w, "pwd: %s" % (d or "no prompt follows"),
                     it.where(), "pwd")


# ------------------------------------------------------------------------------------------------ C27 xxd
PRINT = mask_of(lambda i: 0x20 <= i < 0x7f)
VAL = (0x41, 0x00, 0x7e, 0x20, 0xff, 0x7f, 0x1f, 0x80, 0x30, 0x0a, 0x25, 0x5c)


def dump_row(o, at, n, byte):
    """text of one row: `n` of the columns hold bytes"""
    cols = o.M.P["columns"]
    w = [('fmt', b"%08lX", at, C(8)), b": "]
    for i in range(cols):
        if i < n:
            v = byte(i)
            w += [('fmt', b"%02X", v, C(2)), b" "]
        else:
            w.append(b"   ")
    w.append(b" ")
    for i in range(cols):
        if i < n:
            v = byte(i)
            k = cst(o.st.nv(v))
            if k is not None:
                w.append(bytes([k]) if 0x20 <= k < 0x7f else b".")
            else:
                m = o.st.sets.get(v.s, FULL)
                if m & ~PRINT == 0:
                    w.append(('chr', v))
                elif m & PRINT == 0:
                    w.append(b".")
                else:
                    return None
        else:
            w.append(b" ")
    return w + [b"\r\n"]


def c27(c):
    R1 = c.rule("whole dump", "xxd prints one row per group of bytes, in order, until every byte of the file was shown; the last row "
                "is filled up with blanks", 10)
    R2 = c.rule("every row", "at every offset of a file of any size the row shows exactly the bytes at this offset, and the next row "
                "starts behind it; the dump ends only behind the last byte", 8)
    R3 = c.rule("usage", "wrong usage and missing or unreadable files are reported and nothing is read", 4)
    P = model.get("arduino")[1]
    cols = P["columns"]
    for size, free in [(0, -1), (1, 0), (2, 1), (cols - 1, cols - 2), (cols, 0), (cols, cols - 1), (cols + 1, cols),
                       (2 * cols, cols + 1), (2 * cols + 1, 2 * cols), (3 * cols - 1, 1), (260, 259)]:
        E = guarded(c, "xxd of %d bytes" % size, lambda: xxd_run(size, free))
        if E is None:
            continue
        c.use(E)
        n = 0
        for it in E.items:
            o = it.last
            w = "xxd: " + where(E, it.exec)
            gets = [e for e in it.events if e[0] == 'get_data']
            key = filekey(E, 1)
            f = o.st.preds.get(("found",) + key)
            fp = o.st.np(Ptr(psym(key, "file", False, meta="tree")))
            g = isnull(o, ffield(o, fp, "get_data")) if f else None
            if f is False or g is True:
                v = "ERROR_FILE_NOT_FOUND" if f is False else "ERROR_FILE_NOT_READABLE"
                c.expect(R3, status_of(it, P) == v and not gets, w, "a bad file is answered by %s" % show(it.pieces), it.where(),
                         v)
                continue
            if f is None or g is None or len(gets) != 1 or it.end != "done":
                c.bad(R3, w, "the file is not looked up, checked and read once (%s)" % it.end, it.where())
                continue
            if gets[0][6] is None and size:
                # the file reported no data this time
                real = 0
            else:
                real = size
            n += 1
            want = []
            for r in range(max(1, (real + cols - 1) // cols)):
                row = dump_row(o, C(r * cols), min(cols, real - r * cols), lambda i: byte_of(E, o, r * cols + i))
                if row is None:
                    want = None
                    break
                want += row
            d = "printable and other bytes are not told apart" if want is None else differ(o, it.pieces, want)
            c.expect(R1, d is None, w, "%s: %s" % (E.name, d), it.where(), E.name)
        if not n:
            c.bad(R1, E.name, "nothing is dumped")
    for argc in (1, 3, 4, 5):
        E = guarded(c, "xxd with %d arguments" % argc, lambda: entries.command("xxd", argc))
        if E is None:
            continue
        c.use(E)
        for o in E.outcomes:
            wrong_usage(c, R3, E, o)
    E = guarded(c, "xxd", lambda: entries.command("xxd", 2))
    if E is not None:
        c.use(E)
        k = 0
        for o in E.outcomes:
            g = o.ev('get_data')
            if not g or o.state_name() not in steps.PROC_STATES:
                continue
            k += 1
            size = o.M.lin(o.st, g[0][5])
            okk = o.st.entails_eq(o.M.lin(o.st, o.get("process_data_size")) - size)
            c.expect(R2, okk, where(E, o), "the dump does not cover the size the file reported", o.trail(), "whole size")
            if g[0][6] is not None and okk:
                dp = o.st.np(o.get("process_data"))
                c.expect(R2, isinstance(dp, Ptr) and dp == o.st.np(Ptr(g[0][6])), where(E, o),
                         "the dump does not show the data the file returned", o.trail(), "its data")
        if not k:
            c.bad(R2, E.name, "no file is dumped")
    for free in range(cols):
        if any(r["bad"] for r in c.rules.values()):
            break                   # what is wrong is known; a step that forks per byte would only take long
        E = guarded(c, "rows of xxd", lambda: xxd_rows(free))
        if E is None:
            continue
        c.use(E)
        for it in E.items:
            o = it.last
            w = "xxd: %s" % (it.where()[-1] if it.where() else E.name)
            at = E.init("process_index_item")
            size = E.init("process_data_size")
            if it.end in ("endless", "opaque"):
                c.bad(R2, w, "one row takes unboundedly many steps", it.where())
                continue
            n = 0 if o.st.entails_ge(at - size) else None
            for k in range(1, cols + 1):
                if (o.st.entails_eq(size - at - k) if k < cols else o.st.entails_ge(size - at - k)):
                    n = k
            if n is None:
                c.bad(R2, w, "a row is printed without regard to the end of the file", it.where())
                continue
            row = dump_row(o, at, n, lambda i: E.bytes[i])
            d = "printable and other bytes are not told apart" if row is None else differ(o, it.pieces, row)
            c.expect(R2, d is None, w, "row: %s" % d, it.where(), "row with %d bytes" % n)
            if it.end == "done":
                c.expect(R2, o.st.entails_ge(at + cols - size), w, "the dump ends before the last byte", it.where(), "end")
            else:
                okk = o.st.entails_eq(o.M.lin(o.st, o.get("process_index_item")) - at - cols) and \
                    o.st.entails_ge(size - at - cols - 1) and o.state_name() == "PROCESS_SERVICE"
                c.expect(R2, okk, w, "the next row does not start behind this one", it.where(), "next row")


def byte_of(E, o, i):
    M = E.M
    return E.bytes[i] if i in E.bytes else None


def xxd_run(size, free):
    def prep(E):
        M, st = E.M, E.st0
        room(E)
        fk = psym(filekey(E, 1), "file", False, meta="tree")
        key = (fk, M.foff[("file", "get_data")], 0, 0)
        n = Lin.of(sym(("getsize",) + key, lo=0, hi=(1 << 31) - 1))
        d = psym(("data",) + key, "data", False)
        st.add_eq(n - size)
        E.bytes = {}
        for i in range(size):
            b = M.byte_sym(st, M.ver0(d), C(i))
            if i != free:
                st.add_set(b, 1 << VAL[i % len(VAL)])
            E.bytes[i] = st.nv(BF(b, IDT, 8))
            if i != free and cst(E.bytes[i]) is None:
                E.bytes[i] = C(VAL[i % len(VAL)])
    return entries.transcript("xxd", 2, prep, (size, free), limit=max(64, 5 * size + 64))


def xxd_rows(free):
    def prep(E):
        M, st = E.M, E.st0
        room(E)
        at = E.init("process_index_item")
        E.bytes = {}
        for i in range(M.P["columns"]):
            b = M.byte_sym(st, M.ver0(E.xxd_data), st.nl(at + i))
            if i != free:
                st.add_set(b, 1 << VAL[i % len(VAL)])
                E.bytes[i] = C(VAL[i % len(VAL)])
            else:
                E.bytes[i] = BF(b, IDT, 8)
    return entries.items("xxd", "PROCESS_SERVICE", prep=prep, key=("row", free))


# ------------------------------------------------------------------------------------------------ C26 echo
HEXD = mask_of(lambda i: chr(i) in "0123456789abcdefABCDEF")


def ref_decode(s, mx):
    """the documented notation; None when a digit of \\xHH is not hexadecimal (undocumented)"""
    out, i, n = bytearray(), 0, len(s)
    while i < n and len(out) < mx:
        if s[i] != 0x5c:
            out.append(s[i])
            i += 1
        elif i + 1 >= n:
            break
        elif s[i + 1] != ord('x'):
            out.append(s[i + 1])
            i += 2
        else:
            for d in s[i + 2:i + 4]:
                if not HEXD >> d & 1:
                    return None
            if i + 3 >= n:
                break
            out.append(int(s[i + 2:i + 4], 16))
            i += 4
    return bytes(out)


def textbuf(E, name, pat, free_mask):
    """a modifiable string with the given bytes; None marks the free byte"""
    M, st = E.M, E.st0
    r = Region("array:%s" % name, "larr", C(len(pat) + 1), kind="buf", meta={"esz": 1})
    ver = ("in", name)
    put_bytes(E, ver, pat, free_mask)
    from .dom import Buf
    st.bufs[r] = Buf(ver, (), None, False)
    return r


def put_bytes(E, ver, pat, free_mask):
    M, st = E.M, E.st0
    E.freebyte = None
    for i, ch in enumerate(pat):
        b = M.byte_sym(st, ver, C(i))
        if ch is None:
            st.add_set(b, free_mask)
            E.freebyte = b
        else:
            st.add_set(b, 1 << ch)
    M.reg_zero(st, ver, ZERO, C(len(pat)))


def contents(o, base, n, saved=None):
    """-> list of n values (const Lin / BF), one list per case"""
    M = o.M
    from .dom import Buf
    M.quiet += 1
    try:
        cur = [(o.st.copy(), [])]
        if saved is not None:
            cur[0][0].bufs[base] = Buf(*saved[1:])
        for i in range(n):
            cur = [(s2, l + [s2.nv(v)]) for s, l in cur
                   for s2, v in M.read_byte(steps.FakeFrame(o.E), steps.FakeInst, s, base, C(i))]
    finally:
        M.quiet -= 1
    return cur


def bytes_match(s, vals, fb, v, want):
    """values equal the wanted bytes when the free byte is v"""
    for x, w in zip(vals, want):
        k = cst(x)
        if k is None and isinstance(x, BF) and x.s is fb:
            k = x.tbl[v]
        if k is None and isinstance(x, BF):
            m = s.sets.get(x.s, FULL)
            vs = {x.tbl[i] & 255 for i in mask_vals(m)}
            k = vs.pop() if len(vs) == 1 else None
        if k is None or k & 255 != w:
            return False
    return True


def decode_run(pat, free, mx, inplace):
    def f():
        E = steps.Entry("decoding of %r limit %d%s" % (show_pat(pat), mx, " in place" if inplace else ""), contracts=())
        E.kind, E.api = "api", "ush_utils_decode_ascii"
        E.M.unroll = len(pat) + 8
        r = textbuf(E, "text", pat, free)
        if inplace:
            d = r
        else:
            from .dom import Buf
            d = Region("array:out", "larr", C(mx), kind="buf", meta={"esz": 1})
            E.st0.bufs[d] = Buf(("new", "out", fresh_id()), (), None, True)
        E.dst = d
        E.run("ush_utils_decode_ascii", [Ptr(r), Ptr(d), C(mx)])
        return E
    return entries.memo(("decode", pat, free, mx, inplace), f)


def show_pat(pat):
    return "".join("?" if x is None else chr(x) for x in pat)


def decode_scopes():
    import itertools
    B, X = 0x5c, ord('x')
    seen = set()
    for n in (1, 2, 3, 4):
        for pos in range(n):
            for rest in itertools.product((B, X, ord('F'), ord('q')), repeat=n - 1):
                p = list(rest[:pos]) + [None] + list(rest[pos:])
                if tuple(p) not in seen:
                    seen.add(tuple(p))
                    yield tuple(p), FULL & ~1, n
    for t in (b"\\xa9\\x00z", b"a\\x4Fb\\x7e", b"\\\\x41\\\\", b"\\\\\\x41", b"\\x41\\x42\\x43", b"xx\\xx\\xxx"):
        for pos in range(len(t)):
            p = tuple(None if i == pos else ch for i, ch in enumerate(t))
            yield p, FULL & ~1, len(p)
    for p in ((None, 0x61, 0x62), (B, None, 0x63, 0x64), (B, X, 0x34, None, 0x63)):
        for mx in range(len(p)):
            yield p, FULL & ~1, mx
        yield p, FULL & ~1, len(p) + 5
    yield (), FULL, 0
    yield (), FULL, 5
    yield tuple(0x61 for _ in range(300)), FULL, 300


def c26_decode(c):
    R = c.rule("decoder", "for every text over the decoder's character classes, every byte value in every position and every limit "
               "the output is exactly the decoded text, also when decoding in place", 500)
    for pat, free, mx in decode_scopes():
        for inplace in (False, True):
            if inplace and mx > len(pat):
                continue
            E = guarded(c, "decoder", lambda: decode_run(pat, free, mx, inplace))
            if E is None:
                return
            c.use(E)
            done = 0
            for o in E.outcomes:
                n = cst(o.st.nv(o.ret)) if not isinstance(o.ret, tuple) else None
                vs = mask_vals(o.st.sets.get(E.freebyte, free)) if E.freebyte is not None else [0]
                cases = contents(o, E.dst, n) if n is not None and 0 <= n <= 400 else []
                for v in vs:
                    s = bytes(v if ch is None else ch for ch in pat)
                    want = ref_decode(s, mx)
                    done |= 1 << v
                    if want is None:
                        continue
                    okk = n == len(want) and all(bytes_match(s2, vals, E.freebyte, v, want) for s2, vals in cases)
                    if not okk:
                        c.bad(R, "ush_utils_decode_ascii (%s)" % (o.trail() or ["?"])[-1], "the text %r with limit %d decodes to "
                              "something else than %r%s" % (s, mx, want, " in place" if inplace else ""), o.trail())
                        break
                else:
                    c.ok(R, E.name)
            if E.freebyte is not None and done & free != free:
                c.bad(R, "ush_utils_decode_ascii", "no result for some bytes of %r" % show_pat(pat))


ECHO = (b"abc", b"", b"\\x41", b"a\\x41b", b"\\x00z", b"%s%n", b"a b", b"\\", b"\\x4", b"\\\\n", b"\\xfF\\x80", b"x", b">")


def echo_run(argc, text, op=b">", contracts=None):
    def prep(E):
        M = E.M
        room(E)
        if argc > 1:
            put_bytes(E, M.ver0(E.args[1].base), tuple(text), FULL)
        if argc == 4:
            put_bytes(E, M.ver0(E.args[2].base), tuple(op), FULL)
    cs = tuple(k for k in model.CONTRACTS if k != "ush_utils_decode_ascii")
    return entries.transcript("echo", argc, prep, (text, op), contracts=cs)


def c26(c):
    c26_decode(c)
    R1 = c.rule("print", "echo with one argument prints exactly its decoded text and a line break; without argument only a line "
                "break", 10)
    R2 = c.rule("write", "echo with a redirection passes exactly the decoded bytes and their number to the file once", 10)
    R3 = c.rule("usage", "wrong usage, an unknown file and a file that cannot be written are reported and nothing is written", 4)
    R4 = c.rule("any text", "for a text of any length the decoder gets the whole argument and its result and size are used "
                "unmodified", 2)
    P = model.get("arduino")[1]
    for t in ECHO:
        dec = ref_decode(t, len(t))
        E = guarded(c, "echo %r" % t, lambda: echo_run(2, t))
        if E is not None and dec is not None:
            c.use(E)
            for it in E.items:
                o = it.last
                if it.end != "text":
                    c.bad(R1, "echo: " + where(E, o), "echo %r prints nothing" % t, it.where())
                    continue
                txt = resolve(o, it.pieces)
                if txt is not None and o.qinfo[3] == "RESET":
                    txt += b"\r\n"        # the session starts a new line first
                want = dec.split(b"\0")[0] + b"\r\n"
                c.expect(R1, txt == want and not o.ev("set_data", "lookup"), "echo: " + where(E, o),
                         "echo %r prints %r" % (t, txt), it.where(), "echo %r" % t)
        E = guarded(c, "echo %r > file" % t, lambda: echo_run(4, t))
        if E is not None and dec is not None:
            c.use(E)
            seen = set()
            for it in E.items:
                o = it.last
                w = "echo: " + where(E, it.exec)
                key = ("file", (E.init("current_node"), 0), E.M.strterm(E.st0, E.args[3]))
                f = it.exec.st.preds.get(("found",) + key)
                fp = o.st.np(Ptr(psym(key, "file", False, meta="tree")))
                g = isnull(o, ffield(o, fp, "set_data")) if f else None
                sets = [e for e in it.events if e[0] == 'set_data']
                if f is False or g is True:
                    v = "ERROR_FILE_NOT_FOUND" if f is False else "ERROR_FILE_NOT_WRITABLE"
                    seen.add(v)
                    c.expect(R3, status_of(it, P) == v and not sets, w, "a bad target is answered by %s" % show(it.pieces),
                             it.where(), v)
                    continue
                okk = f and g is False and len(sets) == 1
                if okk:
                    seen.add("ok")
                    e = sets[0]
                    a = e[3]
                    okk = o.st.np(a[0]) == Ptr(E.M.SELF) and o.st.np(a[1]) == fp and cst(a[3]) == len(dec) and \
                        a[2].off == ZERO and not o.queued() and \
                        (not dec or all(bytes_match(s2, vals, None, 0, dec) for s2, vals in
                                        contents(o, a[2].base, len(dec), e[5])))
                c.expect(R2, okk, w, "echo %r > file does not write %r once" % (t, dec), it.where(), "echo %r > file" % t)
            c.expect(R3, seen == {"ok", "ERROR_FILE_NOT_FOUND", "ERROR_FILE_NOT_WRITABLE"}, "echo", "only the cases %s occur" %
                     sorted(seen))
    for op in (b">>", b"", b"<", b"=>", b"> "):
        E = guarded(c, "echo text %r file" % op, lambda: echo_run(4, b"abc", op))
        if E is not None:
            c.use(E)
            for it in E.items:
                c.expect(R3, status_of(it, P) == "ERROR_COMMAND_WRONG_ARGUMENTS" and not it.events_of("set_data"),
                         "echo: " + where(E, it.exec), "the operator %r is answered by %s" % (op, show(it.pieces)), it.where(),
                         "operator")
    for argc in (3, 5):
        E = guarded(c, "echo with %d arguments" % argc, lambda: entries.command("echo", argc))
        if E is not None:
            c.use(E)
            for o in E.outcomes:
                wrong_usage(c, R3, E, o)
    E = guarded(c, "echo without argument", lambda: entries.command("echo", 1))
    if E is not None:
        c.use(E)
        for o in E.outcomes:
            ok = (not o.queued() and o.state_name() == "RESET") or \
                (o.queued() and lit_of(o.queue()[0]) == b"\r\n" and o.state_name("write_next_state") == "RESET_PROMPT")
            c.expect(R1, ok and not o.ev("set_data"), where(E, o), "echo without argument does not print just a line break",
                     o.trail(), "no argument")
    for argc in (2, 4):
        E = guarded(c, "echo", lambda: entries.command("echo", argc))
        if E is None:
            continue
        c.use(E)
        for o in E.outcomes:
            dec = o.ev('decode')
            sets = o.ev('set_data')
            if not dec:
                continue        # decided for each text above
            L = E.M.ro_len(E.st0.copy(), psym(("arg", ONE), "arg", False))
            src = Ptr(psym(("arg", ONE), "arg", False))
            e = dec[0]
            okk = len(dec) == 1 and e[1] == E.M.strterm(E.st0, src) and o.st.entails_ge(e[2] - L) and \
                o.st.np(e[3]) == src and o.st.np(e[4]) == src
            if argc == 4:
                a = sets[0][3] if sets else None
                okk = okk and len(sets) == 1 and o.st.np(a[2]) == src and o.st.entails_eq(o.M.lin(o.st, a[3]) - e[5])
            c.expect(R4, okk, where(E, o), "the decoded text is not used as it is", o.trail(), "argc %d" % argc)


def resolve(o, pieces):
    """bytes of a text whose characters are all determined"""
    M = o.M
    out = b""
    for p in plain(o, pieces):
        if p[0] == 'lit':
            out += p[1]
        elif p[0] == 'chr':
            m = o.st.sets.get(p[1].s, FULL) if isinstance(p[1], BF) else 0
            vs = {p[1].tbl[i] & 255 for i in mask_vals(m)} if m else set()
            if len(vs) != 1:
                return None
            out += bytes([vs.pop()])
        elif p[0] == 'str':
            n = cst(o.st.nl(p[2]))
            if n is None:
                return None
            ver, at = p[1]
            for i in range(n):
                m = o.st.sets.get(M.byte_sym(o.st.copy(), ver, o.st.nl(at + i)), FULL)
                vs = list(mask_vals(m))
                if len(vs) != 1:
                    return None
                out += bytes(vs)
        else:
            return None
    return out


CHECKS = {"C26": c26, "C27": c27, "C28": c28, "C29": c29, "C35": c35, "C39": c39}
