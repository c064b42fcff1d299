"""Entry points other than the session step: built-in commands, public API, internal helpers.

Every entry starts from an unconstrained abstract state plus the documented preconditions and is analysed over all its
abstract paths; results are cached per process."""
from .lin import Lin, sym, ZERO, ONE, C, fresh_id
from .dom import (State, Ptr, PSym, Region, BF, IDT, UNDEF, NULL, NULLB, cst, psym, mask_of, mask_vals, FULL, Buf)
from . import model, steps
from .interp import Broken, Budget
from .steps import Entry

_c = {}


def memo(key, f):
    """one analysis per process; a failed one fails the same way again"""
    if key not in _c:
        try:
            _c[key] = f()
        except (Broken, Budget) as e:
            _c[key] = e
    if isinstance(_c[key], Exception):
        raise _c[key]
    return _c[key]


TABLE = "g_ush_buildin_commands"


def builtin(config="arduino"):
    """name -> dict(exec, process, description, help, index) read from the descriptor table of the linked program"""
    def f():
        m, P = model.get(config)
        g = m.globals.get(TABLE)
        if g is None or g.init is None:
            raise Broken("anchor vanished: built-in command table")
        fs = P["sizeof"]["ush_file_descriptor"]
        off = {n: P["off"][("ush_file_descriptor", n)] for n in model.FILE_F}
        cells = {}
        for o, v, sz in g.init:
            if v[0] == 'g':
                cells[o] = v[1]
        out = {}
        for i in range(g.size // fs):
            d = {}
            for n in model.FILE_F:
                s = cells.get(i * fs + off[n])
                if s is not None and s in m.globals and m.globals[s].string is not None:
                    s = m.globals[s].string[:-1]
                d[n] = s
            d["index"] = i
            if d["name"] is None:
                raise Broken("built-in command without a name")
            out[d["name"].decode()] = d
        return out
    return memo(("builtin", config), f)


def file_param(E, name="file"):
    return Ptr(psym((name,), "file", False))


def argv_region(E, argc):
    M = E.M
    r = Region("ARGV", "argvec", (argc + 1).scale(8), kind="buf", meta={"esz": 8})
    E.st0.bufs[r] = Buf(("argv", argc), ((argc.scale(8), NULL, 8),), None, False)
    E.argv = r
    return Ptr(r)


ARGCS = (1, 2, 3, 4, 5)


def command(name, argc, config="arduino"):
    """exec callback of a built-in command with argc arguments (5 stands for five or more)"""
    def f():
        b = builtin(config).get(name)
        if b is None or not b["exec"]:
            raise Broken("anchor vanished: built-in command %s has no exec function" % name)
        E = Entry("command %s with %s%d arguments" % (name, "at least " if argc == 5 else "", argc), config=config)
        E.kind, E.command, E.argc = "exec", name, argc
        E.setstate("RESET_PROMPT")
        if argc == 5:
            n = Lin.of(sym(("argc",), lo=5, hi=(1 << 31) - 1))
        else:
            n = C(argc)
        E.nargc = n
        E.set("args_count", n if isinstance(n, Lin) else C(n))
        # exec callbacks run while nothing is queued
        E.run(b["exec"], [Ptr(E.M.SELF), file_param(E), n, argv_region(E, n)])
        return E
    return memo(("exec", name, argc, config), f)


def process(name, state, index, config="arduino", argc=None):
    def f():
        b = builtin(config).get(name)
        if b is None:
            raise Broken("anchor vanished: built-in command %s" % name)
        if not b["process"]:
            raise Broken("anchor vanished: built-in command %s has no process function" % name)
        E = Entry("process of %s in %s index %s" % (name, state, index), config=config)
        E.kind, E.command, E.state, E.index = "process", name, state, index
        E.setstate(state)
        if index is not None:
            E.set("process_index", index)
        E.st0.add_ge(E.init("args_count") - 1)
        if name in ("ls",):
            # set by the exec step to a mounted node
            p = psym(("init", E.M.SELF, E.M.foff[("self", "process_node")]), "node", True)
            E.st0.add_pne(Ptr(p), NULL)
            E.set("process_node", Ptr(p))
        if name == "xxd":
            d = psym(("xxddata",), "data", False)
            n = E.init("process_data_size")
            E.set("process_data", Ptr(d))
            E.st0.cells[("datasize", d)] = n
            # documented precondition: a getter that reports data also provides them
            E.xxd_data = d
        E.run(b["process"], [Ptr(E.M.SELF), file_param(E)])
        return E
    return memo(("process", name, state, index, config), f)


PROC = {"ls": [("PROCESS_START", 0), ("PROCESS_SERVICE", 0), ("PROCESS_SERVICE", 1), ("PROCESS_SERVICE", 2),
               ("PROCESS_SERVICE", 3), ("PROCESS_FINISH", 0), ("PROCESS_FINISH", 1), ("PROCESS_FINISH", 2),
               ("PROCESS_FINISH", 3)],
        "help": [("PROCESS_START", 0), ("PROCESS_START", 1), ("PROCESS_START", 2)],
        "cat": [("PROCESS_START", None), ("PROCESS_SERVICE", None), ("PROCESS_FINISH", None)],
        "xxd": [("PROCESS_START", None), ("PROCESS_SERVICE", 0), ("PROCESS_SERVICE", 1), ("PROCESS_SERVICE", 2),
                ("PROCESS_SERVICE", 3), ("PROCESS_FINISH", None)]}


def all_commands(config="arduino", names=None):
    out = []
    for n in sorted(builtin(config)):
        if names and n not in names:
            continue
        for a in ARGCS:
            out.append(command(n, a, config))
    return out


def all_process(config="arduino", names=None):
    out = []
    for n, b in sorted(builtin(config).items()):
        if names and n not in names:
            continue
        if not b["process"]:
            continue
        for s, i in PROC.get(n, [("PROCESS_START", None), ("PROCESS_SERVICE", None), ("PROCESS_FINISH", None)]):
            out.append(process(n, s, i, config))
    return out


# ---------------------------------------------------------------------------------------------------- public API
def strparam(E, name, null=False, cls="rostr"):
    return Ptr(psym(("param", name), cls, null))


def api(fn, mk, key=None, config="arduino", contracts=None, prep=None):
    def f():
        E = Entry("%s()" % fn, config=config, contracts=contracts)
        E.kind, E.api = "api", fn
        if prep:
            prep(E)
        E.run(fn, mk(E))
        return E
    return memo(("api", fn, key, config), f)


def P_self(E):
    return Ptr(E.M.SELF)


def files_param(E):
    return Ptr(psym(("param_files",), "file", False))


def nfiles(E, lo=0):
    n = Lin.of(sym(("param_files_size",), lo=0, hi=(1 << 31) - 1))
    E.st0.add_ge(n - lo)
    return n


def node_param(E, name="node"):
    return Ptr(psym(("param", name), "node", False))


def outbuf_param(E, size=None, name="out"):
    M = E.M
    r = Region("array:%s" % name, "larr", size if size is not None else M.PML, kind="buf", meta={"esz": 1})
    E.st0.bufs[r] = Buf(("new", name, fresh_id()), (), None, True)
    E.out = r
    return Ptr(r)


def rwstr_param(E, name="rw"):
    """modifiable NUL-terminated string occupying exactly strlen+1 bytes"""
    L = Lin.of(sym(("param_len", name), lo=0, hi=(1 << 31) - 1))
    r = Region("array:%s" % name, "larr", L + 1, kind="buf", meta={"esz": 1})
    ver = ("in", name)
    E.M.reg_zero(E.st0, ver, ZERO, L)
    E.st0.bufs[r] = Buf(ver, (), None, False)
    E.rw, E.rwver, E.rwlen = r, ver, L
    return Ptr(r)


def plen(E, name):
    return E.M.ro_len(E.st0, psym(("param", name), "rostr", False))


def abs_param(E):
    """an absolute path in a modifiable buffer"""
    p = rwstr_param(E)
    E.st0.add_ge(E.rwlen - 1)
    b = E.M.byte_sym(E.st0, E.rwver, ZERO)
    E.st0.add_set(b, 1 << ord('/'))
    return p


def flush_self(E):
    """documented: the application left NUL-terminated text in the output buffer"""
    M = E.M
    L = Lin.of(sym(("user text",), lo=0, hi=(1 << 31) - 1))
    E.st0.add_ge(M.OBS - 1 - L)
    M.reg_zero(E.st0, M.ver0(M.OUTBUF), ZERO, L)
    return P_self(E)


API = {}


def _d(name, mk, **kw):
    API[name] = (mk, kw)


_d("ush_init", lambda E: [P_self(E), Ptr(E.M.DESC)])
_d("ush_deinit", lambda E: [P_self(E)])
_d("ush_reset", lambda E: [P_self(E)])
_d("ush_print_status", lambda E: [P_self(E), status_param(E)])
_d("ush_print", lambda E: [P_self(E), strparam(E, "text")])
_d("ush_print_no_newline", lambda E: [P_self(E), strparam(E, "text")])
_d("ush_printf", lambda E: [P_self(E), strparam(E, "format")])
_d("ush_flush", lambda E: [flush_self(E)])
_d("ush_node_mount", lambda E: [P_self(E), strparam(E, "path"), node_param(E), files_param(E), nfiles(E)])
_d("ush_node_unmount", lambda E: [P_self(E), strparam(E, "path")])
_d("ush_node_set_current_dir", lambda E: [P_self(E), strparam(E, "path")])
_d("ush_node_get_by_path", lambda E: [P_self(E), strparam(E, "path")])
_d("ush_node_get_parent_by_path", lambda E: [P_self(E), strparam(E, "path")])
_d("ush_node_get_absolute_path", lambda E: [P_self(E), strparam(E, "path"), outbuf_param(E)])
_d("ush_node_deinit_recursive", lambda E: [P_self(E), Ptr(psym(("param", "node"), "node", True))])
_d("ush_commands_add", lambda E: [P_self(E), node_param(E), files_param(E), nfiles(E, 1)])
_d("ush_commands_remove", lambda E: [P_self(E), node_param(E)])
_d("ush_file_find_by_name", lambda E: [P_self(E), strparam(E, "name")])
_d("ush_process_start", lambda E: [P_self(E), file_param(E)])
_d("ush_utils_join_path", lambda E: [strparam(E, "path"), strparam(E, "name"),
                                     outbuf_param(E, plen(E, "path") + plen(E, "name") + 2)])
_d("ush_utils_get_collapse_path", lambda E: [abs_param(E), outbuf_param(E, E.rwlen + 1)])
_d("ush_utils_get_path_level", lambda E: [Lin.of(sym(("param", "level"), lo=0)), strparam(E, "path"),
                                          outbuf_param(E, plen(E, "path") + 2)])
_d("ush_utils_get_path_levels_count", lambda E: [strparam(E, "path")])
_d("ush_utils_path_upper", lambda E: [rwstr_param(E)])
_d("ush_utils_path_last", lambda E: [strparam(E, "path")])
_d("ush_utils_get_last_arg", lambda E: [strparam(E, "line")])
_d("ush_utils_startswith", lambda E: [strparam(E, "text"), strparam(E, "prefix")])
_d("ush_utils_get_status_string", lambda E: [status_param(E)])
_d("ush_utils_is_printable", lambda E: [BF(sym(("byte", ("param",), ZERO), lo=0, hi=255, w=8), IDT, 8)])
_d("ush_utils_decode_ascii", lambda E: [strparam(E, "text"), decode_out(E), E.decode_max])
_d("ush_parse_get_args", lambda E: [P_self(E), getargs_out(E)])


def status_param(E):
    n = E.M.P["status"]["_TOTAL_NUM"]
    s = sym(("param", "status"), lo=0, hi=n - 1, w=32)
    E.status = s
    return Lin.of(s)


def decode_out(E):
    E.decode_max = Lin.of(sym(("param", "max"), lo=0, hi=(1 << 31) - 1))
    return outbuf_param(E, E.decode_max)


def getargs_out(E):
    M = E.M
    n = E.init("args_count")
    r = Region("ARGVOUT", "larr", n.scale(8), kind="buf", meta={"esz": 8})
    E.st0.bufs[r] = Buf(("new", "argvout", fresh_id()), (), None, True)
    E.argv = r
    return Ptr(r)


def prep_path(E):
    """path parameters are bounded by the caller as documented"""


def call(name, config="arduino", variant=None):
    if name not in API:
        raise KeyError(name)
    mk, kw = API[name]
    v = VARIANTS.get((name, variant))
    return api(name, mk, variant, config, prep=v)


def printf_append(E):
    """a command that prints again before its earlier text is delivered; what follows that text is not decided yet"""
    M, st = E.M, E.st0
    flush_self(E)
    E.name = "ush_printf appending"
    T = Lin.of(sym(("user text",), lo=0, hi=(1 << 31) - 1))
    E.setstate("RESET_PROMPT")
    E.setstate("READ_CHAR", "write_next_state")
    E.set("write_buf", Ptr(M.OUTBUF))
    E.set("write_size", T)
    st.add_ge(T - E.init("write_pos"))


def printf_overflown(E):
    """the same after an overflow: the text fills the buffer and the buffer is queued as a whole"""
    printf_append(E)
    E.name = "ush_printf appending after an overflow"
    E.st0.add_eq(E.M.OBS - 1 - Lin.of(sym(("user text",), lo=0, hi=(1 << 31) - 1)))
    E.set("write_size", E.M.OBS)


VARIANTS = {("ush_printf", "append"): printf_append, ("ush_printf", "overflown"): printf_overflown}


# -------------------------------------------------------------------------------- whole items of process commands
class Item:
    """text produced from one boundary of a process command to the next, over several service steps"""

    def __init__(self, first, last, pieces, steps, end):
        self.first, self.last, self.pieces, self.steps, self.end = first, last, pieces, steps, end
        self.st = last.st
        self.events = sum((tuple(o.st.events) for o in steps), ())

    def where(self):
        return self.last.trail()

    def events_of(self, *kinds):
        return [e for e in self.events if e[0] in kinds]


def at_boundary(o):
    return o.state_name() in steps.PROC_STATES and cst(o.get("process_index")) == 0


def chain_from(E0, fnname, st, limit=14, boundary=at_boundary):
    """follow the process function from state `st` until the next item boundary / the end of the command"""
    out = []
    work = [(st, (), ())]
    first = None
    while work:
        s0, pcs, stps = work.pop()
        E = Entry(E0.name + " step %d" % (len(stps) + 1), M=E0.M)
        E.kind, E.command = "process", E0.command
        E.st0 = s0.copy()
        E.st0.events = ()
        E.st0.writes = ()
        E.state = None
        E.run(fnname, [Ptr(E.M.SELF), file_param(E)])
        for o in E.outcomes:
            o.step_state = None
            p2 = pcs
            n = o.state_name()
            q = n == "WRITE_CHAR"
            o.was_queued = q
            if q:
                t, size, pos, nxt, ptr = o.queue()
                o.qinfo = (t, size, pos, nxt, ptr)
                p2 = pcs + (t or ())
                # the queue is delivered by later steps, then the session continues in the requested state
                k = (E.M.SELF, E.M.foff[("self", "state")])
                o.st.cells[k] = o.get("write_next_state")
                n = o.state_name()
            s2 = stps + (o,)
            if n not in steps.PROC_STATES or o.st.havocs > s0.havocs:
                out.append(Item(s2[0], o, E.M.merge(p2), s2, "done" if n not in steps.PROC_STATES else "opaque"))
            elif boundary(o):
                out.append(Item(s2[0], o, E.M.merge(p2), s2, "item"))
            elif len(s2) >= limit:
                out.append(Item(s2[0], o, E.M.merge(p2), s2, "endless"))
            else:
                work.append((o.st, p2, s2))
    return out


def items(name, state, config="arduino", prep=None, key=None, boundary=at_boundary, fields=()):
    """all items the process function of a built-in command can produce from a boundary in `state`"""
    def f():
        b = builtin(config).get(name)
        if b is None:
            raise Broken("anchor vanished: built-in command %s" % name)
        if not b["process"]:
            raise Broken("anchor vanished: built-in command %s has no process function" % name)
        E = Entry("items of %s from %s" % (name, state), config=config)
        E.kind, E.command, E.state = "process", name, state
        E.setstate(state)
        if name in ("ls", "help", "xxd") and state != "START":
            E.set("process_index", 0)
        E.st0.add_ge(E.init("args_count") - 1)
        if name == "ls":
            p = psym(("init", E.M.SELF, E.M.foff[("self", "process_node")]), "node", True)
            E.st0.add_pne(Ptr(p), NULL)
            E.set("process_node", Ptr(p))
        if name == "xxd":
            d = psym(("xxddata",), "data", False)
            n = E.init("process_data_size")
            E.set("process_data", Ptr(d))
            E.st0.cells[("datasize", d)] = n
            E.xxd_data = d
        if prep:
            prep(E)
        E.items = chain_from(E, b["process"], E.st0, boundary=boundary)
        E.outcomes = [i.last for i in E.items]
        return E
    return memo(("items", name, state, config, key), f)


def transcript(name, argc, prep=None, key=None, config="arduino", limit=64, contracts=None):
    """a whole run of a built-in command: the exec function and, when it starts a process, all its steps up to the end.
    -> Entry with .items: complete transcripts (text pieces, steps, end: done | status | endless | opaque)"""
    def f():
        b = builtin(config).get(name)
        if b is None or not b["exec"]:
            raise Broken("anchor vanished: built-in command %s has no exec function" % name)
        E = Entry("run of %s with %d arguments %s" % (name, argc, key or ""), config=config, contracts=contracts)
        E.kind, E.command, E.argc = "run", name, argc
        E.M.unroll = 64
        E.setstate("RESET_PROMPT")
        E.set("args_count", argc)
        E.args = [Ptr(psym(("arg", C(i)), "arg", False)) for i in range(argc)]
        if prep:
            prep(E)
        X = Entry(E.name, M=E.M)
        X.kind, X.command = "exec", name
        X.st0 = E.st0
        X.state = None
        X.run(b["exec"], [Ptr(E.M.SELF), file_param(E), C(argc), argv_region(E, C(argc))])
        E.items = []
        for o in X.outcomes:
            o.E = E
            n = o.state_name()
            if n in steps.PROC_STATES and o.st.havocs == 0:
                if not b["process"]:
                    E.items.append(Item(o, o, (), (o,), "no process"))
                    continue
                for it in chain_from(E, b["process"], o.st, limit=limit, boundary=lambda o: False):
                    it.exec = o
                    it.steps = (o,) + it.steps
                    it.events = o.st.events + it.events
                    for q in it.steps:
                        q.E0 = q.E
                    E.items.append(it)
                continue
            pcs = ()
            if n == "WRITE_CHAR" and o.st.havocs == 0:
                o.qinfo = o.queue()
                pcs = E.M.merge(o.qinfo[0] if o.qinfo[0] is not None else (('unknown',),))
            it = Item(o, o, pcs, (o,), "text" if n == "WRITE_CHAR" else "end")
            it.exec = o
            E.items.append(it)
        E.outcomes = [i.last for i in E.items]
        return E
    return memo(("run", name, argc, config, key), f)


CHAINED = {"ls": ("PROCESS_START", "PROCESS_SERVICE", "PROCESS_FINISH"), "help": ("PROCESS_START",)}


def process_entries(config="arduino", names=None):
    """every process function of the built-in commands: whole items where a command spreads an item over several steps
    (ls, help), single steps otherwise"""
    out = []
    for n, b in sorted(builtin(config).items()):
        if not b["process"] or (names and n not in names):
            continue
        if n in CHAINED:
            out += [items(n, s, config) for s in CHAINED[n]]
        else:
            for s, i in PROC.get(n, [("PROCESS_START", None), ("PROCESS_SERVICE", None), ("PROCESS_FINISH", None)]):
                out.append(process(n, s, i, config))
    return out
