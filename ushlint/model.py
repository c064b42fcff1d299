"""Model of the world around the library: IR front end, memory layout, strings, libc, callbacks, contracts."""
import os
import shutil
import subprocess
import tempfile

from . import llvm
from .lin import Lin, sym, ZERO, ONE, C, fresh_id
from .dom import (State, Ptr, PSym, Region, BF, IDT, UNDEF, NULL, NULLB, TRUE, FALSE, neg, cst, psym, mask_of,
                  mask_vals, FULL, Buf, _l)
from .interp import Interp, Broken, Frame

BIN = "/usr/lib/llvm-18/bin/"
NZ = FULL & ~1

SELF_F = ["desc", "state", "write_next_state", "prompt_next_state", "write_buf", "write_size", "write_pos",
          "ansi_escape_state", "in_pos", "out_pos", "args_count", "escape_flag", "commands", "root", "current_node",
          "buildin_commands", "process_node", "process_child_node", "process_file", "process_index",
          "process_index_item", "process_data", "process_data_size", "process_stage"]
SELF_AC = ["autocomp_prev_state", "autocomp_input", "autocomp_candidate_name", "autocomp_name", "autocomp_count",
           "autocomp_prev_count", "autocomp_suffix_len"]
NODE_F = ["file_list", "file_list_size", "path", "parent", "children", "next"]
FILE_F = ["name", "description", "help", "exec", "get_data", "set_data", "process"]
DESC_F = ["io", "input_buffer", "input_buffer_size", "output_buffer", "output_buffer_size", "path_max_length",
          "hostname", "exec"]
IO_F = ["read", "write"]
STATES = ["RESET", "RESET_PROMPT", "PROMPT_PREFIX", "PROMPT_HOST", "PROMPT_SPACE", "PROMPT_PATH", "PROMPT_SUFFIX",
          "READ_PREPARE", "READ_CHAR", "PARSE_PREPARE", "PARSE_SEARCH_ARG", "PARSE_QUOTE_ARG", "PARSE_STANDARD_ARG",
          "WRITE_CHAR", "PROCESS_START", "PROCESS_SERVICE", "PROCESS_FINISH"]
STATES_AC = ["AUTOCOMP_PREPARE", "AUTOCOMP_CANDIDATES_START", "AUTOCOMP_CANDIDATES_COUNT",
             "AUTOCOMP_CANDIDATES_OPTIMISE", "AUTOCOMP_CANDIDATES_PRINT", "AUTOCOMP_CANDIDATES_FINISH",
             "AUTOCOMP_PROMPT_PREPARE", "AUTOCOMP_PROMPT", "AUTOCOMP_RECALL", "AUTOCOMP_RECALL_SUFFIX"]
STATUSES = ["OK", "ERROR_NODE_NOT_FOUND", "ERROR_NODE_WITH_CHILDS", "ERROR_NODE_WITHOUT_PARENT",
            "ERROR_NODE_ALREADY_MOUNTED", "ERROR_COMMAND_SYNTAX_ERROR", "ERROR_COMMAND_WRONG_ARGUMENTS",
            "ERROR_FILE_NOT_EXECUTABLE", "ERROR_FILE_NOT_WRITABLE", "ERROR_FILE_NOT_READABLE", "ERROR_FILE_NO_HELP",
            "ERROR_FILE_NOT_FOUND", "ERROR_FILE_READ_ONLY"]

# (class, field) -> class of the pointee
PTRCLS = {("self", "write_buf"): "wbuf", ("self", "commands"): "node", ("self", "root"): "node",
          ("self", "current_node"): "node", ("self", "process_node"): "node", ("self", "process_child_node"): "node",
          ("self", "process_file"): "file", ("self", "process_data"): "data",
          ("self", "autocomp_candidate_name"): "rostr", ("self", "autocomp_name"): "rostr",
          ("node", "file_list"): "file", ("node", "path"): "rostr", ("node", "parent"): "node",
          ("node", "children"): "node", ("node", "next"): "node",
          ("file", "name"): "rostr", ("file", "description"): "rostr", ("file", "help"): "rostr",
          ("file", "exec"): "fn", ("file", "get_data"): "fn", ("file", "set_data"): "fn", ("file", "process"): "fn",
          ("desc", "hostname"): "rostr", ("desc", "exec"): "fn", ("io", "read"): "fn", ("io", "write"): "fn"}
NONNULL = {("self", "desc"), ("self", "write_buf"), ("self", "current_node"), ("file", "name"), ("desc", "hostname"),
           ("io", "read"), ("io", "write"), ("self", "process_file")}


class BuildError(Exception):
    pass


def repo():
    return os.environ.get("USH_REPO", "/repo")


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return p.returncode, p.stdout, p.stderr


def lib_sources():
    base = os.path.join(repo(), "src/src")
    out = []
    for d, _, fs in os.walk(base):
        for f in sorted(fs):
            if f.endswith(".c"):
                out.append(os.path.join(d, f))
    return sorted(out)


def compile_module(defs, workdir, sources=None, tag="m", custom=None, opts=("-passes=sroa",)):
    """compile + link every library source of the current tree and load the IR"""
    src = sources if sources is not None else lib_sources()
    if not src:
        raise BuildError("no library sources found below %s" % repo())
    outs = []
    procs = []
    for i, s in enumerate(src):
        o = os.path.join(workdir, "%s_%d.ll" % (tag, i))
        cmd = [BIN + "clang", "-S", "-emit-llvm", "-O0", "-g", "-Xclang", "-disable-O0-optnone",
               "-D__NO_CTYPE", "-fno-discard-value-names", "-I" + os.path.join(repo(), "src")] + list(defs)
        cmd += [s, "-o", o]
        procs.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        outs.append(o)
    for s, p in procs:
        so, se = p.communicate()
        if p.returncode:
            raise BuildError("cannot compile %s: %s" % (s, se[-600:]))
    linked = os.path.join(workdir, tag + ".ll")
    rc, so, se = run([BIN + "llvm-link", "-S"] + outs + ["-o", linked])
    if rc:
        raise BuildError("link: " + se[-600:])
    fin = os.path.join(workdir, tag + ".o.ll")
    rc, so, se = run([BIN + "opt", "-S"] + list(opts) + [linked, "-o", fin])
    if rc:
        raise BuildError("opt: " + se[-600:])
    return llvm.load(fin)


def probe(defs, workdir, autocomp=True):
    """struct offsets and enumerator values, as the compiler sees them"""
    rows = []

    def off(struct, f):
        rows.append(("off", struct, f, "offsetof(struct %s, %s)" % (struct, f)))
        rows.append(("size", struct, f, "sizeof(((struct %s*)0)->%s)" % (struct, f)))
    for f in SELF_F + (SELF_AC if autocomp else []):
        off("ush_object", f)
    for f in NODE_F:
        off("ush_node_object", f)
    for f in FILE_F:
        off("ush_file_descriptor", f)
    for f in DESC_F:
        off("ush_descriptor", f)
    for f in IO_F:
        off("ush_io_interface", f)
    for s in ("ush_object", "ush_node_object", "ush_file_descriptor", "ush_descriptor", "ush_io_interface"):
        rows.append(("sizeof", s, "", "sizeof(struct %s)" % s))
    for n in STATES + (STATES_AC if autocomp else []) + ["_TOTAL_NUM"]:
        rows.append(("state", n, "", "USH_STATE_" + n))
    for n in STATUSES + ["_TOTAL_NUM"]:
        rows.append(("status", n, "", "USH_STATUS_" + n))
    src = os.path.join(workdir, "probe.c")
    with open(src, "w") as f:
        f.write('#include <stddef.h>\n#include "inc/ush.h"\n#include "inc/ush_internal.h"\n')
        f.write("const unsigned long ushlint_probe[] = {\n")
        for r in rows:
            f.write("(unsigned long)(%s),\n" % r[3])
        f.write("};\n")
        f.write("const char ushlint_font[] = USH_SHELL_FONT_COLOR_MAGENTA \"|\" USH_SHELL_FONT_COLOR_GREEN \"|\" "
                "USH_SHELL_FONT_COLOR_YELLOW \"|\" USH_SHELL_FONT_STYLE_RESET;\n")
        f.write("const unsigned long ushlint_cfg[] = {USH_CONFIG_FILENAME_ALIGN_SPACE, USH_CONFIG_CMD_XXD_COLUMNS};\n")
        f.write("const char ushlint_hello[] = USH_NAME \" \" USH_VERSION \"\\r\\n\";\n")
        f.write("const char *const ushlint_trans[] = {USH_CONFIG_TRANSLATION_OK, USH_CONFIG_TRANSLATION_ERROR, "
                "USH_CONFIG_TRANSLATION_DIRECTORY_NOT_FOUND, USH_CONFIG_TRANSLATION_NESTED_DIRECTORIES_EXIST, "
                "USH_CONFIG_TRANSLATION_CANNOT_FIND_PARENT_NODE, USH_CONFIG_TRANSLATION_DIRECTORY_ALREADY_MOUNTED, "
                "USH_CONFIG_TRANSLATION_SYNTAX_ERROR, USH_CONFIG_TRANSLATION_WRONG_ARGUMENTS, "
                "USH_CONFIG_TRANSLATION_FILE_NOT_EXECUTABLE, USH_CONFIG_TRANSLATION_FILE_NOT_WRITABLE, "
                "USH_CONFIG_TRANSLATION_FILE_NOT_READABLE, USH_CONFIG_TRANSLATION_NO_HELP_AVAILABLE, "
                "USH_CONFIG_TRANSLATION_FILE_NOT_FOUND, USH_CONFIG_TRANSLATION_READ_ONLY_FILE};\n")
    o = os.path.join(workdir, "probe.ll")
    rc, so, se = run([BIN + "clang", "-S", "-emit-llvm", "-O0", "-I" + os.path.join(repo(), "src")] + list(defs) +
                     [src, "-o", o])
    if rc:
        raise BuildError("anchors vanished (probe does not compile): " + se[-800:])
    m = llvm.load(o)
    vals = {}
    for offb, v, sz in m.globals["ushlint_probe"].init:
        vals[offb // 8] = v[1] if v[0] == 'c' else 0
        if v[0] == 'zero':
            for k in range(v[1] // 8):
                vals[offb // 8 + k] = 0
    P = {"off": {}, "size": {}, "sizeof": {}, "state": {}, "status": {}}
    for i, r in enumerate(rows):
        if r[0] in ("off", "size"):
            P[r[0]][(r[1], r[2])] = vals.get(i, 0)
        else:
            P[r[0]][r[1]] = vals.get(i, 0)
    g = m.globals
    P["font"] = g["ushlint_font"].string[:-1].split(b"|")
    P["hello"] = g["ushlint_hello"].string[:-1]
    cf = {}
    for offb, v, sz in g["ushlint_cfg"].init:
        cf[offb // 8] = v[1]
    P["align"], P["columns"] = cf.get(0, 0), cf.get(1, 0)
    tr = {}
    for offb, v, sz in g["ushlint_trans"].init:
        tr[offb // 8] = g[v[1]].string[:-1]
    P["trans"] = tr
    return P


class Model(Interp):
    def __init__(self, mod, P, autocomp=True):
        Interp.__init__(self, mod)
        self.P = P
        self.autocomp = autocomp
        self.fields = {}     # cls -> {offset: (name,size)}
        for cls, st, names in (("self", "ush_object", SELF_F + (SELF_AC if autocomp else [])),
                               ("node", "ush_node_object", NODE_F), ("file", "ush_file_descriptor", FILE_F),
                               ("desc", "ush_descriptor", DESC_F), ("io", "ush_io_interface", IO_F)):
            d = {}
            for n in names:
                d[P["off"][(st, n)]] = (n, P["size"][(st, n)])
            self.fields[cls] = d
        self.foff = {(c, n): o for c, d in self.fields.items() for o, (n, _) in d.items()}
        self.fsize = P["sizeof"]["ush_file_descriptor"]
        self.nsize = P["sizeof"]["ush_node_object"]
        self.ssize = P["sizeof"]["ush_object"]
        bc = self.foff[("self", "buildin_commands")]
        self.bc = bc
        del self.fields["self"][bc]
        for o, (n, sz) in self.fields["node"].items():
            self.fields["self"][bc + o] = ("buildin_commands." + n, sz)
        self.IBS = Lin.of(sym(("input_buffer_size",), lo=2, hi=(1 << 31) - 1))
        self.OBS = Lin.of(sym(("output_buffer_size",), lo=4, hi=(1 << 31) - 1))
        self.PML = Lin.of(sym(("path_max_length",), lo=2, hi=(1 << 31) - 1))
        self.SELF = Region("SELF", "self", C(self.ssize), meta={"bc_off": bc})
        self.DESC = Region("DESC", "desc", C(P["sizeof"]["ush_descriptor"]), const=True)
        self.IO = Region("IO", "io", C(P["sizeof"]["ush_io_interface"]), const=True)
        self.INBUF = Region("INBUF", "inbuf", self.IBS, kind="buf")
        self.OUTBUF = Region("OUTBUF", "outbuf", self.OBS, kind="buf")
        self.globs = {}
        self.opaque_fns = set()
        self.stores = {}
        self.recursion = False      # follow recursive calls (explicit trees only)
        self.sreads = {}
        self.S = P["state"]
        self.datasize = {}
        self.wb_size = None
        self.pure_cb = False
        self.cb_hook = None
        self.havoc_on_cb = True
        self.frozen = {}
        self.max_strcmp_lit = 3
        self.contract_fns = {}
        self.used_contracts = set()
        self.ac_in_off = Lin.of(sym(("autocomp_off",), lo=0))

    def next_off(self):
        return self.foff[("node", "next")]

    def node_links(self):
        return [self.foff[("node", "next")], self.foff[("node", "children")]]

    # ------------------------------------------------------------------ globals
    def global_region(self, name):
        r = self.globs.get(name)
        if r is None:
            if name in self.mod.functions:
                r = Region("fn:" + name, "fn", C(1), kind="fn")
            else:
                g = self.mod.globals.get(name)
                if g is None:
                    raise Broken("unknown global " + name)
                if g.string is not None and g.const:
                    r = Region("str:" + name, "rostr", C(g.size), kind="buf", const=True, string=g.string)
                else:
                    r = Region("glob:" + name, "file" if name == "g_ush_buildin_commands" else "glob", C(g.size),
                               kind="glob", const=g.const, meta=g)
            self.globs[name] = r
        return r

    # ------------------------------------------------------------------ struct cells
    def field(self, cls, off):
        return self.fields.get(cls, {}).get(off)

    def cell_init(self, st, ck):
        base, off = ck
        return self.init_value(st, base, off, None, None)

    def init_value(self, st, base, off, width, isptr):
        """value of a never written cell"""
        cls = base.cls
        for lo, hi in st.zero.get(base, ()):
            if isinstance(off, int) and lo <= off < hi:
                if isptr or (isptr is None and self.fptr(cls, off)):
                    return NULL
                return ZERO
        if cls == "glob" or (isinstance(base, Region) and base.kind == "glob"):
            return self.glob_init(st, base, off, width, isptr)
        fo = off
        if cls == "file":
            # descriptor arrays: offset = index*size + field
            o = _l(off)
            k = o.c % self.fsize
            fo = k if all(v % self.fsize == 0 for _, v in o.t) else None
        f = self.field(cls, fo) if isinstance(fo, int) else None
        if f is None:
            w = width or 64
            if isptr:
                return Ptr(psym(("init", base, off), "any", True))
            return Lin.of(sym(("init", base, off), lo=0, hi=(1 << w) - 1 if w < 64 else None, w=w))
        name, size = f
        ep = st.epoch.get(cls)
        if cls == "self" and name.startswith("buildin_commands."):
            name = name.split(".")[1]
            cls = "node"
        if cls == "self":
            if base.garbage:
                if isptr or (isptr is None and (cls, name) in PTRCLS):
                    return Ptr(psym(("garbage", base, off), "any", True))
                return Lin.of(sym(("garbage", base, off), lo=0))
            if name == "desc":
                return Ptr(self.DESC)
            if name == "autocomp_input":
                return Ptr(self.INBUF, self.ac_in_off)
        if cls == "desc":
            if name == "io":
                return Ptr(self.IO)
            if name == "input_buffer":
                return Ptr(self.INBUF)
            if name == "output_buffer":
                return Ptr(self.OUTBUF)
            if name == "input_buffer_size":
                return self.IBS
            if name == "output_buffer_size":
                return self.OBS
            if name == "path_max_length":
                return self.PML
        key = ("init", base, off) + ((ep,) if ep else ())
        if (cls, name) in PTRCLS:
            pc = PTRCLS[(cls, name)]
            nullable = (cls, name) not in NONNULL
            if cls == "node" and name == "file_list":
                nullable = False
            if cls == "node" and name == "path":
                nullable = False
            return Ptr(psym(key, pc, nullable))
        hi = None
        w = size * 8
        if name in ("state", "write_next_state", "prompt_next_state", "autocomp_prev_state"):
            hi = self.S["_TOTAL_NUM"] - 1
        elif name == "escape_flag":
            hi = 1
        elif name in ("args_count", "process_index_item", "file_list_size", "process_data_size", "process_index",
                      "in_pos", "out_pos", "autocomp_count"):
            hi = (1 << 62)
        lo = 0
        if name in ("ansi_escape_state", "process_stage"):
            lo, hi = 0, 2
        return Lin.of(sym(key, lo=lo, hi=hi, w=w))

    def fptr(self, cls, off):
        f = self.field(cls, off)
        if not f:
            return False
        n = f[0]
        c = cls
        if n.startswith("buildin_commands."):
            n, c = n.split(".")[1], "node"
        return (c, n) in PTRCLS or n in ("desc", "autocomp_input", "io", "input_buffer", "output_buffer")

    def glob_init(self, st, base, off, width, isptr):
        g = base.meta
        if isinstance(off, int) and g.init is not None and g.const:
            for o, v, sz in g.init:
                if o == off:
                    if v[0] == 'c':
                        return C(v[1])
                    if v[0] == 'null':
                        return NULL
                    if v[0] == 'g':
                        return self.gptr(v[1], v[2], st)
                if v[0] == 'zero' and o <= off < o + v[1]:
                    return NULL if isptr else ZERO
        if isptr:
            return Ptr(psym(("init", base, off), "any", True))
        return Lin.of(sym(("init", base, off), lo=0))

    # ------------------------------------------------------------------ allocas
    def alloca(self, fr, I, st, n):
        cnt = self.lin(st, n)
        es = I.asize
        key = ("stk", fr.chain, fr.fn.name, I.id)
        if cnt == ONE and (es in (1, 2, 4, 8) or I.astruct):
            r = fr.allocas.get(I.id)
            if r is None:
                r = fr.allocas[I.id] = Region("local:%s:%d" % (fr.fn.name, I.id), "stack", C(es), kind="stack")
            # a fresh activation: forget the previous contents
            for ck in [c for c in st.cells if c[0] is r]:
                del st.cells[ck]
                st.written.discard(ck)
            st.zero.pop(r, None)
            return Ptr(r)
        size = cnt.scale(es)
        r = Region("array:%s:%s" % (fr.fn.name, I.line), "vla" if cnt != ONE else "larr", size, kind="buf",
                   meta={"esz": es, "fn": fr.fn.name, "line": I.line})
        st.bufs[r] = Buf(("new", r.name, fresh_id()), (), None, True)
        if not st.entails_ge(size - 1):
            self.ob('vlasize', False, st, I, fr, "variable length array may have size zero", r.name)
        return Ptr(r)

    # ------------------------------------------------------------------ region facts
    def size_of(self, st, base):
        if isinstance(base, Region):
            return base.size
        if base.cls in ("rostr",):
            return self.ro_len(st, base) + 1
        if base.cls == "arg":
            return self.ro_len(st, base) + 1
        if base.cls == "data":
            s = st.cells.get(("datasize", base))
            if s is not None:
                return s
            return Lin.of(sym(("datasize", base), lo=0))
        if base.cls == "wbuf":
            return Lin.of(sym(("wbufsize", base), lo=0))
        return None

    def ro_len(self, st, base):
        """length symbol of an immutable / initial string"""
        ver = self.ver0(base)
        if ("len", ver, ZERO) in st.strl:
            return st.nl(st.strl[("len", ver, ZERO)])
        L = Lin.of(sym(("len", ver, ZERO), lo=0, hi=(1 << 31) - 1))
        self.reg_zero(st, ver, ZERO, L)
        return L

    def ver0(self, base):
        return ("ro", base)

    def reg_zero(self, st, ver, off, L):
        """record: byte at off+L is the first NUL at or after off"""
        k = ("len", ver, off)
        if k in st.strl:
            return
        st.strl[k] = L
        z = st.nl(off + L)
        s = sym(("byte", ver, z), lo=0, hi=255, w=8)
        st.bytes[ver] = st.bytes.get(ver, ()) + ((z, s),)
        st.sets[s] = st.sets.get(s, FULL) & 1
        st.alls.append((ver, off, st.nl(off + L), NZ))

    def getbuf(self, st, base):
        b = st.bufs.get(base)
        if b is None:
            b = Buf(self.ver0(base), (), None, False)
            st.bufs[base] = b
        return b

    def is_buf(self, base):
        if isinstance(base, Region):
            return base.kind == "buf"
        return base.cls in ("rostr", "arg", "data", "wbuf", "any")

    def is_ro(self, base):
        return base.cls in ("rostr", "file", "desc", "io") or (isinstance(base, Region) and base.const)

    def esz(self, base):
        if isinstance(base, Region) and base.meta and "esz" in (base.meta if isinstance(base.meta, dict) else {}):
            return base.meta["esz"]
        return 1

    # ------------------------------------------------------------------ access checks
    def access(self, fr, I, st, p, n, what):
        """null and bounds obligations -> states in which the access is fine"""
        p = st.np(p)
        b = p.base
        if b is NULLB:
            self.ob('null', False, st, I, fr, "%s through a null pointer" % what)
            return []
        if isinstance(b, PSym):
            if b.key[0] in ("garbage", "undefp", "undefv"):
                self.ob('uninit', False, st, I, fr, "%s through an uninitialised pointer" % what)
                return []
            if not st.known_nonnull(Ptr(b)):
                self.ob('null', False, st, I, fr, "%s through a possibly null pointer (%s)" % (what, self.pname(b)))
                if not st.add_pne(Ptr(b), NULL):
                    return []
                return self.access2(fr, I, st, p, n, what)
            self.ob('null', True, st, I, fr, "%s through a pointer" % what)
        return self.access2(fr, I, st, p, n, what)

    def access2(self, fr, I, st, p, n, what):
        b = p.base
        if self.is_buf(b):
            sz = self.size_of(st, b)
            if sz is None:
                return [st]
            ok = st.entails_ge(p.off) and st.entails_ge(sz - p.off - n)
            if not ok and st.cnts:
                self.cnt_lemmas(st)
                ok = st.entails_ge(p.off) and st.entails_ge(sz - p.off - n)
            self.ob('bound', ok, st, I, fr, "%s of %s" % (what, self.bname(b)), self.bclass(b))
            if not ok:
                # continue on the in-bounds part only
                if not (st.add_ge(p.off) and st.add_ge(sz - p.off - n)):
                    return []
            return [st]
        if isinstance(b, Region) and isinstance(p.off, Lin) and p.off.isconst():
            ok = 0 <= p.off.c and p.off.c + n <= (b.size.c if b.size.isconst() else 1 << 60)
            self.ob('bound', ok, st, I, fr, "%s of %s" % (what, b.name), b.cls)
            if not ok:
                return []
            return [st]
        if b.cls == "file" or (isinstance(b, Region) and b.kind == "glob"):
            return self.file_access(fr, I, st, p, n, what)
        return [st]

    def file_access(self, fr, I, st, p, n, what):
        """file_list[i]: the index must be below the size of the owning node"""
        b = p.base
        if isinstance(b, Region):
            sz = b.size
            ok = st.entails_ge(p.off) and st.entails_ge(sz - p.off - n)
            self.ob('bound', ok, st, I, fr, "%s of %s" % (what, b.name), "file")
            return [st] if ok or (st.add_ge(p.off) and st.add_ge(sz - p.off - n)) else []
        k = b.key
        if k[0] == "init" and self.field_of(k[1], k[2]) == ("node", "file_list"):
            so = self.foff[("node", "file_list_size")]
            owner = k[1]
            o2 = so if owner is not self.SELF else self.bc + so
            res = []
            cell = st.cells.get((owner, o2))
            if cell is None:
                cell = self.init_value(st, owner, o2, 64, False)
            cnt = st.nl(self.lin(st, cell))
            base_off = (p.off.c // self.fsize) * self.fsize if all(v % self.fsize == 0 for _, v in p.off.t) else None
            if base_off is None:
                self.ob('bound', False, st, I, fr, "misaligned %s of a file list" % what, "file")
                return [st]
            idx = Lin(base_off // self.fsize, tuple((s, v // self.fsize) for s, v in p.off.t))
            ok = st.entails_ge(idx) and st.entails_ge(cnt - idx - 1)
            self.ob('bound', ok, st, I, fr, "%s of a file list" % what, "file")
            if not ok and not (st.add_ge(idx) and st.add_ge(cnt - idx - 1)):
                return []
        elif k[0] == "param_files":
            cnt = Lin.of(sym(("param_files_size",), lo=0))
            idx = Lin((p.off.c // self.fsize), tuple((s, v // self.fsize) for s, v in p.off.t))
            ok = st.entails_ge(idx) and st.entails_ge(cnt - idx - 1)
            self.ob('bound', ok, st, I, fr, "%s of a file list" % what, "file")
        return [st]

    def field_of(self, base, off):
        cls = base.cls
        if not isinstance(off, int):
            return None
        f = self.field(cls, off)
        if f is None:
            return None
        n = f[0]
        if n.startswith("buildin_commands."):
            return ("node", n.split(".")[1])
        return (cls, n)

    def pname(self, b):
        k = b.key
        if k and k[0] == "init":
            f = self.field_of(k[1], k[2] if isinstance(k[2], int) else
                              (k[2].c % self.fsize if k[1].cls == "file" else None))
            if f:
                return "%s.%s" % f
        return repr(b)[:60]

    def bname(self, b):
        if isinstance(b, Region):
            return {"INBUF": "the input buffer", "OUTBUF": "the output buffer"}.get(b.name, b.name)
        return {"rostr": "a read-only string (%s)" % self.pname(b), "arg": "a command argument",
                "data": "file data", "wbuf": "queued output"}.get(b.cls, b.cls)

    def note_store(self, fr, I, b):
        """effect log: which kind of object each store of the program reaches"""
        if isinstance(b, Region):
            k = "stack" if b.kind == "stack" else self.bclass(b) if b.kind == "buf" else b.cls
            nm = b.name
        else:
            k, nm = b.cls, b.cls
        self.stores.setdefault((I.file, I.line, fr.fn.name, k, nm), 0)
        self.stores[(I.file, I.line, fr.fn.name, k, nm)] += 1

    def bclass(self, b):
        return b.name if isinstance(b, Region) and b.name in ("INBUF", "OUTBUF") else \
            (("local:" + b.name) if isinstance(b, Region) and b.cls in ("vla", "larr") else b.cls)

    # ------------------------------------------------------------------ load / store
    def load(self, fr, I, st, p):
        if not isinstance(p, Ptr):
            p = self.as_ptr(st, p)
        n = I.bytes
        out = []
        for s in self.access(fr, I, st, p, n, "read"):
            out += self.load2(fr, I, s, s.np(p), n, I.width, I.isptr)
        return out

    def load2(self, fr, I, st, p, n, width, isptr):
        b = p.base
        if self.is_buf(b):
            if n != self.esz(b) and self.esz(b) != 1:
                raise Broken("element size mismatch")
            if n == 1:
                return self.read_byte(fr, I, st, b, p.off)
            if self.esz(b) == 1:
                if isptr:
                    return [(st, Ptr(psym(("unk", fresh_id()), "any", True)))]
                return [(st, Lin.of(sym(("unk", fresh_id()), lo=0)))]
            return self.read_elem(fr, I, st, b, p.off, isptr)
        return self.cell_load(fr, I, st, b, p.off, width, isptr)

    def positive(self, st, b, ok):
        """the counters known not to be zero where a pointer of the session is read"""
        if b is not self.SELF or not isinstance(ok, int) or not self.fptr("self", ok):
            return ()
        out = []
        for f in ("autocomp_count", "process_data_size"):
            k = self.foff.get(("self", f))
            v = st.cells.get((b, k)) if k is not None and (b, k) not in st.defs else None
            if isinstance(v, Lin) and st.entails_ge(v - ONE):
                out.append(f)
        return tuple(out)

    def cell_load(self, fr, I, st, b, off, width, isptr):
        off = st.nl(off)
        ok = off.c if off.isconst() else off
        if b.cls in ("self", "node") and (b, ok) not in st.defs and I is not None:
            st.reads = st.reads | {(b, ok, I.file, I.line, fr.fn.name, self.positive(st, b, ok))}
        v = st.cells.get((b, ok))
        if v is not None:
            v = st.nv(v)
            if v is UNDEF and I is not None:
                self.ob('uninit', False, st, I, fr, "read of uninitialised memory")
            return [(st, self.retype(v, isptr, width, st))]
        # may an earlier write through another pointer have hit this cell?
        outs = [(st, None)]
        if b.cls == "node" or (b is self.SELF and isinstance(ok, int) and self.bc <= ok < self.bc + self.nsize):
            for (b2, o2) in sorted(st.written, key=repr):
                if b2 is b or b2.cls not in ("node", "self"):
                    continue
                if b2 is self.SELF and not (self.bc <= o2 < self.bc + self.nsize):
                    continue
                fo = ok - (self.bc if b is self.SELF else 0)
                fo2 = o2 - (self.bc if b2 is self.SELF else 0)
                if fo != fo2:
                    continue
                nxt = []
                pa = Ptr(b, C(self.bc) if b is self.SELF else ZERO)
                pb = Ptr(b2, C(self.bc) if b2 is self.SELF else ZERO)
                for s, v in outs:
                    if v is not None:
                        nxt.append((s, v))
                        continue
                    c = self.pcond(s, s.np(pa), s.np(pb))
                    t, f = s.split(c)
                    for x in t:
                        nxt.append((x, x.nv(x.cells.get((x.np(pb).base, o2), x.cells.get((b2, o2))))))
                    nxt += [(x, None) for x in f]
                outs = nxt
        res = []
        for s, v in outs:
            if v is None:
                p2 = s.np(Ptr(b, off))
                b2 = p2.base
                ok2 = p2.off.c if p2.off.isconst() else p2.off
                v = s.cells.get((b2, ok2))
                if v is None:
                    if isinstance(b2, Region) and b2.kind == "stack":
                        if not isinstance(ok2, int):
                            raise Broken("local structure accessed at an unknown place")
                        if any(lo <= ok2 < hi for lo, hi in s.zero.get(b2, ())):
                            res.append((s, NULL if isptr else ZERO))
                            continue
                        self.ob('uninit', False, s, I, fr, "read of an uninitialised local")
                        v = Ptr(psym(("undefv", fresh_id()), "any", True)) if isptr else UNDEF
                        res.append((s, v))
                        continue
                    v = self.init_value(s, b2, ok2, width, isptr)
                    if isinstance(b2, Region) and b2.garbage and ((b2, ok2) not in s.written) and \
                            not any(lo <= ok2 < hi for lo, hi in s.zero.get(b2, ())):
                        self.ob('uninit', False, s, I, fr, "read of a never initialised field (%s)" %
                                (self.field(b2.cls, ok2) or ("?",))[0])
                    if self.field_of(b2, ok2 if isinstance(ok2, int) else None) != None or True:
                        s.cells[(b2, ok2)] = v
            res.append((s, self.retype(s.nv(v), isptr, width, s)))
        return res

    def retype(self, v, isptr, width, st):
        if isptr and not isinstance(v, Ptr):
            return self.as_ptr(st, v) if v is not UNDEF else Ptr(psym(("undefv", fresh_id()), "any", True))
        if not isptr and isinstance(v, Ptr):
            return self.lin(st, v)
        return v

    def store(self, fr, I, st, p, v):
        if not isinstance(p, Ptr):
            p = self.as_ptr(st, p)
        n = I.bytes
        if isinstance(v, tuple):
            t, f = st.split(v)
            out = []
            for s in t:
                out += self.store(fr, I, s, p, ONE)
            for s in f:
                out += self.store(fr, I, s, p, ZERO)
            return out
        out = []
        for s in self.access(fr, I, st, p, n, "write"):
            q = s.np(p)
            b = q.base
            self.note_store(fr, I, b)
            if not (isinstance(b, Region) and b.kind == "stack"):
                self.wrapuse(fr, I, s, v)
            elif not q.off.isconst():
                raise Broken("local structure accessed at an unknown place")
            if self.is_ro(b):
                self.ob('rostore', False, s, I, fr, "write to read-only %s" % (
                    b.name if isinstance(b, Region) else b.cls), b.cls)
                continue
            if self.is_buf(b):
                if n == 1:
                    out += self.write_byte(fr, I, s, b, q.off, v)
                else:
                    bf = self.getbuf(s, b)
                    s.bufs[b] = Buf(bf.ver, bf.log + ((q.off, v, n),), None, bf.undef)
                    out.append(s)
                continue
            if b.cls in ("self", "node"):
                ko = q.off.c if q.off.isconst() else q.off
                old = s.cells.get((b, ko))
                if old is None and isinstance(ko, int) and isinstance(v, Ptr):
                    old = self.init_value(s, b, ko, None, True)
                s.writes = s.writes + ((b, ko, v, I.file, I.line, fr.fn.name, old),)
            out += self.cell_store(s, b, q.off, v)
        return out

    def cell_store(self, st, b, off, v):
        off = st.nl(off)
        ok = off.c if off.isconst() else off
        if b.cls == "node" or (b is self.SELF and isinstance(ok, int) and self.bc <= ok < self.bc + self.nsize):
            # resolve aliasing with cells of other node pointers already looked at
            cur = [st]
            pa = Ptr(b, C(self.bc) if b is self.SELF else ZERO)
            fo = ok - (self.bc if b is self.SELF else 0)
            for (b2, o2) in sorted(st.cells, key=repr):
                if b2 is b or not hasattr(b2, "cls") or b2.cls not in ("node", "self") or not isinstance(o2, int):
                    continue
                if b2 is self.SELF and not (self.bc <= o2 < self.bc + self.nsize):
                    continue
                if o2 - (self.bc if b2 is self.SELF else 0) != fo:
                    continue
                pb = Ptr(b2, C(self.bc) if b2 is self.SELF else ZERO)
                nxt = []
                for s in cur:
                    c = self.pcond(s, s.np(pa), s.np(pb))
                    t, f = s.split(c)
                    nxt += t + f
                cur = nxt
            out = []
            for s in cur:
                p2 = s.np(Ptr(b, off))
                k = (p2.base, p2.off.c if p2.off.isconst() else p2.off)
                s.cells[k] = v
                s.written.add(k)
                s.defs = s.defs | {k}
                out.append(s)
            return out
        if b.cls == "self":
            st.defs = st.defs | {(b, ok)}
        if isinstance(b, Region) and b.kind == "glob" and not b.const:
            st.event('globstore', b.name)
        st.cells[(b, ok)] = v
        st.written.add((b, ok))
        return [st]

    # ------------------------------------------------------------------ byte buffers
    def byte_sym(self, st, ver, off):
        off = st.nl(off)
        for _ in range(8):
            hit = None
            for orig, lo in st.alias.get(ver, ()):
                if st.entails_ge(off - lo):
                    hit = orig
                    break
            if hit is None:
                break
            ver = hit
        for o, s in st.bytes.get(ver, ()):
            o2 = st.nl(o)
            if o2 == off:
                return s
        for o, s in st.bytes.get(ver, ()):
            if st.entails_eq(o, off):
                return s
        s = sym(("byte", ver, off), lo=0, hi=255, w=8)
        st.bytes[ver] = st.bytes.get(ver, ()) + ((off, s),)
        m = FULL
        for (v, lo, hi, am) in st.alls:
            if v == ver and st.entails_ge(off - lo) and st.entails_ge(hi - off - 1):
                m &= am
        # different from known bytes? (offsets distinct is not needed)
        if m != FULL:
            st.sets[s] = st.sets.get(s, FULL) & m
        return s

    def read_byte(self, fr, I, st, b, off):
        off = st.nl(off)
        if isinstance(b, Region) and b.string is not None:
            if off.isconst():
                if 0 <= off.c < len(b.string):
                    return [(st, C(b.string[off.c]))]
                return [(st, UNDEF)]
            self.ro_lit(st, b)
            return [(st, BF(self.byte_sym(st, self.ver0(b), off), IDT, 8))]
        if b.cls == "rostr":
            self.ro_len(st, b)
        elif b.cls == "arg" and b not in st.bufs:
            self.ro_len(st, b)
        bf = self.getbuf(st, b)
        cur = [st]
        res = []
        for (o, v, n) in bf.log[::-1]:
            nxt = []
            for s in cur:
                if s.entails_eq(o, off):
                    res.append((s, s.nv(v)))
                    continue
                if s.entails_ne(o, off):
                    nxt.append(s)
                    continue
                t, f = s.split(('eq', s.nl(o - off)))
                res += [(x, x.nv(v)) for x in t]
                nxt += f
            cur = nxt
        for s in cur:
            if bf.text is not None:
                v = self.text_byte(s, bf, off)
                if v is None and len(bf.text) > 1:
                    # which piece the position lies in is not decided: one case per piece
                    pos, rest = ZERO, [s]
                    for pc in bf.text:
                        n = self.plen(pc)
                        nxt = []
                        for x in rest:
                            ins = [x.copy()]
                            if not (ins[0].add_ge(x.nl(off - pos)) and ins[0].add_ge(x.nl(pos + n - 1 - off))):
                                nxt.append(x)
                                continue
                            v = self.text_byte(ins[0], bf, ins[0].nl(off))
                            if v is None:
                                nxt.append(x)
                                continue
                            res.append((ins[0], v))
                            y = x.copy()
                            if y.add_ge(x.nl(pos - 1 - off)):
                                nxt.append(y)
                            if x.add_ge(x.nl(off - pos - n)):
                                nxt.append(x)
                        rest = nxt
                        pos = s.nl(pos + n)
                    for x in rest:
                        v = self.text_byte(x, bf, x.nl(off))
                        if v is None:
                            v = BF(self.byte_sym(x, bf.ver, x.nl(off)), IDT, 8)
                        res.append((x, v))
                    continue
                if v is not None:
                    res.append((s, v))
                    continue
            if bf.undef:
                self.ob('uninit', False, s, I, fr, "read of uninitialised bytes of %s" % self.bname(b))
            res.append((s, BF(self.byte_sym(s, bf.ver, off), IDT, 8)))
        return res

    def text_byte(self, st, bf, off):
        pos = ZERO
        for pc in bf.text:
            if not off.isconst() and st.nl(pos) != off:
                pass
            if pc[0] == 'lit':
                d = st.nl(off - pos)
                if d.isconst() and 0 <= d.c < len(pc[1]):
                    return C(pc[1][d.c])
                if len(pc[1]) == 1 and st.entails_eq(d):
                    return C(pc[1][0])
            elif pc[0] == 'chr' and st.nl(off - pos) == ZERO:
                return st.nv(pc[1])
            elif pc[0] == 'str':
                d = st.nl(off - pos)
                if pc[1][0] is not None and st.entails_ge(d) and st.entails_ge(pc[2] - d - 1):
                    ver, o0 = pc[1]
                    if isinstance(ver, tuple) and ver[0] != 'lit':
                        bs = self.byte_sym(st, ver, st.nl(o0 + d))
                        st.add_set(bs, NZ)
                        return BF(bs, IDT, 8)
                elif pc is bf.text[-1] and pc[1][0] is not None and st.entails_ge(d) and st.entails_ge(pc[2] - d):
                    ver, o0 = pc[1]         # may be its terminating NUL
                    if isinstance(ver, tuple) and ver[0] != 'lit':
                        return BF(self.byte_sym(st, ver, st.nl(o0 + d)), IDT, 8)
            pos = st.nl(pos + self.plen(pc))
        if st.entails_eq(off - pos):
            return ZERO
        return None

    def ro_lit(self, st, b):
        ver = self.ver0(b)
        if ("len", ver, ZERO) not in st.strl:
            n = b.string.index(0) if 0 in b.string else len(b.string)
            self.reg_zero(st, ver, ZERO, C(n))
            for i, ch in enumerate(b.string[:n]):
                s = sym(("byte", ver, C(i)), lo=0, hi=255, w=8)
                st.bytes[ver] = st.bytes.get(ver, ()) + ((C(i), s),)
                st.sets[s] = 1 << ch

    def read_elem(self, fr, I, st, b, off, isptr):
        bf = self.getbuf(st, b)
        cur = [st]
        res = []
        for (o, v, n) in bf.log[::-1]:
            nxt = []
            for s in cur:
                if s.entails_eq(o, off):
                    res.append((s, s.nv(v)))
                elif s.entails_ne(o, off):
                    nxt.append(s)
                else:
                    t, f = s.split(('eq', s.nl(o - off)))
                    res += [(x, x.nv(v)) for x in t]
                    nxt += f
            cur = nxt
        for s in cur:
            if bf.undef:
                self.ob('uninit', False, s, I, fr, "read of an uninitialised element of %s" % self.bname(b))
            if isinstance(bf.ver, tuple) and bf.ver[0] == 'argv':
                argc = bf.ver[1]
                o = s.nl(off)
                idx = Lin(o.c // 8, tuple((q, k // 8) for q, k in o.t))
                # argv[argc] is NULL only when the caller stored it (that store is in the log)
                okr = s.entails_ge(idx) and s.entails_ge(argc - idx - 1)
                self.ob('argv', okr, s, I, fr, "argument index below the argument count")
                res.append((s, Ptr(psym(("arg", idx), "arg", False))))
                continue
            k = ("elem", bf.ver, s.nl(off))
            if isptr:
                res.append((s, Ptr(psym(k, "rostr" if isinstance(bf.ver, tuple) and 'loopv' in str(bf.ver[0]) else "any",
                                        False))))
            else:
                res.append((s, Lin.of(sym(k, lo=0))))
        return res

    def write_byte(self, fr, I, st, b, off, v):
        bf = self.getbuf(st, b)
        if b.cls == "arg":
            self.ro_len(st, b)
        log = bf.log
        # a store that certainly overwrites an older one makes it irrelevant
        keep = []
        for e in log:
            if st.nl(e[0]) == st.nl(off):
                continue
            keep.append(e)
        if len(keep) > 12:
            self.freeze(st, b)
            bf = self.getbuf(st, b)
            keep = []
        st.bufs[b] = Buf(bf.ver, tuple(keep) + ((st.nl(off), v, 1),), None if True else bf.text, bf.undef)
        if bf.text is not None and (st.nl(off) != ZERO or isinstance(v, (Lin, BF)) and cst(st.nv(v)) not in (None, 0)):
            # keep the base text below the log for byte reads
            st.bufs[b] = Buf(bf.ver, tuple(keep) + ((st.nl(off), v, 1),), bf.text, bf.undef)
        return [st]

    # -- counting: number of bytes of a class in a range of a buffer version
    def byte_class(self, st, ver, off, mask):
        off = st.nl(off)
        for o, bs in st.bytes.get(ver, ()):
            if st.nl(o) == off:
                m = st.sets.get(bs, FULL)
                if m & ~mask == 0:
                    return 1
                if m & mask == 0:
                    return 0
        return None

    def cnt_term(self, st, ver, mask, a, b):
        a, b = st.nl(a), st.nl(b)
        acc = 0
        for _ in range(8):
            if a == b:
                return C(acc)
            d = b - a
            if d.isconst() and d.c < 0:
                return Lin.of(sym(("cntbad", fresh_id()), lo=None))
            k = self.byte_class(st, ver, b - 1, mask)
            if k is None:
                break
            acc += k
            b = b - 1
        return self.cnt_sym(st, ver, mask, a, b) + acc

    def cnt_sym(self, st, ver, mask, a, b):
        s = sym(("cnt", ver, mask, a, b), lo=0)
        if not any(t[0] is s for t in st.cnts):
            st.cnts = st.cnts + ((s, ver, mask, a, b),)
        return Lin.of(s)

    def cnt_lemmas(self, st):
        for _ in range(3):
            n = len(st.cnts)
            for (s, ver, mask, a, b) in list(st.cnts):
                na, nb = st.nl(a), st.nl(b)
                if st.entails_ge(nb - na):
                    st.add_ge(nb - na - Lin.of(s))
                if not st.entails_ge(nb - na - 1):
                    if st.entails_eq(nb - na):
                        st.add_eq(Lin.of(s))
                    continue
                k = self.byte_class(st, ver, nb - 1, mask)
                if k is not None:
                    st.add_eq(Lin.of(s) - self.cnt_sym(st, ver, mask, na, nb - 1) - k)
                    continue
                k = self.byte_class(st, ver, na, mask)
                if k is not None:
                    st.add_eq(Lin.of(s) - self.cnt_sym(st, ver, mask, na + 1, nb) - k)
            ts = st.cnts
            for i, t in enumerate(ts):
                for u in ts[:i]:
                    if t[1] != u[1] or t[2] != u[2] or not st.entails_eq(t[3], u[3]):
                        continue
                    d = st.nl(t[4] - u[4])
                    if st.entails_ge(d):
                        st.add_ge(Lin.of(t[0]) - Lin.of(u[0]))
                    if st.entails_ge(-d):
                        st.add_ge(Lin.of(u[0]) - Lin.of(t[0]))
            if len(st.cnts) == n:
                break

    def freeze(self, st, b):
        """turn (version + log) into a new version, carrying over what is known about its bytes"""
        bf = self.getbuf(st, b)
        if not bf.log:
            return bf.ver
        ver = ("w", bf.ver, tuple((st.nl(o), self.vkey(st, v)) for o, v, n in bf.log))
        if ver not in st.bytes:
            lst = []
            for o, bs in st.bytes.get(bf.ver, ()):
                if all(st.entails_ne(o, wo) for wo, _, _ in bf.log):
                    # an unchanged byte keeps its identity
                    lst.append((st.nl(o), bs))
            done = []
            for wo, v, n in bf.log[::-1]:
                if any(not st.entails_ne(wo, d) for d in done):
                    done.append(wo)
                    continue
                done.append(wo)
                m = None
                c = cst(st.nv(v)) if isinstance(v, (Lin, BF)) else None
                if c is not None:
                    m = 1 << (c & 255)
                elif isinstance(v, BF) and all(v.tbl[i] & 255 == i for i in mask_vals(st.sets.get(v.s, FULL))):
                    lst.append((st.nl(wo), v.s))
                    continue
                elif isinstance(v, BF):
                    m = 0
                    for i in mask_vals(st.sets.get(v.s, FULL)):
                        m |= 1 << (v.tbl[i] & 255)
                if m is not None:
                    s2 = sym(("byte", ver, st.nl(wo)), lo=0, hi=255, w=8)
                    st.sets[s2] = m
                    lst.append((st.nl(wo), s2))
            st.bytes[ver] = tuple(lst)
            al = []
            for orig, lo in st.alias.get(bf.ver, ()):
                for c in [lo] + [st.nl(w + 1) for w, _, _ in bf.log]:
                    if st.entails_ge(c - lo) and all(st.entails_ge(c - 1 - w) for w, _, _ in bf.log):
                        al.append((orig, c))
                        break
            if al:
                st.alias[ver] = tuple(al)
            for (v, lo, hi, m) in list(st.alls):
                if v == bf.ver:
                    # keep the parts not touched by the writes
                    hit = []
                    for wo, wv, n in bf.log:
                        if st.entails_ge(lo - 1 - wo) or st.entails_ge(wo - hi):
                            continue
                        cw = cst(st.nv(wv)) if isinstance(wv, (Lin, BF)) else None
                        if cw is not None and m >> (cw & 255) & 1:
                            continue
                        hit.append(wo)
                    if not hit:
                        st.alls.append((ver, lo, hi, m))
                    for w in hit:
                        if st.entails_ge(hi - w) and all(st.entails_ge(x - w) for x in hit):
                            st.alls.append((ver, lo, st.nl(w), m))
                        if st.entails_ge(w + 1 - lo) and all(st.entails_ge(w - x) for x in hit):
                            st.alls.append((ver, st.nl(w + 1), hi, m))
        st.bufs[b] = Buf(ver, (), None, False)
        return ver

    def vkey(self, st, v):
        v = st.nv(v) if not isinstance(v, tuple) else v
        return v if isinstance(v, (Lin, BF, Ptr)) else repr(v)

    # ------------------------------------------------------------------ strings
    def plen(self, pc):
        if pc[0] == 'lit':
            return C(len(pc[1]))
        if pc[0] == 'chr':
            return ONE
        return pc[2] if pc[0] == 'str' else pc[3]

    def tlen(self, pieces):
        r = ZERO
        for p in pieces:
            r = r + self.plen(p)
        return r

    def zero_pos(self, st, p):
        """a position >= p.off known to hold NUL in the current contents (for immutable strings)"""
        p = st.np(p)
        b = p.base
        if b.cls == "rostr" or (b.cls == "arg" and b not in st.bufs):
            if isinstance(b, Region) and b.string is not None:
                return C(b.string.index(0))
            return self.ro_len(st, b)
        bf = st.bufs.get(b)
        if bf is None or bf.log:
            return None
        if bf.text is not None:
            return self.tlen(bf.text)
        k = ("len", bf.ver, ZERO)
        if k in st.strl:
            return st.strl[k]
        for o, s in st.bytes.get(bf.ver, ()):
            if st.sets.get(s, FULL) == 1 and st.entails_ge(o - p.off):
                return st.nl(o)
        return None

    def strlen(self, fr, I, st, p, what="strlen"):
        """-> [(state, Lin)]"""
        out = []
        for s in self.access(fr, I, st, p, 1, what):
            out += self.strlen2(fr, I, s, s.np(p))
        return out

    def strlen2(self, fr, I, st, p):
        b, off = p.base, p.off
        if isinstance(b, Region) and b.string is not None:
            if off.isconst():
                return [(st, C(b.string.index(0, off.c) - off.c))]
            self.ro_lit(st, b)
            return [(st, st.nl(C(b.string.index(0)) - off))]
        if b.cls == "rostr" or (b.cls == "arg" and b not in st.bufs):
            L0 = self.ro_len(st, b)
            if st.entails_ge(L0 - off) and st.entails_ge(off):
                return [(st, st.nl(L0 - off))]
            L = Lin.of(sym(("len", self.ver0(b), off), lo=0))
            return [(st, L)]
        bf = self.getbuf(st, b)
        if bf.text is not None and not bf.log:
            T = self.tlen(bf.text)
            if off == ZERO:
                return [(st, st.nl(T))]
            if st.entails_ge(T - off) and st.entails_ge(off):
                return [(st, st.nl(T - off))]
        if bf.log:
            # explicit walk over freshly written bytes
            r = self.walk(fr, I, st, b, off, bf)
            if r is not None:
                return r
            self.freeze(st, b)
            bf = self.getbuf(st, b)
        ver = bf.ver
        key = ("len", ver, st.nl(off))
        if key in st.strl:
            return [(st, st.nl(st.strl[key]))]
        # a NUL with only non-NUL bytes before it
        for o, bs in st.bytes.get(ver, ()):
            if st.sets.get(bs, FULL) == 1 and st.entails_ge(o - off) and self.prove_all(st, ver, off, o, NZ):
                L = st.nl(o - off)
                st.strl[key] = L
                return [(st, L)]
        if self.unroll and off.isconst():
            # every byte up to the NUL is known to be one or not
            known = {o.c: st.sets.get(bs, FULL) for o, bs in st.bytes.get(ver, ()) if o.isconst()}
            k = off.c
            while known.get(k, 1) & 1 == 0:
                k += 1
            if known.get(k) == 1:
                st.strl[key] = C(k - off.c)
                return [(st, C(k - off.c))]
        # relative to a known string start
        for (k0, v0, o0), L0 in list(st.strl.items()):
            if v0 == ver and st.entails_ge(off - o0) and st.entails_ge(o0 + L0 - off):
                return [(st, st.nl(o0 + L0 - off))]
        zs = [o for o, s in st.bytes.get(ver, ()) if st.sets.get(s, FULL) == 1 and st.entails_ge(o - off)]
        for orig, lo in st.alias.get(ver, ()):
            zs += [o for o, s in st.bytes.get(orig, ()) if st.sets.get(s, FULL) == 1 and st.entails_ge(o - off) and
                   st.entails_ge(o - lo)]
        sz = self.size_of(st, b)
        if not zs:
            self.ob('unterminated', False, st, I, fr, "string read of %s without a known terminator" % self.bname(b),
                    self.bclass(b))
        else:
            self.ob('unterminated', True, st, I, fr, "string read of %s" % self.bname(b), self.bclass(b))
        if bf.undef and not zs:
            self.ob('uninit', False, st, I, fr, "string read of uninitialised %s" % self.bname(b))
        L = Lin.of(sym(key, lo=0, hi=(1 << 31) - 1))
        for z in zs:
            st.add_ge(z - off - L)
        if sz is not None:
            st.add_ge(sz - 1 - off - L)
        self.reg_zero(st, ver, st.nl(off), L)
        return [(st, L)]

    def walk(self, fr, I, st, b, off, bf, maxn=6):
        """strlen by reading explicitly logged bytes; None when the text is not explicit"""
        cur = [(st.copy(), 0)]
        res = []
        maxn = max(maxn, min(len(bf.log), 64))
        self.quiet += 1
        try:
            for i in range(maxn + 1):
                nxt = []
                for s, n in cur:
                    o = s.nl(off + n)
                    hit = any(s.entails_eq(e[0], o) for e in s.bufs[b].log)
                    if not hit:
                        if bf.text is not None:
                            v = self.text_byte(s, bf, o)
                            if v is None:
                                return None
                        else:
                            return None
                    for s2, v in self.read_byte(fr, I, s, b, o):
                        c = self.byte_is(v, 1)
                        t, f = s2.split(c)
                        res += [(x, C(n)) for x in t]
                        nxt += [(x, n + 1) for x in f]
                cur = nxt
                if not cur:
                    return res
        finally:
            self.quiet -= 1
        return None

    def byte_is(self, v, mask):
        if isinstance(v, BF):
            return ('bs', v.s, mask_of(lambda i: mask >> (v.tbl[i] & 255) & 1))
        c = cst(v)
        if c is not None:
            return TRUE if mask >> (c & 255) & 1 else FALSE
        if isinstance(v, Lin):
            if mask == 1:
                return ('eq', v)
        return ('pred', ('undef', fresh_id()), True)

    def lit_region(self, text):
        k = ("lit", text)
        r = self.globs.get(k)
        if r is None:
            r = self.globs[k] = Region("str:%r" % text, "rostr", C(len(text) + 1), kind="buf", const=True,
                                       string=text + b"\0")
        return r

    def fullterm(self, st, p, term):
        """identity of the text by its pieces when known (for compound texts)"""
        b = st.np(p).base
        bf = st.bufs.get(b)
        if bf is not None and bf.text is not None and not bf.log:
            return ('text',) + tuple(self.pkey(st, x) for x in bf.text)
        return term

    def strterm(self, st, p):
        """identity of the string at p: a hashable key (contents, not location)"""
        p = st.np(p)
        b, off = p.base, p.off
        if isinstance(b, Region) and b.string is not None and off.isconst():
            return ('lit', b.string[off.c:b.string.index(0, off.c)])
        if b.cls == "rostr" or (b.cls == "arg" and b not in st.bufs):
            return (self.ver0(b), off)
        bf = self.getbuf(st, b)
        if bf.text is not None and not bf.log and off == ZERO:
            if len(bf.text) == 1 and bf.text[0][0] == 'str':
                return bf.text[0][1]
            if all(x[0] == 'lit' for x in bf.text):
                return ('lit', b"".join(x[1] for x in bf.text))
            return ('text',) + tuple(self.pkey(st, x) for x in bf.text)
        if bf.log:
            l = bf.log[-1]
            if st.nl(l[0]) == off and cst(l[1]) == 0:
                return ('lit', b"")
            self.freeze(st, b)
            bf = self.getbuf(st, b)
        return (bf.ver, off)

    def pkey(self, st, x):
        if x[0] == 'str':
            return ('str', x[1])
        if x[0] == 'lit':
            return x
        if x[0] == 'chr':
            return ('chr', self.vkey(st, x[1]))
        return (x[0], x[1], self.vkey(st, x[2]) if not isinstance(x[2], tuple) else x[2])

    def text_of(self, fr, I, st, p):
        """-> [(state, pieces)] NUL-terminated text at p"""
        p = st.np(p)
        b, off = p.base, p.off
        if isinstance(b, Region) and b.string is not None and off.isconst():
            return [(st, (('lit', b.string[off.c:b.string.index(0, off.c)]),))]
        if not (b.cls == "rostr" or (b.cls == "arg" and b not in st.bufs)):
            bf = self.getbuf(st, b)
            if bf.text is not None and not bf.log and off == ZERO:
                return [(st, self.merge(bf.text))]
            if bf.log:
                r = self.walk(fr, I, st, b, off, bf)
                if r is not None:
                    out = []
                    for s, L in r:
                        pcs = []
                        self.quiet += 1
                        for i in range(L.c):
                            s2, v = self.read_byte(fr, I, s, b, s.nl(off + i))[0]
                            c = cst(v)
                            pcs.append(('lit', bytes([c & 255])) if c is not None else ('chr', v))
                        self.quiet -= 1
                        out.append((s, self.merge(tuple(pcs))))
                    return out
        out = []
        self.quiet += 1
        try:
            for s, L in self.strlen2(fr, I, st, p):
                out.append((s, (('str', self.strterm(s, p), L),)))
        finally:
            self.quiet -= 1
        return out

    def merge(self, pieces):
        out = []
        for p in pieces:
            if p[0] == 'lit' and not p[1]:
                continue
            if p[0] == 'lit' and out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + p[1])
            else:
                out.append(p)
        return tuple(out)

    def put_text(self, fr, I, st, dst, pieces, what, checked=False):
        """write pieces + NUL at dst; bounds obligation; -> [states]"""
        dst = st.np(dst)
        b, off = dst.base, dst.off
        n = st.nl(self.tlen(pieces))
        sz = self.size_of(st, b)
        self.note_store(fr, I, b)
        if self.is_ro(b):
            self.ob('rostore', False, st, I, fr, "%s writes to read-only memory" % what, b.cls)
            return []
        if sz is not None and not checked:
            ok = st.entails_ge(off) and st.entails_ge(sz - off - n - 1)
            self.ob('bound', ok, st, I, fr, "%s into %s" % (what, self.bname(b)), self.bclass(b))
            if not ok:
                if not (st.add_ge(off) and st.add_ge(sz - off - n - 1)):
                    return []
        if not self.is_buf(b):
            raise Broken("%s into a structure" % what)
        bf = self.getbuf(st, b)
        if off == ZERO:
            new = self.merge(pieces)
        else:
            cur = None
            if bf.text is not None and not bf.log and st.entails_eq(self.tlen(bf.text), off):
                cur = bf.text
            elif bf.text is not None and bf.log and len(bf.log) <= 4 and (app := self.appended(st, bf, off)) is not None:
                cur = app
            elif off.isconst() and (bf.log and off.c <= 8 or self.unroll and 0 <= off.c <= max(64, self.unroll)):
                r = []
                self.quiet += 1
                for i in range(off.c):
                    q = self.read_byte(fr, I, st, b, C(i))
                    if len(q) != 1:
                        r = None
                        break
                    c = cst(q[0][1])
                    r.append(('lit', bytes([c & 255])) if c is not None else ('chr', q[0][1]))
                self.quiet -= 1
                cur = tuple(r) if r is not None else None
            if cur is not None:
                new = self.merge(cur + tuple(pieces))
            else:
                # unknown prefix
                over = self.getbuf(st, b)
                self.freeze(st, b)
                over = self.getbuf(st, b)
                ver = ("txt", b, fresh_id())
                lst = []
                for o, bs in st.bytes.get(over.ver, ()):
                    if st.entails_ge(off - 1 - o):
                        lst.append((st.nl(o), bs))
                st.bytes[ver] = tuple(lst)
                for (v, lo, hi, m) in list(st.alls):
                    if v == over.ver and st.entails_ge(off - hi):
                        st.alls.append((ver, lo, hi, m))
                for (k0, v0, o0), L0 in list(st.strl.items()):
                    # string that used to end exactly here is now extended
                    if v0 == over.ver and st.entails_eq(o0 + L0, off):
                        st.strl[("len", ver, o0)] = st.nl(L0 + n)
                self.reg_zero(st, ver, off, n)
                st.bufs[b] = Buf(ver, (), None, False)
                st.event('text', b, off, tuple(pieces))
                return [st]
        ver = ("txt", b, fresh_id())
        st.bufs[b] = Buf(ver, (), new, False)
        self.txtvers[ver] = new
        self.reg_zero(st, ver, ZERO, st.nl(self.tlen(new)))
        return [st]

    def appended(self, st, bf, off):
        """the text of a buffer with characters stored one by one behind it, up to off; None when not of this form"""
        T = st.nl(self.tlen(bf.text))
        at = {}
        for e in bf.log:
            d = st.nl(e[0] - T)
            if not d.isconst() and not st.entails_eq(e[0], T):
                return None
            at[d.c if d.isconst() else 0] = e[1]
        if sorted(at) != list(range(len(at))) or not st.entails_eq(T + len(at), off):
            return None
        out = bf.text
        for k in range(len(at)):
            v = at[k] if isinstance(at[k], int) else cst(st.nv(at[k]))
            if v is None or v & 255 == 0:
                return None
            out += (('lit', bytes([v & 255])),)
        return out

    def cut_text(self, st, b):
        """(pieces, cut): the text of buffer b, possibly shortened by one NUL stored at cut; None when not of this form"""
        bf = st.bufs.get(b)
        if bf is None:
            return None
        if bf.text is not None and not bf.log:
            return (bf.text, None)
        text, log = bf.text, [(st.nl(e[0]), cst(st.nv(e[1]))) for e in bf.log]
        ver = bf.ver
        if text is None:
            while ver not in self.txtvers and ver[0] == 'w':
                log = [(st.nl(o), cst(v) if not isinstance(v, int) else v) for o, v in ver[2]] + log
                ver = ver[1]
            text = self.txtvers.get(ver)
        if text is None or any(v != 0 for _, v in log) or len({o for o, _ in log}) != 1:
            return None
        return (text, log[0][0])

    # ------------------------------------------------------------------ calls
    def call(self, fr, I, regs, st):
        cal = I.callee
        if cal[0] == 'g':
            name = cal[1]
        else:
            name = None
            fp = self.val(fr, regs, cal, st)
        if name is None:
            args = [self.val(fr, regs, o, st) for o in I.ops]
            return self.icall(fr, I, st, fp, args)
        return self.dcall(fr, I, regs, st, name)

    def dcall(self, fr, I, regs, st, name, args=None):
        if args is None:
            args = [self.val(fr, regs, o, st) for o in I.ops]
        self.callsites.setdefault((fr.fn.name, I.file, I.line, name), 0)
        self.callsites[(fr.fn.name, I.file, I.line, name)] += 1
        c = self.contract_fns.get(name)
        f = self.mod.functions.get(name)
        if f is None and name.startswith("ush_libc_"):
            f = libc().functions.get(name)
        if c is not None and f is not None and not f.decl:
            self.used_contracts.add(name)
            if args and isinstance(args[0], Ptr) and st.np(args[0]).base is self.SELF:
                new = frozenset((self.SELF, o, fl, ln, fn, ()) for o, fl, ln, fn in self.static_reads(name)
                                if (self.SELF, o) not in st.defs)
                if new - st.reads:
                    st.reads = st.reads | new
            return c(self, fr, I, st, args)
        if f is not None and not f.decl:
            st.mark((I.file, I.line, "-> " + name))
            if not self.recursion and (fr.fn.name == name or fr.chain.count(name) >= 2):
                if "ush_deinit" in fr.chain and f.ret == "void":
                    return c_deinit(self, fr, I, st, args)      # what it does to the tree is decided by C19
                raise Broken("recursive call of %s" % name)
            return self.run_fn(f, args, st, fr.chain, fr.depth + 1)
        h = getattr(self, "libc_" + name.replace(".", "_"), None)
        if name.startswith("llvm."):
            h = self.intrinsic(name)
        for a in args:
            self.wrapuse(fr, I, st, a)
        if h is None and "ush_libc_" + name in libc().functions:
            return self.run_fn(libc().functions["ush_libc_" + name], args, st, fr.chain, fr.depth + 1)
        if h is None:
            raise Broken("call of unmodelled external function %s (%s:%s)" % (name, I.file, I.line))
        return h(fr, I, st, args)

    def static_reads(self, name, seen=()):
        """session fields a summarised function may read, from its code: loads at constant offsets from its first
        parameter, its own and those of the functions it hands the session to"""
        if name in self.sreads:
            return self.sreads[name]
        f = self.mod.functions.get(name)
        out = set()
        if f is None or f.decl or name in seen:
            return out
        for b in f.blocks:
            for I in b.insts:
                if I.op == 'load' and I.ops[0] == ('a', 0):
                    out.add((0, I.file, I.line, name))
                elif I.op == 'load' and I.ops[0][0] == 'i':
                    g = next((J for B in f.blocks for J in B.insts if J.id == I.ops[0][1]), None)
                    if g is not None and g.op == 'gep' and g.gep[0] == ('a', 0) and not g.gep[2]:
                        out.add((g.gep[1], I.file, I.line, name))
                elif I.op == 'call' and I.callee and I.callee[0] == 'g' and I.ops and I.ops[0] == ('a', 0):
                    out |= self.static_reads(I.callee[1], seen + (name,))
        if not seen:
            self.sreads[name] = out
        return out

    def intrinsic(self, name):
        for p, h in (("llvm.memcpy", self.libc_memcpy), ("llvm.memmove", self.libc_memcpy),
                     ("llvm.memset", self.libc_memset)):
            if name.startswith(p):
                return h
        for p in ("llvm.va_start", "llvm.va_end", "llvm.lifetime", "llvm.stackrestore", "llvm.va_copy", "llvm.assume"):
            if name.startswith(p):
                return lambda fr, I, st, a: [(st, None)]
        if name.startswith("llvm.stacksave"):
            return lambda fr, I, st, a: [(st, Ptr(psym(("stacksave",), "any", False)))]
        return None

    # -- libc ---------------------------------------------------------------
    def libc_strlen(self, fr, I, st, a):
        return self.strlen(fr, I, st, a[0])

    def libc_strnlen(self, fr, I, st, a):
        out = []
        for s, L in self.strlen(fr, I, st, a[0]):
            n = self.lin(s, a[1])
            t, f = s.split(('ge', s.nl(n - L)))
            out += [(x, L) for x in t] + [(x, x.nl(n)) for x in f]
        return out

    def libc_strcpy(self, fr, I, st, a, what="strcpy"):
        out = []
        for s in self.access(fr, I, st, a[1], 1, what + " source"):
            for s2, t in self.text_of_checked(fr, I, s, a[1]):
                for s3 in self.access_d(fr, I, s2, a[0], what):
                    for s4 in self.put_text(fr, I, s3, a[0], t, what):
                        out.append((s4, a[0]))
        return out

    def access_d(self, fr, I, st, p, what):
        """null check of a destination (bounds are checked by put_text)"""
        p = st.np(p)
        if p.base is NULLB or (isinstance(p.base, PSym) and p.base.key[0] in ("garbage", "undefp", "undefv")):
            self.ob('null', False, st, I, fr, "%s through a null pointer" % what)
            return []
        if isinstance(p.base, PSym) and not st.known_nonnull(Ptr(p.base)):
            self.ob('null', False, st, I, fr, "%s through a possibly null pointer" % what)
            return [st] if st.add_pne(Ptr(p.base), NULL) else []
        return [st]

    def text_of_checked(self, fr, I, st, p):
        out = []
        for s, L in self.strlen2(fr, I, st, st.np(p)):
            out += self.text_of(fr, I, s, p)
        return out

    def libc_strcat(self, fr, I, st, a, what="strcat"):
        out = []
        for s, L in self.strlen(fr, I, st, a[0], what + " destination"):
            d = s.np(a[0])
            for s1 in self.access(fr, I, s, a[1], 1, what + " source"):
                for s2, t in self.text_of_checked(fr, I, s1, a[1]):
                    for s3 in self.put_text(fr, I, s2, Ptr(d.base, s2.nl(d.off + L)), t, what):
                        out.append((s3, a[0]))
        return out

    def libc_strncpy(self, fr, I, st, a):
        n = self.lin(st, a[2])
        out = []
        for s in self.access(fr, I, st, a[1], 1, "strncpy source"):
            for s2, L in self.strlen2(fr, I, s, s.np(a[1])):
                d = s2.np(a[0])
                sz = self.size_of(s2, d.base)
                ok = sz is None or (s2.entails_ge(d.off) and s2.entails_ge(sz - d.off - n))
                self.ob('bound', ok, s2, I, fr, "strncpy into %s" % self.bname(d.base), self.bclass(d.base))
                t, f = s2.split(('ge', s2.nl(n - L - 1)))
                for x in t:
                    for y, tx in self.text_of(fr, I, x, a[1]):
                        out += [(z, a[0]) for z in self.put_text(fr, I, y, a[0], tx, "strncpy", True)]
                for x in f:
                    x.bufs[d.base] = Buf(("trunc", fresh_id()), (), None, False)
                    out.append((x, a[0]))
        return out

    def libc_strncat(self, fr, I, st, a):
        n = self.lin(st, a[2])
        out = []
        for s, L in self.strlen(fr, I, st, a[0], "strncat destination"):
            d = s.np(a[0])
            for s2, M in self.strlen(fr, I, s, a[1], "strncat source"):
                t, f = s2.split(('ge', s2.nl(n - M)))
                for x in t:
                    for y, tx in self.text_of(fr, I, x, a[1]):
                        out += [(z, a[0]) for z in self.put_text(fr, I, y, Ptr(d.base, y.nl(d.off + L)), tx, "strncat")]
                for x in f:
                    tx = (('cut', ('strn', self.strterm(x, a[1])), x.nl(n), x.nl(n)),)
                    out += [(z, a[0]) for z in self.put_text(fr, I, x, Ptr(d.base, x.nl(d.off + L)), tx, "strncat")]
        return out

    def libc_strcmp(self, fr, I, st, a):
        out = []
        for s in self.access(fr, I, st, a[0], 1, "strcmp"):
            for s1 in self.access(fr, I, s, a[1], 1, "strcmp"):
                for s2, L in self.strlen2(fr, I, s1, s1.np(a[0])):
                    for s3, M in self.strlen2(fr, I, s2, s2.np(a[1])):
                        k = [cst(s3.nl(x)) for x in (L, M)]
                        if self.unroll and None not in k and self.strterm(s3, a[0]) != self.strterm(s3, a[1]):
                            out += self.cmp_bytes(fr, I, s3, a[0], a[1], min(k) + 1)
                            continue
                        out += self.cmp_terms(fr, I, s3, a[0], a[1])
        return out

    def cmp_bytes(self, fr, I, st, pa, pb, n):
        """comparison of n bytes one by one"""
        cur, out = [st], []
        self.quiet += 1
        try:
            for i in range(n):
                nxt = []
                for s in cur:
                    p, q = s.np(pa), s.np(pb)
                    for s1, x in self.read_byte(fr, I, s, p.base, s.nl(p.off + i)):
                        for s2, y in self.read_byte(fr, I, s1, q.base, s1.nl(q.off + i)):
                            x2, y2 = s2.nv(x), s2.nv(y)
                            if cst(y2) is not None:
                                c = self.byte_is(x2, 1 << (cst(y2) & 255))
                            elif cst(x2) is not None:
                                c = self.byte_is(y2, 1 << (cst(x2) & 255))
                            elif x2 == y2:
                                c = TRUE
                            else:
                                c = ('eq', self.bytes_eq(s2.nl(self.lin(s2, x2) - self.lin(s2, y2))))
                            t, f = s2.split(c)
                            nxt += t
                            out += f
                cur = nxt
        finally:
            self.quiet -= 1
        return [(s, ZERO) for s in cur] + [(s, self.nonzero(("strcmp", fresh_id()), s)) for s in out]

    def cmp_terms(self, fr, I, st, pa, pb):
        ta, tb = self.strterm(st, pa), self.strterm(st, pb)
        if ta == tb:
            return [(st, ZERO)]
        if ta[0] == 'lit' and tb[0] == 'lit':
            return [(st, C(1 if ta[1] > tb[1] else -1))]
        for x, px, y in ((ta, pa, tb), (tb, pb, ta)):
            if y[0] == 'lit' and len(y[1]) <= self.max_strcmp_lit:
                # decide byte by byte
                cur = [st]
                out = []
                p = st.np(px)
                self.quiet += 1
                for i, ch in enumerate(y[1] + b"\0"):
                    nxt = []
                    for s in cur:
                        for s2, v in self.read_byte(fr, I, s, p.base, s.nl(p.off + i)):
                            t, f = s2.split(self.byte_is(v, 1 << ch))
                            nxt += t
                            out += f
                    cur = nxt
                self.quiet -= 1
                return [(s, ZERO) for s in cur] + \
                    [(s, self.nonzero(("strcmp", fresh_id()), s)) for s in out]
        x, y = sorted([ta, tb], key=repr)
        key = ("streq", x, y)
        e = Lin.of(sym(("strcmp", x, y), lo=-255, hi=255, w=32))
        return [(st, e)]

    def nonzero(self, key, st):
        s = sym(key, lo=1, hi=255, w=32)
        return Lin.of(s)

    def libc_strncmp(self, fr, I, st, a):
        n = self.lin(st, a[2])
        out = []
        for s in self.access(fr, I, st, a[0], 1, "strncmp"):
            for s1 in self.access(fr, I, s, a[1], 1, "strncmp"):
                for s2, L in self.strlen2(fr, I, s1, s1.np(a[0])):
                    for s3, M in self.strlen2(fr, I, s2, s2.np(a[1])):
                        k = [cst(s3.nl(x)) for x in (n, L, M)]
                        if self.unroll and None not in k:
                            out += self.cmp_bytes(fr, I, s3, a[0], a[1], min(k[0], k[1] + 1, k[2] + 1))
                            continue
                        ta, tb = self.strterm(s3, a[0]), self.strterm(s3, a[1])
                        if s3.entails_ge(n - L - 1) or s3.entails_ge(n - M - 1) or \
                                (s3.entails_eq(L, M) and s3.entails_ge(n - L)):
                            out += self.cmp_terms(fr, I, s3, a[0], a[1])
                            continue
                        if s3.entails_eq(n, L):
                            e = Lin.of(sym(("prefixcmp", ta, tb), lo=-255, hi=255, w=32))
                        elif s3.entails_eq(n, M):
                            e = Lin.of(sym(("prefixcmp", tb, ta), lo=-255, hi=255, w=32))
                        else:
                            e = Lin.of(sym(("strncmp", ta, tb, s3.nl(n)), lo=-255, hi=255, w=32))
                        if s3.entails_eq(n, L) or s3.entails_eq(n, M):
                            # equal up to the length of one text: the other one is at least as long
                            lem = M - L if s3.entails_eq(n, L) else L - M
                            t, f = s3.split(('eq', s3.nl(e)))
                            for x in t:
                                if x.add_ge(lem):
                                    out.append((x, ZERO))
                            out += [(x, e) for x in f]
                            continue
                        out.append((s3, e))
        return out

    def esz_is1(self, st, p):
        b = st.np(p).base
        return b.cls in ("rostr", "arg", "str") or (isinstance(b, Region) and b.string is not None) or \
            (b in st.bufs and self.esz(b) == 1) or (self.is_buf(b) and self.esz(b) == 1)

    def libc_memcmp(self, fr, I, st, a):
        n = self.lin(st, a[2])
        out = []
        for s in self.access(fr, I, st, a[0], 0, "memcmp"):
            for s1 in self.access(fr, I, s, a[1], 0, "memcmp"):
                bad = False
                for p in (a[0], a[1]):
                    q = s1.np(p)
                    sz = self.size_of(s1, q.base)
                    ok = sz is None or s1.entails_ge(sz - q.off - n)
                    self.ob('bound', ok, s1, I, fr, "memcmp of %s" % self.bname(q.base), self.bclass(q.base))
                    if not ok and not s1.add_ge(sz - q.off - n):
                        bad = True
                if bad:
                    continue
                k = cst(s1.nl(n))
                if self.unroll and k is not None and all(self.esz_is1(s1, p) for p in (a[0], a[1])):
                    out += self.cmp_bytes(fr, I, s1, a[0], a[1], k)
                    continue
                ta, tb = self.strterm(s1, a[0]), self.strterm(s1, a[1])
                done = False
                if all(self.esz_is1(s1, p) for p in (a[0], a[1])):
                    self.quiet += 1
                    try:
                        ls = [self.strlen2(fr, I, s1.copy(), s1.np(p)) for p in (a[0], a[1])]
                    finally:
                        self.quiet -= 1
                    if all(len(l) == 1 for l in ls):
                        L, M = ls[0][0][1], ls[1][0][1]
                        if s1.entails_eq(L, M) and (s1.entails_eq(n, L) or s1.entails_eq(n, L + 1)):
                            out += self.cmp_terms(fr, I, s1, a[0], a[1])
                            done = True
                        elif s1.entails_eq(n, L):
                            out.append((s1, Lin.of(sym(("prefixcmp", ta, tb), lo=-255, hi=255, w=32))))
                            done = True
                        elif s1.entails_eq(n, M):
                            out.append((s1, Lin.of(sym(("prefixcmp", tb, ta), lo=-255, hi=255, w=32))))
                            done = True
                if not done:
                    out.append((s1, Lin.of(sym(("memcmp", ta, tb, s1.nl(n)), lo=-255, hi=255, w=32))))
        return out

    def libc_strchr(self, fr, I, st, a, last=False):
        out = []
        for s, L in self.strlen(fr, I, st, a[0], "strchr"):
            p = s.np(a[0])
            c = cst(s.nv(a[1]))
            if c is None:
                raise Broken("strchr of a variable character")
            m = 1 << (c & 255)
            n = cst(s.nl(L))
            if self.unroll and n is not None:
                cur = [s]
                idx = range(n + 1)
                for i in (reversed(idx) if last else idx):
                    nxt = []
                    for s1 in cur:
                        for s2, x in self.read_byte(fr, I, s1, p.base, s1.nl(p.off + i)):
                            y, no = s2.split(self.byte_is(s2.nv(x), m))
                            out += [(s3, Ptr(p.base, s3.nl(p.off + i))) for s3 in y]
                            nxt += no
                    cur = nxt
                out += [(s1, NULL) for s1 in cur]
                continue
            if p.base.cls not in ("rostr",):
                bf = self.getbuf(s, p.base)
                if bf.log:
                    self.freeze(s, p.base)
                ver = self.getbuf(s, p.base).ver
                if p.base.cls == "arg" and p.base not in s.bufs:
                    ver = self.ver0(p.base)
            else:
                ver = self.ver0(p.base)
                if isinstance(p.base, Region) and p.base.string is not None:
                    self.ro_lit(s, p.base)
            k = Lin.of(sym(("strchr", last, ver, p.off, c), lo=0))
            s1 = s.copy()
            if c == 0:
                out.append((s, Ptr(p.base, s.nl(p.off + L))))
                continue
            ok = s1.add_ge(L - 1 - k)
            if ok:
                b = self.byte_sym(s1, ver, s1.nl(p.off + k))
                if s1.add_set(b, m):
                    if last:
                        s1.alls.append((ver, s1.nl(p.off + k + 1), s1.nl(p.off + L), FULL & ~m))
                    else:
                        s1.alls.append((ver, p.off, s1.nl(p.off + k), FULL & ~m))
                    good = True
                    for o, bs in s1.bytes.get(ver, ()):
                        if not s1._byte_refined(bs, s1.sets.get(bs, FULL)):
                            good = False
                    if good:
                        out.append((s1, Ptr(p.base, s1.nl(p.off + k))))
            s.alls.append((ver, p.off, s.nl(p.off + L), FULL & ~m))
            good = True
            for o, bs in s.bytes.get(ver, ()):
                if s.entails_ge(o - p.off) and s.entails_ge(p.off + L - 1 - o):
                    if not s.add_set(bs, FULL & ~m):
                        good = False
            if good:
                out.append((s, NULL))
        return out

    def libc_strrchr(self, fr, I, st, a):
        return self.libc_strchr(fr, I, st, a, True)

    def libc_memset(self, fr, I, st, a):
        p = st.np(a[0])
        n = cst(st.nv(a[2]))
        v = cst(st.nv(a[1])) if not isinstance(a[1], tuple) else None
        out = []
        for s in self.access(fr, I, st, p, 1, "memset"):
            b = s.np(p).base
            self.note_store(fr, I, b)
            if self.is_ro(b):
                self.ob('rostore', False, s, I, fr, "memset of read-only memory", b.cls)
                continue
            if b.cls in ("self", "node"):
                if n is None or v != 0 or not p.off.isconst():
                    raise Broken("memset of a structure with unusual arguments")
                lim = self.ssize if b.cls == "self" else self.nsize
                o = s.np(p).off.c
                self.ob('bound', o + n <= lim, s, I, fr, "memset of a structure", b.cls)
                s.event('memset', b, o, n, I.file, I.line)
                cur = [s]
                if b.cls == "node":
                    for off, (nm, sz) in sorted(self.fields["node"].items()):
                        if o <= off < o + n:
                            nxt = []
                            for x in cur:
                                nxt += self.cell_store(x, x.np(Ptr(b)).base, C(off), NULL if self.fptr("node", off) else ZERO)
                            cur = nxt
                else:
                    for off, (nm, sz) in sorted(self.fields["self"].items()):
                        if o <= off < o + n:
                            s.cells[(b, off)] = NULL if self.fptr("self", off) else ZERO
                            s.written.add((b, off))
                            s.defs = s.defs | {(b, off)}
                    s.zero[b] = s.zero.get(b, ()) + ((o, o + n),)
                    s.writes = s.writes + tuple((b, off, ZERO, I.file, I.line, fr.fn.name)
                                                for off in self.fields["self"] if o <= off < o + n)
                out += [(x, a[0]) for x in cur]
                continue
            if isinstance(b, Region) and b.kind == "stack":
                for k in [k for k in s.cells if k[0] is b]:
                    del s.cells[k]
                if v == 0 and n is not None and p.off.isconst():
                    s.zero[b] = s.zero.get(b, ()) + ((p.off.c, p.off.c + n),)
                else:
                    s.cells[(b, 0)] = UNDEF
                s.written.add((b, 0))
                out.append((s, a[0]))
                continue
            nl = self.lin(s, a[2])
            sz = self.size_of(s, b)
            ok = sz is None or s.entails_ge(sz - p.off - nl)
            self.ob('bound', ok, s, I, fr, "memset of %s" % self.bname(b), self.bclass(b))
            bf = self.getbuf(s, b)
            if v == 0 and s.entails_ge(nl - 1) and p.off == ZERO:
                ver = ("txt", b, fresh_id())
                s.bufs[b] = Buf(ver, (), (), False)
                self.reg_zero(s, ver, ZERO, ZERO)
            else:
                ver = ("mset", fresh_id())
                s.bufs[b] = Buf(ver, (), None, False)
                if v is not None:
                    s.alls.append((ver, p.off, s.nl(p.off + nl), 1 << (v & 255)))
            out.append((s, a[0]))
        return out

    def libc_memcpy(self, fr, I, st, a):
        n = self.lin(st, a[2])
        out = []
        src0, dst0 = st.np(a[1]), st.np(a[0])
        for s in self.access(fr, I, st, a[1], 0, "memcpy source"):
            src = s.np(a[1])
            if self.is_buf(src.base):
                sz = self.size_of(s, src.base)
                ok = sz is None or (s.entails_ge(src.off) and s.entails_ge(sz - src.off - n))
                self.ob('bound', ok, s, I, fr, "memcpy from %s" % self.bname(src.base), self.bclass(src.base))
                if not ok and not s.add_ge(sz - src.off - n):
                    continue
            for s2 in self.access_d(fr, I, s, a[0], "memcpy"):
                dst = s2.np(a[0])
                b = dst.base
                self.note_store(fr, I, b)
                if self.is_ro(b):
                    self.ob('rostore', False, s2, I, fr, "memcpy to read-only memory", b.cls)
                    continue
                if not self.is_buf(b):
                    if b.cls in ("self", "node") or isinstance(b, Region) and b.kind == "stack":
                        out += [(x, a[0]) for x in self.copy_struct(fr, I, s2, dst, s2.np(a[1]), n)]
                        continue
                sz = self.size_of(s2, b)
                if sz is not None:
                    ok = s2.entails_ge(dst.off) and s2.entails_ge(sz - dst.off - n)
                    self.ob('bound', ok, s2, I, fr, "memcpy into %s" % self.bname(b), self.bclass(b))
                    if not ok and not s2.add_ge(sz - dst.off - n):
                        continue
                # whole NUL terminated string?
                done = False
                if self.is_buf(src.base) and (src.base.cls in ("rostr", "arg") or src.base in s2.bufs or
                                              src.base in (self.INBUF, self.OUTBUF)):
                    self.quiet += 1
                    r = self.strlen2(fr, I, s2.copy(), src)
                    self.quiet -= 1
                    if len(r) == 1 and r[0][0].entails_eq(r[0][1] + 1, n):
                        s3 = r[0][0]
                        for s4, t in self.text_of(fr, I, s3, src):
                            for s5 in self.put_text(fr, I, s4, dst, t, "memcpy", True):
                                out.append((s5, a[0]))
                        done = True
                    elif len(r) == 1 and r[0][0].entails_ge(r[0][1] - n) and isinstance(src.base, Region) and \
                            src.base.string is None or False:
                        pass
                if not done and self.unroll and n.isconst() and 0 <= n.c <= max(64, self.unroll) and self.is_buf(src.base) and \
                        self.esz_is1(s2, src) and self.esz_is1(s2, dst):
                    out += [(x, a[0]) for x in self.copy_bytes(fr, I, s2, dst, s2.np(a[1]), n.c)]
                    continue
                if not done:
                    s2.bufs[b] = Buf(("cpy", fresh_id()), (), None, False)
                    out.append((s2, a[0]))
        return out

    def copy_bytes(self, fr, I, st, dst, src, n):
        """a block of known size, byte by byte (all read before the first is written)"""
        cur = [(st, ())]
        for i in range(n):
            nxt = []
            for s, vs in cur:
                nxt += [(s2, vs + (v,)) for s2, v in self.read_byte(fr, I, s, src.base, s.nl(src.off + i))]
            cur = nxt
        out = []
        for s, vs in cur:
            ss = [s]
            for i, v in enumerate(vs):
                ss = [y for x in ss for y in self.write_byte(fr, I, x, dst.base, x.nl(dst.off + i), v)]
            out += ss
        return out

    def copy_struct(self, fr, I, st, dst, src, n):
        """assignment of a whole structure, field by field"""
        n = cst(st.nl(n))
        if n is None or not dst.off.isconst() or not src.off.isconst() or self.is_buf(src.base):
            raise Broken("structure copy of unknown extent")
        for side in (dst, src):
            fl = self.fields.get(side.base.cls)
            if fl:
                rel = sorted(k - side.off.c for k in fl if side.off.c <= k < side.off.c + n)
                cls, at = side.base.cls, side.off.c
                break
        else:
            rel = sorted(k[1] - src.off.c for k in st.cells if k[0] is src.base and isinstance(k[1], int) and
                         src.off.c <= k[1] < src.off.c + n)
            cls = None
            for lo, hi in st.zero.get(src.base, ()):
                st.zero[dst.base] = st.zero.get(dst.base, ()) + ((lo - src.off.c + dst.off.c, hi - src.off.c + dst.off.c),)
        if dst.base.cls in ("self", "node"):
            lim = self.ssize if dst.base.cls == "self" else self.nsize
            self.ob('bound', dst.off.c + n <= lim, st, I, fr, "copy into a structure", dst.base.cls)
        cur = [st]
        for r in rel:
            isptr = self.fptr(cls, at + r) if cls else isinstance(st.cells.get((src.base, src.off.c + r)), Ptr)
            size = self.fields[cls][at + r][1] if cls else 8
            nxt = []
            for s in cur:
                for s2, v in self.cell_load(fr, I, s, src.base, C(src.off.c + r), size * 8, isptr):
                    d = s2.np(Ptr(dst.base, C(dst.off.c + r)))
                    nxt += self.cell_store(s2, d.base, d.off, v)
            cur = nxt
        for s in cur:
            s.writes = s.writes + tuple((dst.base, dst.off.c + r, s.cells.get((dst.base, dst.off.c + r)), I.file, I.line, fr.fn.name)
                                        for r in rel if dst.base is self.SELF)
        return cur

    libc_memmove = libc_memcpy

    # -- formatted output -----------------------------------------------------
    def parse_fmt(self, f):
        out = []
        i = 0
        lit = b""
        while i < len(f):
            if f[i:i + 1] != b"%":
                lit += f[i:i + 1]
                i += 1
                continue
            if f[i + 1:i + 2] == b"%":
                lit += b"%"
                i += 2
                continue
            j = i + 1
            while f[j:j + 1] in (b"-", b"0", b"+", b" ", b"#"):
                j += 1
            while f[j:j + 1].isdigit() or f[j:j + 1] in (b".", b"*"):
                j += 1
            while f[j:j + 1] in (b"l", b"h", b"z", b"j", b"t"):
                j += 1
            conv = f[j:j + 1]
            if lit:
                out.append(('lit', lit))
                lit = b""
            out.append(('conv', f[i:j + 1], conv))
            i = j + 1
        if lit:
            out.append(('lit', lit))
        return out

    def fmt_pieces(self, fr, I, st, fmt, args):
        """-> [(state, pieces)]"""
        p = st.np(fmt)
        if not (isinstance(p.base, Region) and p.base.string is not None and p.off.isconst()):
            raise Broken("non constant format string (%s:%s)" % (I.file, I.line))
        f = p.base.string[p.off.c:p.base.string.index(0, p.off.c)]
        res = [(st, ())]
        k = 0
        for it in self.parse_fmt(f):
            nxt = []
            if it[0] == 'lit':
                res = [(s, t + (it,)) for s, t in res]
                continue
            spec, conv = it[1], it[2]
            import re
            m = re.match(rb"%([-0+ #]*)(\d*|\*)(?:\.(\d+|\*))?[lhzjt]*(.)", spec)
            flags, width, prec = m.group(1), int(m.group(2).replace(b"*", b"") or 0), m.group(3)
            if b"*" in spec and prec == b"*":
                k += 1
            elif b"*" in spec:
                wv = cst(st.nv(args[k])) if k < len(args) and not isinstance(args[k], tuple) else None
                if wv is None or prec is not None or not 0 <= wv < 256:
                    raise Broken("format width *")
                k += 1
                width = wv
                spec = spec.replace(b"*", b"%d" % wv)
            if k >= len(args):
                self.ob('format', False, st, I, fr, "format consumes more arguments than given")
                return []
            a = args[k]
            for s, t in res:
                a2 = s.nv(a) if not isinstance(a, tuple) else a
                if conv == b"s":
                    if not isinstance(a2, Ptr):
                        self.ob('format', False, s, I, fr, "%s given a non pointer")
                        continue
                    for s1, L in self.strlen(fr, I, s, a2, "%s argument"):
                        for s2, tx in self.text_of(fr, I, s1, a2):
                            if prec is not None:
                                w = Lin.of(sym(("fmtlen", spec, fresh_id()), lo=0))
                                if prec != b"*":
                                    s2.add_ge(C(int(prec)) - w)
                                else:
                                    s2.add_ge(self.lin(s2, args[k - 1]) - w)
                                s2.add_ge(L - w)
                                nxt.append((s2, t + (('fmt', spec, tx, w),)))
                            elif width == 0:
                                nxt.append((s2, t + tx))
                            else:
                                tt, ff = s2.split(('ge', s2.nl(L - width)))
                                for x in tt:
                                    nxt.append((x, t + (('fmt', spec, tx, x.nl(L)),)))
                                for x in ff:
                                    nxt.append((x, t + (('fmt', spec, tx, C(width)),)))
                elif conv == b"c" and width <= 1:
                    c = cst(a2)
                    if c is not None:
                        nxt.append((s, t + (('lit', bytes([c & 255])),)))
                    else:
                        nxt.append((s, t + (('chr', a2),)))
                elif conv in b"xXudio":
                    e = self.lin(s, a2)
                    mx = 24
                    if conv in b"xX" and isinstance(a2, BF):
                        vals = [a2.tbl[i] for i in mask_vals(s.sets.get(a2.s, FULL))]
                        if max(vals) <= 255 and width >= 2:
                            mx = width
                    if conv in b"xX":
                        mx2 = 16 if b"l" in spec or b"z" in spec or b"j" in spec else 8
                        mx = min(mx, mx2) if mx == 24 else mx
                    mx = max(mx, width)
                    lo = max(width, 1)
                    L = C(mx) if lo == mx else Lin.of(sym(("fmtlen", spec, e), lo=lo, hi=mx))
                    nxt.append((s, t + (('fmt', spec, a2 if not isinstance(a2, Ptr) else e, L),)))
                else:
                    raise Broken("format %r" % spec)
            res = nxt
            k += 1
        return [(s, self.merge(t)) for s, t in res]

    def libc_sprintf(self, fr, I, st, a):
        out = []
        for s0 in self.access_d(fr, I, st, a[0], "sprintf"):
            for s, t in self.fmt_pieces(fr, I, s0, a[1], a[2:]):
                for s2 in self.put_text(fr, I, s, a[0], t, "sprintf"):
                    out.append((s2, s2.nl(self.tlen(t))))
        return out

    def libc_snprintf(self, fr, I, st, a):
        out = []
        for s0 in self.access_d(fr, I, st, a[0], "snprintf"):
            for s, t in self.fmt_pieces(fr, I, s0, a[2], a[3:]):
                out += self.bounded_put(fr, I, s, a[0], self.lin(s, a[1]), t, "snprintf")
        return out

    def bounded_put(self, fr, I, st, dst, n, t, what):
        d = st.np(dst)
        sz = self.size_of(st, d.base)
        T = st.nl(self.tlen(t))
        out = []
        if sz is not None:
            # the bytes really written are min(n, T+1)
            ok = st.entails_ge(d.off) and (st.entails_ge(sz - d.off - n) or st.entails_ge(sz - d.off - T - 1))
            self.ob('bound', ok, st, I, fr, "%s into %s" % (what, self.bname(d.base)), self.bclass(d.base))
            if not ok:
                if not (st.add_ge(d.off) and st.add_ge(sz - d.off - n)):
                    return []
        full, cut = st.split(('ge', st.nl(n - T - 1)))
        for s in full:
            for s2 in self.put_text(fr, I, s, dst, t, what, True):
                out.append((s2, s2.nl(T)))
        for s in cut:
            z, nz = s.split(('eq', s.nl(n)))
            for x in z:
                out.append((x, x.nl(T)))
            for x in nz:
                tt = (('cut', tuple(self.pkey(x, q) for q in t), None, x.nl(n - 1)),)
                if x.entails_eq(n, ONE):
                    tt = ()
                for y in self.put_text(fr, I, x, dst, tt, what, True):
                    y.event('cut', what, I.file, I.line)
                    out.append((y, y.nl(T)))
        return out

    def libc_vsnprintf(self, fr, I, st, a):
        """user formatted text: any length, or an error"""
        n = self.lin(st, a[1])
        out = []
        for s in self.access_d(fr, I, st, a[0], "vsnprintf"):
            r = Lin.of(sym(("vsnprintf", fresh_id()), lo=0, hi=(1 << 31) - 1, w=32))
            t = (('fmt', b"user", ('user', r), r),)
            s1 = s.copy()
            for s2, v in self.bounded_put(fr, I, s1, a[0], n, t, "vsnprintf"):
                s2.event('vsn', 'ok', a[0], n, r)
                out.append((s2, s2.nl(r)))
            # error: negative result, the buffer holds some terminated text
            z, nz = s.split(('eq', s.nl(n)))
            for x in z:
                x.event('vsn', 'error', a[0], n, ZERO)
                out.append((x, C(-1)))
            for x in nz:
                L = Lin.of(sym(("vsnerr", fresh_id()), lo=0))
                if not x.add_ge(n - 1 - L):
                    continue
                for y in self.put_text(fr, I, x, a[0], (('fmt', b"error", ('err', L), L),), "vsnprintf", True):
                    y.event('vsn', 'error', a[0], n, L)
                    out.append((y, C(-1)))
        return out

    def libc_fprintf(self, fr, I, st, a):
        st.event('stderr', I.file, I.line)
        return [(st, ZERO)]

    def libc_exit(self, fr, I, st, a):
        self.ob('assert', False, st, I, fr, "assertion can fail")
        return []

    libc_abort = libc_exit
    libc___assert_fail = libc_exit

    # -- indirect calls -------------------------------------------------------
    def icall(self, fr, I, st, fp, args):
        fp = st.np(fp) if isinstance(fp, Ptr) else self.as_ptr(st, fp)
        b = fp.base
        if b is NULLB:
            self.ob('nullcall', False, st, I, fr, "call through a null function pointer")
            return []
        if isinstance(b, Region) and b.kind == "fn":
            return self.dcall(fr, I, {}, st, b.name[3:], args)
        if not isinstance(b, PSym) or b.key[0] not in ("init",):
            self.ob('nullcall', False, st, I, fr, "call through an uninitialised function pointer")
            return []
        src, off = b.key[1], b.key[2]
        o = off if isinstance(off, int) else (off.c % self.fsize)
        f = self.field(src.cls, o)
        name = "%s.%s" % (src.cls, f[0] if f else o)
        if not st.known_nonnull(fp):
            self.ob('nullcall', False, st, I, fr, "%s called without a null check" % name)
            if not st.add_pne(fp, NULL):
                return []
        else:
            self.ob('nullcall', True, st, I, fr, "%s called" % name)
        return self.callback(fr, I, st, name, src, off, args)

    def callback(self, fr, I, st, name, src, off, args):
        nargs = tuple(st.nv(a) if not isinstance(a, tuple) else a for a in args)
        snap = self.snapshot(st)
        for a in nargs:
            self.wrapuse(fr, I, st, a)
        if name == "io.read":
            out = []
            s0 = st.copy()
            s0.event('read', 0, nargs, snap)
            out.append((s0, ZERO))
            dst = st.np(args[1])
            n = len([e for e in st.events if e[0] == 'read'])
            ch = BF(sym(("byte", ("read", n), ZERO), lo=0, hi=255, w=8), IDT, 8)
            st.event('read', 1, nargs, snap, ch)
            for s in self.access(fr, I, st, dst, 1, "io.read result"):
                if self.is_buf(dst.base):
                    out += [(x, ONE) for x in self.write_byte(fr, I, s, dst.base, dst.off, ch)]
                else:
                    out += [(x, ONE) for x in self.cell_store(s, dst.base, dst.off, ch)]
            return out
        if name == "io.write":
            s0 = st.copy()
            s0.event('write', 0, nargs, snap)
            st.event('write', 1, nargs, snap)
            return [(s0, ZERO), (st, ONE)]
        if name == "file.get_data":
            out = []
            key = (src, off, st.havocs, len([e for e in st.events if e[0] == 'get_data']))
            n = Lin.of(sym(("getsize",) + key, lo=0, hi=(1 << 31) - 1))
            d = psym(("data",) + key, "data", False)
            cell = st.np(args[2])
            # may return 0 without touching the pointer
            s0 = st.copy()
            s0.event('get_data', src, off, nargs, snap, ZERO, None)
            out.append((s0, ZERO))
            st.event('get_data', src, off, nargs, snap, n, d)
            st.cells[("datasize", d)] = n
            for s in self.access(fr, I, st, cell, 8, "get_data result"):
                if cell.base is self.SELF:
                    s.writes = s.writes + ((self.SELF, cell.off.c, Ptr(d), I.file, I.line, fr.fn.name),)
                for x in self.cell_store(s, cell.base, cell.off, Ptr(d)):
                    out.append((x, n))
            return out
        if name == "file.set_data":
            content = None
            q = nargs[2] if len(nargs) > 2 and isinstance(nargs[2], Ptr) else None
            if q is not None and q.base in st.bufs:
                bf = st.bufs[q.base]
                content = (q.base, bf.ver, bf.log, bf.text, bf.undef)
            st.event('set_data', src, off, nargs, snap, content)
            if self.havoc_on_cb:
                self.havoc_fsm(st)
            return [(st, None)]
        if name in ("file.exec", "desc.exec", "file.process"):
            st.event(name.split(".")[1] if name != "desc.exec" else "desc_exec", src, off, nargs, snap, I.file, I.line)
            if self.havoc_on_cb:
                self.havoc_fsm(st)
            return [(st, None)]
        raise Broken("indirect call of %s" % name)

    def snapshot(self, st):
        return {f: st.cells.get((self.SELF, self.foff[("self", f)])) for f in
                ("state", "write_pos", "in_pos", "out_pos", "write_next_state", "prompt_next_state", "process_stage",
                 "process_node", "process_child_node")}

    def havoc_fsm(self, st):
        """a user callback may use the public API: the FSM, the queue and the tree may change"""
        st.havocs += 1
        for f in ("state", "write_next_state", "prompt_next_state", "write_buf", "write_size", "write_pos",
                  "current_node", "root", "commands", "process_node", "process_child_node", "process_file",
                  "process_index", "process_index_item", "process_data", "process_data_size", "process_stage"):
            k = (self.SELF, self.foff[("self", f)])
            st.cells.pop(k, None)
            st.written.discard(k)
        st.epoch["self"] = ("cb", st.havocs)
        st.epoch["node"] = ("cb", st.havocs)
        for ck in [c for c in st.cells if hasattr(c[0], "cls") and c[0].cls == "node"]:
            del st.cells[ck]
            st.written.discard(ck)
        st.bufs.pop(self.OUTBUF, None)
        st.bufs[self.OUTBUF] = Buf(("cb", st.havocs), (), None, False)


# ----------------------------------------------------------------------------------------------- contracts
def tree_epoch(m, st):
    return st.havocs


def c_get_absolute_path(m, fr, I, st, a):
    """out receives the absolute, collapsed form of the argument; needs path_max_length bytes"""
    out = []
    for s in m.access(fr, I, st, a[1], 1, "path argument"):
        for s1, L in m.strlen2(fr, I, s, s.np(a[1])):
            d = s1.np(a[2])
            sz = m.size_of(s1, d.base)
            ok = sz is None or (s1.entails_ge(d.off) and s1.entails_ge(sz - d.off - m.PML))
            m.ob('bound', ok, s1, I, fr, "absolute path written into %s" % m.bname(d.base), m.bclass(d.base))
            cwd = m.field_val(s1, "current_node")
            t = ('abs', (cwd, tree_epoch(m, s1)), m.strterm(s1, a[1]))
            s1.event('abs', t)
            n = Lin.of(sym(("len", t, ZERO), lo=0, hi=(1 << 31) - 1))
            s1.add_ge(m.PML - 1 - n)
            for x in m.put_text(fr, I, s1, a[2], (('str', (t, ZERO), n),), "absolute path", True):
                out.append((x, None))
    return out


def _lookup(m, fr, I, st, a, kind, cls):
    out = []
    for s in m.access(fr, I, st, a[1], 1, "lookup name"):
        for s1, L in m.strlen2(fr, I, s, s.np(a[1])):
            t = m.strterm(s1, a[1])
            cwd = m.field_val(s1, "current_node") if kind == "file" else None
            key = (kind, (cwd, tree_epoch(m, s1)), t)
            nf = s1.copy()
            for x in nf.assume(('pred', ("found",) + key, False)):
                x.event('lookup', kind, t, False)
                out.append((x, NULL))
            for x in s1.assume(('pred', ("found",) + key, True)):
                p = Ptr(psym(key, cls, False, meta="tree"))
                x.event('lookup', kind, t, True)
                out.append((x, p))
    return out


def c_get_by_path(m, fr, I, st, a):
    return _lookup(m, fr, I, st, a, "node", "node")


def c_get_parent_by_path(m, fr, I, st, a):
    return _lookup(m, fr, I, st, a, "parent", "node")


def c_find_by_name(m, fr, I, st, a):
    return _lookup(m, fr, I, st, a, "file", "file")


def c_path_last(m, fr, I, st, a):
    out = []
    for s, L in m.strlen(fr, I, st, a[0], "path"):
        p = s.np(a[0])
        ver = m.strterm(s, p)
        if ver[0] == 'lit':
            t = ver[1]
            k = t.rfind(b"/") + 1 if len(t) != 1 else 0
            out.append((s, Ptr(p.base, p.off + k)))
            continue
        k = Lin.of(sym(("lastseg", ver), lo=0))
        s.add_ge(L - k)
        out.append((s, Ptr(p.base, s.nl(p.off + k))))
    return out


def c_startswith(m, fr, I, st, a):
    out = []
    for s in m.access(fr, I, st, a[0], 1, "startswith"):
        for s1 in m.access(fr, I, s, a[1], 1, "startswith"):
            for s2, L in m.strlen2(fr, I, s1, s1.np(a[0])):
                for s3, M in m.strlen2(fr, I, s2, s2.np(a[1])):
                    key = ("prefix", m.strterm(s3, a[1]), m.strterm(s3, a[0]))
                    x = s3.copy()
                    for y in x.assume(('pred', key, True)):
                        y.event('startswith', key, True)
                        if y.add_ge(L - M):
                            out.append((y, TRUE))
                    for y in s3.assume(('pred', key, False)):
                        y.event('startswith', key, False)
                        out.append((y, FALSE))
    return out


def c_last_arg(m, fr, I, st, a):
    out = []
    for s, L in m.strlen(fr, I, st, a[0], "input line"):
        p = s.np(a[0])
        k = Lin.of(sym(("lastarg", m.strterm(s, p)), lo=0))
        s.add_ge(L - k)
        out.append((s, Ptr(p.base, s.nl(p.off + k))))
    return out


def c_get_args(m, fr, I, st, a):
    """argv[0..argc-1] receive the argument strings; needs args_count elements"""
    argc = m.lin(st, m.field_val(st, "args_count"))
    p = st.np(a[1])
    if p.base is NULLB:
        return [(st, argc)]
    sz = m.size_of(st, p.base)
    ok = st.entails_ge(p.off) and st.entails_ge(sz - p.off - argc.scale(8))
    m.ob('bound', ok, st, I, fr, "argument vector written into %s" % m.bname(p.base), m.bclass(p.base))
    st.event('get_args', argc)
    st.bufs[p.base] = Buf(("argv", argc), (), None, False)
    return [(st, argc)]


def c_decode_ascii(m, fr, I, st, a):
    out = []
    mx = m.lin(st, a[2])
    for s, L in m.strlen(fr, I, st, a[0], "text to decode"):
        d = s.np(a[1])
        n = Lin.of(sym(("decoded", m.strterm(s, a[0]), s.nl(mx)), lo=0))
        s.add_ge(mx - n)
        s.add_ge(L - n)
        sz = m.size_of(s, d.base)
        lim = None
        ok = sz is None or s.entails_ge(sz - d.off - mx) or s.entails_ge(sz - d.off - L)
        m.ob('bound', ok, s, I, fr, "decoded text written into %s" % m.bname(d.base), m.bclass(d.base))
        same = s.np(a[0]) == d
        src = m.strterm(s, a[0])
        s.event('decode', src, s.nl(mx), s.np(a[0]), d, n)
        ver = ("dec", src, s.nl(mx))
        s.bufs[d.base] = Buf(ver, (), None, False)
        if same:
            # the old terminator is still at L, decoded bytes (any value) occupy [0,n)
            z = sym(("byte", ver, s.nl(d.off + L)), lo=0, hi=255, w=8)
            s.bytes[ver] = ((s.nl(d.off + L), z),)
            s.sets[z] = 1
            s2 = s.copy()
            # when n == L nothing shrank: the byte at n is the terminator; otherwise it is stale text
        out.append((s, n))
    return out


def c_levels_count(m, fr, I, st, a):
    """number of path levels: 0 for "/" and "", otherwise 1 + number of '/' after the first character"""
    out = []
    for s in m.access(fr, I, st, a[0], 1, "path"):
        for s1, L in m.strlen2(fr, I, s, s.np(a[0])):
            p = s1.np(a[0])
            term = m.strterm(s1, a[0])
            if term[0] == 'lit':
                t = term[1]
                out.append((s1, C(0 if t in (b"/", b"") else 1 + t[1:].count(b"/"))))
                continue
            m.quiet += 1
            r = m.cmp_terms(fr, I, s1.copy(), a[0], Ptr(m.lit_region(b"/")))
            m.quiet -= 1
            LV = Lin.of(sym(("levels", term), lo=0, hi=(1 << 31) - 1))
            for s2, e in r:
                z = s2.copy()
                if z.add_eq(e):
                    z.event('levels', term, 0)
                    out.append((z, ZERO))
                nz = s2
                if not nz.add_ne(e):
                    continue
                e0, e1 = nz.split(('eq', nz.nl(L)))
                for x in e0:
                    x.event('levels', term, 0)
                    out.append((x, ZERO))
                for x in e1:
                    x.event('levels', term, 1)
                    x.add_ge(LV - 1)
                    x.add_ge(L - LV)
                    if isinstance(term[0], tuple) and len(term) == 2 and isinstance(term[1], Lin):
                        o = x.nl(term[1])
                        x.add_eq(LV - 1 - m.cnt_sym(x, term[0], 1 << ord('/'), o + 1, x.nl(o + L)))
                    out.append((x, LV))
    return out


def c_path_level(m, fr, I, st, a):
    """out receives the first `level` levels of the path; needs strlen(path)+1 bytes"""
    lv = m.lin(st, a[0])
    out = []
    for s in m.access(fr, I, st, a[1], 1, "path"):
        for s1, L in m.strlen2(fr, I, s, s.np(a[1])):
            term = m.strterm(s1, a[1])
            z, nz = s1.split(('eq', s1.nl(lv)))
            for x in z:
                for y in m.put_text(fr, I, x, a[2], (('lit', b"/"),), "path level"):
                    out.append((y, None))
            for x in nz:
                d = x.np(a[2])
                sz = m.size_of(x, d.base)
                ok = sz is None or (x.entails_ge(d.off) and x.entails_ge(sz - d.off - L - 1))
                m.ob('bound', ok, x, I, fr, "path level written into %s" % m.bname(d.base), m.bclass(d.base))
                t = ('level', x.nl(lv), term)
                n = Lin.of(sym(("len", t, ZERO), lo=0, hi=(1 << 31) - 1))
                x.add_ge(L - n)
                for y in m.put_text(fr, I, x, a[2], (('str', (t, ZERO), n),), "path level", True):
                    out.append((y, None))
    return out


def c_path_upper(m, fr, I, st, a):
    """the path is cut to its parent in place"""
    out = []
    for s, L in m.strlen(fr, I, st, a[0], "path"):
        term = m.strterm(s, a[0])
        d = s.np(a[0])
        t = ('upper', term)
        n = Lin.of(sym(("len", t, ZERO), lo=0, hi=(1 << 31) - 1))
        s.add_ge(L - n)
        for y in m.put_text(fr, I, s, a[0], (('str', (t, ZERO), n),), "parent path", True):
            out.append((y, None))
    return out


def c_collapse(m, fr, I, st, a):
    """out receives the collapsed form of the absolute path; needs strlen(path)+1 bytes (at least 2)"""
    out = []
    for s, L in m.strlen(fr, I, st, a[0], "path to collapse"):
        src0 = None
        if s.np(a[0]).off == ZERO:
            src0 = m.cut_text(s, s.np(a[0]).base)
        term = m.strterm(s, a[0])
        src = s.np(a[0])
        d = s.np(a[1])
        sz = m.size_of(s, d.base)
        ok = sz is None or (s.entails_ge(d.off) and s.entails_ge(sz - d.off - L - 1) and s.entails_ge(sz - d.off - 2))
        m.ob('bound', ok, s, I, fr, "collapsed path written into %s" % m.bname(d.base), m.bclass(d.base))
        m.ob('vlasize', s.entails_ge(L - 1), s, I, fr, "path to collapse is not empty", None)
        t = ('collapse', m.fullterm(s, a[0], term))
        n = Lin.of(sym(("len", t, ZERO), lo=1, hi=(1 << 31) - 1))
        s.add_ge(L - n)
        s.event('collapse', t, src0)
        if m.is_buf(src.base) and not m.is_ro(src.base):
            s.bufs[src.base] = Buf(("split", fresh_id()), (), None, False)
        for y in m.put_text(fr, I, s, a[1], (('str', (t, ZERO), n),), "collapsed path", True):
            out.append((y, None))
    return out


def c_deinit(m, fr, I, st, a):
    """the whole subtree list is cleared (subtrees are disjoint from the nodes being walked)"""
    st.event('deinit', st.np(a[1]) if isinstance(a[1], Ptr) else a[1], I.file, I.line)
    return [(st, None)]


CONTRACTS = {"ush_node_deinit_recursive": c_deinit, "ush_utils_get_path_levels_count": c_levels_count, "ush_utils_get_path_level": c_path_level,
             "ush_utils_path_upper": c_path_upper, "ush_utils_get_collapse_path": c_collapse,
             "ush_node_get_absolute_path": c_get_absolute_path, "ush_node_get_by_path": c_get_by_path,
             "ush_node_get_parent_by_path": c_get_parent_by_path, "ush_file_find_by_name": c_find_by_name,
             "ush_utils_path_last": c_path_last, "ush_utils_startswith": c_startswith,
             "ush_utils_get_last_arg": c_last_arg, "ush_parse_get_args": c_get_args,
             "ush_utils_decode_ascii": c_decode_ascii}


def _field_val(self, st, name):
    k = (self.SELF, self.foff[("self", name)])
    v = st.cells.get(k)
    if v is None:
        v = self.init_value(st, self.SELF, k[1], None, None)
        st.cells[k] = v
    return st.nv(v)


Model.field_val = _field_val


POSIX_DEFS = ["-DUSH_CONFIG_PLATFORM_POSIX"]
ARDUINO_DEFS = ["-DARDUINO"]


class Workdir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="ushlint.")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


_cache = {}


def libc():
    """C library functions described in C"""
    if "libc" not in _cache:
        with Workdir() as d:
            _cache["libc"] = compile_module([], d, [os.path.join(os.path.dirname(os.path.abspath(__file__)), "libc.c")], "libc")
    return _cache["libc"]


def platform(config):
    return config if isinstance(config, str) else config[0]


VARIANT = ()      # macro settings applied on top of every configuration: (("USH_CONFIG_...", value), ...)


def config_header(path, plat, settings):
    """the platform's configuration file with some settings changed"""
    with open(path, "w") as f:
        f.write('#include "config/%s/ush_config.h"\n' % plat)
        for k, v in settings:
            f.write("#undef %s\n#define %s %s\n" % (k, k, v))
    return path


def get(config="arduino"):
    """compiled module + layout for one configuration (asserts compiled out for 'arduino'); a configuration is a
    platform name or (platform, ((macro, value), ...))"""
    if config in _cache:
        return _cache[config]
    plat = platform(config)
    defs = {"posix": POSIX_DEFS, "arduino": ARDUINO_DEFS}[plat]
    settings = VARIANT + (() if isinstance(config, str) else tuple(config[1]))
    with Workdir() as d:
        if settings:
            h = config_header(os.path.join(d, "ushlint_config.h"), plat, settings)
            defs = defs + ['-DUSH_CONFIG_CUSTOM_FILE="%s"' % h]
        ac = str(dict(settings).get("USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE", 1)) == "1"
        P = probe(defs, d, ac)
        P["autocomp"] = ac
        m = compile_module(defs, d)
    _cache[config] = (m, P)
    return m, P


def new(config="arduino", contracts=None):
    m, P = get(config)
    M = Model(m, P, P["autocomp"])
    if contracts is None:
        M.contract_fns = dict(CONTRACTS)
    else:
        M.contract_fns = {k: CONTRACTS[k] for k in contracts}
    return M
