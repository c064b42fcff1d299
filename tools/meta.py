#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; the results are committed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
S = "src/src/"
K = S + "commands/"


def P(title, statement, over, text, why, files, mech, technique, note, na=None):
    return dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, note=note, na=na)


TRUST = ("Trusts clang's IR for the default configuration of the headers, the models of the C library functions, and "
         "the documented preconditions (DESIGN.md): positive buffer sizes, valid strings from the application, acyclic "
         "tree. ")
AI = "abstract interpretation of the LLVM IR"

T = {}

T["C01"] = P(
    "Line input never leaves the input buffer",
    "Whatever bytes arrive and however long the line is, the session never reads or writes outside the input buffer "
    "supplied by the application, for every buffer size of at least two bytes. The text it treats as the current line is "
    "always terminated inside that buffer while a line is edited, completed, parsed and handed to a command.",
    ["inputs", "histories", "configurations"],
    "all byte sequences of any length, all input buffer sizes >= 2, all interleavings of editing, completion and parsing",
    "the unit tests stub the neighbouring modules and use one buffer size and a few dozen sequences; an overrun needs a "
    "particular fill level and key sequence",
    [S + "ush_read_char.c", S + "ush_read_utils.c", S + "ush_parse.c", S + "ush_parse_char.c",
     S + "ush_autocomp_state.c", S + "ush_autocomp_utils.c"],
    [("append / erase at the input position", S + "ush_read_utils.c"), ("argument unescaping in place", S + "ush_parse_char.c"),
     ("completion appends to the line", S + "ush_autocomp_utils.c")],
    AI + ": inductive line-buffer invariant per state, bound obligations on every access",
    "Proof over every abstract path of one step from every state; the invariant is re-proved on every step. ")

T["C02"] = P(
    "Generated output never leaves the work buffer",
    "No message, listing, prompt, status or formatted text written into the application's output buffer ever exceeds "
    "its size, whatever the lengths of names, paths, descriptions and arguments and for every buffer size of at least "
    "four bytes. The amount of output announced for delivery never exceeds the memory it is taken from.",
    ["inputs", "configurations", "histories"],
    "all string lengths supplied by users and descriptors, all output buffer sizes >= 4",
    "tests use one generous buffer size and short names; the overrun needs a long name or a small buffer",
    [S + "ush_write_utils.c", S + "ush_utils.c", S + "ush_prompt.c", K + "ush_cmd_ls.c", K + "ush_cmd_help.c",
     K + "ush_cmd_xxd.c", K + "ush_cmd_cat.c", K + "ush_cmd_pwd.c"],
    [("bounded formatting", K + "ush_cmd_ls.c"), ("formatted print", S + "ush_write_utils.c")],
    AI + ": bound obligations on every store, formatted write and queued size",
    "Every write site into the work buffer is bounded by its size for all lengths. ")

T["C03"] = P(
    "Path and scratch arrays never overflow",
    "Path resolution, mounting, completion and command execution never access their temporary arrays outside their "
    "bounds, whatever the length and shape of the paths, names and arguments, including paths longer than the "
    "configured maximum. Temporary arrays always have a positive size.",
    ["inputs", "configurations"],
    "all paths, names, argument counts and maximum path lengths >= 2",
    "tests use paths far below the maximum length; an overflow needs a path of a specific length or many components",
    [S + "ush_node.c", S + "ush_node_utils.c", S + "ush_utils.c", S + "ush_file.c", S + "ush_parse_utils.c"],
    [("length check before copying", S + "ush_node_utils.c"), ("variable length arrays", S + "ush_utils.c")],
    AI + ": bound obligations on automatic arrays, helper contracts re-proved on each helper",
    "Every access of an automatic array is proved inside it for symbolic lengths. ")

T["C04"] = P(
    "Output is delivered byte by byte, in order, exactly once",
    "Every text the shell produces is offered to the output callback one byte at a time, in order, starting at its "
    "first and ending at its last byte; a refused byte is offered again unchanged and nothing is lost, repeated or "
    "overwritten meanwhile. After the last byte the session continues with what was due next, and no step offers more "
    "than one byte.",
    ["schedules", "fault_sequences", "inputs"],
    "all texts, all sequences of accepted and refused bytes",
    "tests drive a handful of refusal patterns on fixed texts and stub the producers of the text",
    [S + "ush_write.c", S + "ush_write_utils.c", S + "ush_utils.c"],
    [("output queue", S + "ush_write.c"), ("queueing helpers", S + "ush_write_utils.c")],
    AI + ": effect rules on the delivery step and on every producer",
    "All producers and the consumer are analysed over all paths. ")

T["C05"] = P(
    "Input is polled only when wanted and never lost",
    "The shell asks for an input byte only while it is waiting for the user's line, at most once per step; when none is "
    "available the step reports idle and changes nothing. Every byte that was obtained is processed in that same step.",
    ["schedules", "inputs"],
    "all arrival patterns of input bytes in every state",
    "tests poll fixed sequences; losing a byte needs input arriving in an unusual state",
    [S + "ush_read.c", S + "ush_read_char.c", S + "ush.c"],
    [("read step", S + "ush_read_char.c")],
    AI + ": effect rules on callbacks per step",
    "All states and all paths of one step. ")

T["C06"] = P(
    "One service step is short: it never blocks, loops forever or recurses",
    "Every call of the service function returns after finitely many operations, whatever state and data: it performs at "
    "most one input or output callback, each internal loop ends, and no call chain recurses except releasing a tree. It "
    "reports idle only when it waits for input and none is available, or when nothing remains to be done in that step.",
    ["inputs", "schedules", "histories"],
    "all states, all data, all callback results",
    "a test can only observe that its own sample terminated",
    [S + "ush.c", S + "ush_read.c", S + "ush_parse.c", S + "ush_autocomp.c", S + "ush_process.c"],
    [("state dispatch", S + "ush.c")],
    AI + ": ranking argument per loop, call-graph recursion rule",
    "Each loop has a proved progress measure (bounded counter, list link of an acyclic list, or terminated string). ")

T["C07"] = P(
    "The session never gets stuck",
    "From every state the session either waits for the application (input or output) or makes progress towards doing so; "
    "it never enters an undefined state and never cycles between internal states without consuming or producing "
    "something.",
    ["histories", "schedules"],
    "all reachable states and all cycles between them",
    "tests check single transitions; a livelock is a property of the whole transition graph",
    [S + "ush.c", S + "ush_read.c", S + "ush_write.c", S + "ush_parse.c", S + "ush_autocomp.c", S + "ush_prompt.c",
     S + "ush_process.c", S + "ush_reset.c"],
    [("state handlers", S + "ush.c")],
    AI + ": transition graph extraction, progress rule per cycle",
    "The graph is computed from the current source; every cycle needs a progress measure. ")

T["C08"] = P(
    "Line editing follows the documented key behaviour",
    "In line editing every printable byte is appended and echoed, backspace and delete remove exactly the last character "
    "(and nothing on an empty line), carriage return or line feed submits the line, tab requests completion, Ctrl-C "
    "cancels, and arrow-key escape sequences and other control bytes leave the text unchanged. This holds for every "
    "fill level of the line and at every position of an escape sequence.",
    ["inputs", "histories"],
    "all 256 byte values x escape-sequence positions x all fill levels",
    "tests sample a few keys at a few positions",
    [S + "ush_read_char.c", S + "ush_read_utils.c", S + "ush_read.c"],
    [("key handling", S + "ush_read_char.c"), ("line editing", S + "ush_read_utils.c")],
    AI + " with a byte-set domain against a table of key classes",
    "All byte values and symbolic fill levels. ")

T["C09"] = P(
    "Command lines are split with quotes and escapes exactly as documented",
    "Whatever the line, blanks separate arguments, double quotes group text (an unquoted empty pair included), a "
    "backslash takes the next character literally (before an x the backslash is kept for the command), and every other "
    "character is copied unchanged and in order. A line break always ends the line, also inside quotes or after a "
    "backslash; a misplaced quote is reported as a syntax error.",
    ["inputs"],
    "all lines: every parser mode x escape flag x byte value",
    "tests sample a few dozen lines",
    [S + "ush_parse.c", S + "ush_parse_char.c"],
    [("tokenizer", S + "ush_parse_char.c")],
    AI + ": per-byte transition table of the tokenizer compared with a reference automaton",
    "The complete automaton (mode x flag x 256 bytes) is compared, hence all lines by induction. ")

T["C10"] = P(
    "Commands receive exactly the arguments of the line",
    "A command is called with the number of arguments found on the line and with pointers to precisely these "
    "arguments, in order, each terminated, the first being the command name. This holds for any number of arguments, "
    "for empty quoted arguments and for arguments of any length the line can hold.",
    ["inputs"],
    "all lines and argument counts",
    "tests cover up to a handful of arguments with fixed contents",
    [S + "ush_parse_utils.c", S + "ush_parse.c", S + "ush_parse_char.c"],
    [("argument vector", S + "ush_parse_utils.c")],
    AI + ": terminator-count invariant of the tokenizer and iteration rule of the splitter",
    "Inductive over the line length. ")

T["C11"] = P(
    "Commands are dispatched to the right handler, or an error is reported",
    "A submitted empty line does nothing; otherwise the named command is looked up in the documented order and exactly "
    "one handler is called, once, with this session, the found file and the arguments. When nothing is found, or the "
    "entry cannot be executed, the matching error message is shown, and a prompt follows in every case.",
    ["inputs", "configurations"],
    "all lines and all sets of mounted commands and files",
    "tests stub the lookup or the handler",
    [S + "ush_parse_utils.c", S + "ush_file.c"],
    [("dispatch", S + "ush_parse_utils.c"), ("lookup", S + "ush_file.c")],
    AI + ": event rules on the dispatch paths",
    "All paths of the dispatch step. ")

T["C12"] = P(
    "Optional parts of the interface may be absent",
    "No optional callback, description, help text, file list, tree or current directory is used without being "
    "present: wherever the interface allows something to be missing, its absence leads to defined behaviour and never "
    "to a null access.",
    ["configurations", "inputs"],
    "all combinations of absent optional parts",
    "tests provide complete descriptors almost everywhere",
    [S + "ush_parse_utils.c", S + "ush_file.c", S + "ush_process.c", S + "ush_autocomp_state.c", K + "ush_cmd_ls.c",
     K + "ush_cmd_cat.c", K + "ush_cmd_help.c", K + "ush_cmd_xxd.c", K + "ush_cmd_echo.c"],
    [("null checks", S + "ush_process.c")],
    AI + ": nullness obligations at every dereference and indirect call",
    "Every dereference is covered. ")

T["C13"] = P(
    "Mounting adds a node at its place or changes nothing",
    "Mounting at a path whose parent directory exists makes the node the first child of that directory with the given "
    "files and no children, and mounting the root makes it root and current directory; all other nodes keep their "
    "links. When the path is taken or the parent is missing the matching error is returned and neither the tree, the "
    "session nor the node is modified.",
    ["inputs", "histories", "configurations"],
    "all tree shapes, all paths, any previous contents of the node",
    "tests build a few small trees from zeroed nodes",
    [S + "ush_node_mount.c", S + "ush_node_utils.c", S + "ush_node.c"],
    [("mount", S + "ush_node_mount.c")],
    AI + ": frame and effect rules on all outcomes of the operation",
    "All paths with symbolic trees. ")

T["C14"] = P(
    "Unmounting removes exactly one leaf node or changes nothing",
    "Unmounting a node without children unlinks it, and only it, from its parent's child list wherever it stands in that "
    "list; if it was the current directory its parent becomes current, and unmounting the root leaves neither root nor "
    "current directory. An unknown path or a node with children yields the matching error and changes nothing.",
    ["inputs", "histories"],
    "all tree shapes, positions in the child list and current directories",
    "tests remove nodes from a few fixed trees",
    [S + "ush_node_mount.c"],
    [("unmount", S + "ush_node_mount.c")],
    AI + ": frame and effect rules with a list-walk summary",
    "All paths; the list walk is covered by an inductive summary. ")

T["C15"] = P(
    "Changing directory goes to an existing directory or stays",
    "Changing the directory resolves the argument relative to the current directory and moves there only if the "
    "resolved path is a mounted directory; otherwise an error is reported and the current directory stays. Nothing "
    "else of the session's tree is modified, neither by the command nor by the call.",
    ["inputs", "histories"],
    "all arguments and tree shapes",
    "tests use a few fixed paths",
    [S + "ush_node_utils.c", K + "ush_cmd_cd.c"],
    [("set current directory", S + "ush_node_utils.c"), ("cd command", K + "ush_cmd_cd.c")],
    AI + ": effect rules on lookup result and current directory",
    "All paths. ")

T["C16"] = P(
    "Path arithmetic is exact for every path",
    "For every absolute path without empty components, collapsing drops '.' components and resolves '..' against the preceding component (never "
    "above the root) and keeps all other components in order; the parent, last component, number of components and "
    "prefix of a path, and joining two paths, are computed exactly. Results always fit the space derived from the "
    "arguments.",
    ["inputs"],
    "all paths: any number and content of components",
    "tests sample some paths",
    [S + "ush_utils.c"],
    [("path helpers", S + "ush_utils.c")],
    AI + ": trace partitioning over abstract paths (separators and unknown bytes)",
    "Exhaustive over abstract paths of up to ten bytes and some much longer ones; every unknown byte stands for all values. ")

T["C17"] = P(
    "Path lookup finds exactly the mounted node",
    "Looking up a path returns the root for the root path, the node reached by following for each prefix the child "
    "mounted under exactly that prefix, and nothing when a prefix has no such child, no root is mounted or the path "
    "exceeds the configured maximum. Relative paths are resolved against the current directory; a path too long to be "
    "represented never resolves.",
    ["inputs", "histories"],
    "all trees and all paths",
    "tests sample a few trees and paths",
    [S + "ush_node.c", S + "ush_node_utils.c"],
    [("lookup", S + "ush_node.c"), ("absolute path", S + "ush_node_utils.c")],
    AI + ": iteration rules of the lookup loops, text rules of the resolution",
    "Inductive per component. ")

T["C18"] = P(
    "Command sets can be added and removed without side effects",
    "Adding a command set makes it the first of the session's command sets; removing one unlinks exactly that one "
    "wherever it stands, and removing an unknown one returns an error and changes nothing. All other sets, the tree and "
    "the session stay as they are, and the built-in commands are not lost by initialisation order.",
    ["histories", "inputs"],
    "all orders of additions and removals",
    "tests use up to three sets",
    [S + "ush_commands.c", K + "ush_cmd.c"],
    [("add / remove", S + "ush_commands.c")],
    AI + ": frame and effect rules with a list-walk summary",
    "All paths; the list walk is covered by an inductive summary. ")

T["C19"] = P(
    "Deinitialisation leaves no trace",
    "Deinitialising a session clears every mounted node of the whole tree and the session itself completely, and touches "
    "nothing else: no file descriptor, no constant data and no memory outside of these objects.",
    ["histories", "configurations"],
    "all tree shapes",
    "tests use trees of a few nodes",
    [S + "ush.c", S + "ush_node_utils.c"],
    [("deinit", S + "ush.c"), ("recursive release", S + "ush_node_utils.c")],
    AI + ": effect analysis of the deinitialisation over explicit tree shapes with symbolic contents",
    "Every shape of up to 6 nodes (thorough: 8) and deep, wide and mixed shapes of 11 to 17 nodes; contents of the nodes "
    "and of the session are unconstrained. ")

T["C20"] = P(
    "Initialisation does not depend on prior memory contents",
    "Initialising a session, mounting a node and adding a command set give the same result whatever the objects' memory "
    "contained before, so statically allocated, stack or reused objects behave alike. Every session field is "
    "determined by initialisation before it is used.",
    ["inputs", "histories", "configurations"],
    "all previous memory contents",
    "tests run on zeroed or previously initialised memory",
    [S + "ush.c", S + "ush_reset.c", S + "ush_node_mount.c", S + "ush_commands.c"],
    [("init", S + "ush.c"), ("reset", S + "ush_reset.c")],
    AI + ": taint of unwritten fields from initialisation through every state",
    "Definite-assignment over all sessions starting at initialisation. ")

T["C21"] = P(
    "Sessions are independent",
    "The library keeps no mutable global or static state besides constant tables, so any number of sessions can be used "
    "side by side without influencing each other, and one session writes only its own object, its buffers and the nodes "
    "given to it.",
    ["schedules", "histories"],
    "all interleavings of any number of sessions",
    "tests use one session at a time",
    [S + "ush.c", K + "ush_cmd.c"],
    [("state kept in the session object", "src/inc/ush_types.h")],
    "whole-program IR query for mutable globals plus effect analysis of all stores",
    "Every global and every store of the library is classified. ")

T["C22"] = P(
    "Constant data is never modified",
    "Descriptors, file lists, names, paths, help texts and other data the application declares constant, and string "
    "literals, are never written by the library, so they may live in read-only memory.",
    ["inputs", "configurations"],
    "all inputs and descriptors",
    "tests place everything in writable memory and would not notice",
    [S + "ush_node_mount.c", S + "ush_parse_utils.c", K + "ush_cmd_echo.c"],
    [("const qualified interface", "src/inc/ush_types.h")],
    AI + ": points-to classification of every store",
    "All stores and block copies. ")

T["C23"] = P(
    "No heap, no hidden dependencies, freestanding-friendly",
    "The library never allocates dynamic memory and depends on nothing of its environment but a small set of string and "
    "formatting functions, so it behaves deterministically on small targets.",
    ["programs", "configurations"],
    "all call chains of the library",
    "a test cannot show the absence of a dependency",
    ["src/ush_config.h", S + "ush.c"],
    [("no allocation", S + "ush.c")],
    "IR call-graph query over every external reference",
    "Complete: every external symbol of every configuration is listed. ")

T["C24"] = P(
    "Every status is reported with its own message",
    "Each error or success status that commands and operations return is shown to the user with its own, distinct "
    "message, followed by a line break and a new prompt; no status is shown with the message of another.",
    ["inputs", "configurations"],
    "all status values and all places reporting one",
    "tests check the texts of some statuses",
    [S + "ush_utils.c", S + "ush_write_utils.c"],
    [("status table", S + "ush_utils.c")],
    AI + ": text of the queued message per status value",
    "All status values. ")

T["C25"] = P(
    "Every feature configuration builds and every advertised function exists",
    "For every combination of the feature switches and both platforms the library compiles without diagnostics, links "
    "completely, and offers exactly the selected built-in commands; each function the public headers declare for a "
    "configuration is defined in it with the declared signature, and the headers are usable from C++.",
    ["configurations"],
    "all switch combinations and platforms",
    "tests build one configuration",
    ["src/inc/ush_preconfig.h", K + "ush_cmd.c", "src/inc/ush.h"],
    [("feature switches", "src/inc/ush_preconfig.h")],
    "type checking and symbol queries over the configuration matrix",
    "Exhaustive over the feature switches. ")

T["C26"] = P(
    "The echo command prints, writes or decodes exactly its argument",
    "Echo prints its argument decoded from the backslash notation up to the first zero byte, and with a redirection to a "
    "file passes exactly the decoded bytes and their number to that file's write callback. Decoding turns \\xHH (digits "
    "of either case) into that byte and a backslash before any other character into this character, and copies all else. "
    "Wrong usage, unknown files and files that cannot be written give the matching error and no "
    "write.",
    ["inputs"],
    "all argument texts, lengths and target files",
    "tests stub the decoder or use a few strings",
    [K + "ush_cmd_echo.c", S + "ush_utils.c"],
    [("decoder", S + "ush_utils.c"), ("echo", K + "ush_cmd_echo.c")],
    AI + ": per-character rules of the decoder, event rules of the command",
    "All characters and all paths. ")

T["C27"] = P(
    "The hex dump shows every byte of the file exactly once",
    "The hex dump prints rows of offset, hexadecimal bytes and printable characters covering all bytes of the file in "
    "order, the last row padded to the full width, for every file size (an empty file gives one blank row); unprintable "
    "bytes are shown as a dot. Wrong usage and unknown or unreadable files give the matching error.",
    ["inputs"],
    "all file sizes and contents",
    "tests dump a few short files",
    [K + "ush_cmd_xxd.c"],
    [("xxd", K + "ush_cmd_xxd.c")],
    AI + ": text and index rules per output step",
    "All offsets and sizes symbolically. ")

T["C28"] = P(
    "Directory listings show every entry exactly once",
    "Listing a directory prints its own and its parent's entry, each child directory once and each file once, in order, "
    "in the documented layout with flags telling whether it can be read, written, executed and has a help text; without "
    "argument it lists the current directory, and an unknown directory gives the matching error.",
    ["inputs", "configurations"],
    "all directories: number of children and files, names of any length",
    "tests list a few fixed directories",
    [K + "ush_cmd_ls.c"],
    [("ls", K + "ush_cmd_ls.c")],
    AI + ": item text rules per listing step, list and index advance rules",
    "All entries symbolically. ")

T["C29"] = P(
    "Help lists every command exactly once",
    "Help without argument lists every command of every command set once with its description, in order; with a command "
    "or file name it prints exactly that entry's help text, or the matching error when there is none.",
    ["inputs", "configurations"],
    "all command sets and names",
    "tests use the built-in set",
    [K + "ush_cmd_help.c"],
    [("help", K + "ush_cmd_help.c")],
    AI + ": item text rules per step",
    "All entries symbolically. ")

T["C30"] = P(
    "Completion only ever adds to what was typed",
    "Requesting completion never changes or removes what the user typed: it appends nothing, the longest common "
    "continuation of the candidates, or the rest of the only candidate, as far as the line buffer has room. Candidates "
    "are the names of commands, of the current directory's files and of its subdirectories that start with the typed "
    "word, which begins after the last space of the line. Several candidates without a common continuation are each "
    "listed once, in order, and the prompt and the unchanged line are shown again.",
    ["inputs", "configurations"],
    "all typed words and candidate sets",
    "tests use a few candidate sets",
    [S + "ush_autocomp.c", S + "ush_autocomp_state.c", S + "ush_autocomp_utils.c"],
    [("candidate passes", S + "ush_autocomp_state.c")],
    AI + ": transcripts of whole completion runs, from the request to the next read, over families of candidate sets with "
         "unknown bytes; separate rules for the candidate test and the completed word",
    "All candidate counts up to three over commands, files and subdirectories in representative arrangements, every value "
    "of one unknown byte per family; candidate test and word split also for every length where the proof closes. ")

T["C31"] = P(
    "Printed text is delivered completely or the failure is reported",
    "Text a command prints is delivered unmodified, followed by a line break unless suppressed; formatted text that does "
    "not fit the work buffer, or cannot be formatted, is never delivered silently truncated: an error is shown instead.",
    ["inputs"],
    "all texts and formats of any length",
    "tests print short texts",
    [S + "ush_utils.c", S + "ush_write_utils.c"],
    [("print functions", S + "ush_utils.c")],
    AI + ": text rules of the queued output",
    "All lengths symbolically. ")

T["C32"] = P(
    "A complete prompt follows every command",
    "After every command, error, cancellation, completion or reset the user gets exactly the documented prompt with host "
    "name and current directory, and then an empty line to edit; after a completion the typed text is shown again "
    "behind it.",
    ["histories"],
    "all sessions",
    "tests check isolated prompt steps",
    [S + "ush_prompt.c", S + "ush_reset.c", S + "ush_read.c"],
    [("prompt", S + "ush_prompt.c")],
    AI + ": transcript of the prompt state sequence",
    "All paths of the prompt sequence. ")

T["C33"] = P(
    "Reset, cancel and process start leave a clean session",
    "A reset at any time discards the current line and activity, returns to the root directory and greets again; "
    "cancelling discards only the line. A command running in several steps starts from the beginning with its own file, "
    "and each step calls only that command's handler.",
    ["histories", "inputs"],
    "all states in which reset, cancel or a command can occur",
    "tests reset from a few states",
    [S + "ush_reset.c", S + "ush_process.c", S + "ush.c"],
    [("reset", S + "ush_reset.c"), ("process", S + "ush_process.c")],
    AI + ": effect rules",
    "All earlier states symbolically. ")

T["C34"] = P(
    "Name lookup follows the documented search order",
    "A file or command name is looked up in the command sets first and then by its path in the tree, and the "
    "first entry whose name equals the requested one exactly is used; a name that exists nowhere is not found. Names "
    "that merely start with, contain or resemble the requested one never match.",
    ["inputs", "configurations"],
    "all names, command sets and trees",
    "tests use a few sets",
    [S + "ush_file.c"],
    [("find by name", S + "ush_file.c")],
    AI + ": iteration and comparison rules of the search loops",
    "All entries symbolically. ")

T["C35"] = P(
    "The cat command shows file contents completely or reports the error",
    "Cat prints all bytes of a file obtained from it as reported, once and unmodified, for every file size; missing "
    "arguments, unknown files and unreadable files give the matching error. Files without readable data produce no "
    "output.",
    ["inputs"],
    "all files: contents, sizes, readability",
    "tests use a few files",
    [K + "ush_cmd_cat.c"],
    [("cat", K + "ush_cmd_cat.c")],
    AI + ": event and text rules",
    "All paths. ")

T["C36"] = P(
    "Internal assertions never fire under correct use",
    "As long as the application respects the documented preconditions, no internal consistency check of the library "
    "ever fails, whatever the user types and however the tree is modified.",
    ["inputs", "histories", "configurations"],
    "all inputs and sessions with assertions enabled",
    "tests reach only sampled paths",
    ["src/inc/ush_preconfig.h", S + "ush.c"],
    [("assertions", "src/inc/ush_preconfig.h")],
    AI + ": unreachability of assertion failures",
    "All paths in the configuration with assertions. ")

T["C37"] = P(
    "No uninitialised data is used",
    "No decision, output or callback argument ever depends on memory that was not written before: neither temporary "
    "arrays, nor session fields after initialisation, nor results of callbacks that reported no data.",
    ["inputs", "histories"],
    "all paths",
    "tests run on memory that happens to be benign",
    [K + "ush_cmd_cat.c", K + "ush_cmd_xxd.c", S + "ush_node.c"],
    [("initialisation", S + "ush.c")],
    AI + ": definite-assignment obligations on every load, and of the session fields over the step graph",
    "All loads; session fields are followed along the state machine, the built-in commands and the API. ")

T["C38"] = P(
    "Application data is read only within its announced bounds",
    "File lists are never read beyond their announced number of entries, strings not beyond their terminator, file data "
    "not beyond the reported size and arguments not beyond their number; sizes and positions never wrap around.",
    ["inputs", "configurations"],
    "all descriptor sets and sizes",
    "tests use consistent small descriptors in larger memory",
    [S + "ush_file.c", K + "ush_cmd_ls.c", K + "ush_cmd_xxd.c", K + "ush_cmd_help.c", S + "ush_autocomp_state.c"],
    [("bounded iteration", S + "ush_file.c")],
    AI + ": bound obligations on application objects",
    "All accesses. ")

T["C39"] = P(
    "The pwd command prints the current directory",
    "Asked for the working directory, the shell prints exactly the absolute path under which the current directory was "
    "mounted, once and unmodified, followed by a line break and a prompt, and changes neither the tree nor the current "
    "directory. With arguments it reports wrong usage and prints no path.",
    ["inputs", "histories"],
    "all trees, current directories and path lengths",
    "tests stub the printing function or use a few short paths",
    [K + "ush_cmd_pwd.c"],
    [("pwd", K + "ush_cmd_pwd.c")],
    AI + ": text and effect rules",
    "All paths. ")


def main():
    from ushlint import checks
    props, chk, na = [], [], []
    for pid, t in sorted(T.items()):
        have = pid in checks.CHECKS
        if not have and not t["na"]:
            continue
        props.append({"id": pid, "title": t["title"], "statement": t["statement"],
                      "quantifier": {"over": t["over"], "text": t["text"]}, "why_tests_cant": t["why"],
                      "anchors": {"files": t["files"],
                                  "mechanism": [{"name": a, "where": b} for a, b in t["mech"]]}})
        assert len(t["title"]) <= 80, pid
        if have:
            chk.append({"property": pid, "quick_cmd": "python3 run.py " + pid,
                        "thorough_cmd": "python3 run.py --thorough " + pid, "technique": t["technique"], "level": "other",
                        "level_note": t["note"] + TRUST})
        else:
            na.append({"property": pid, "reason": t["na"]})
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": chk, "not_applicable": na,
           "notes": "Static analysis only: /repo's current sources are compiled to LLVM IR (nothing is linked into an "
                    "executable or run) and interpreted abstractly; see DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(chk), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
