#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
def p(id, title, statement, over, text, why, files, mech, observe, note, hook=None, state=None):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                         "observe_at": observe, "hook_needed": hook}, note=note)
T = [
p("C01", "Interpreter states in one process are isolated from each other",
  "Interpreter states that live in one process do not influence each other: however the steps of their programs are interleaved, including a state that is created, run and deleted inside a host function called by another, each state produces exactly the host calls, output, results and status it produces when it runs alone. Modules are private in the same way: each require gives the requiring program its own fresh instance.",
  ["schedules", "programs", "histories"], "every interleaving of the basic blocks of any number of states, every nesting of states inside host calls, every program",
  "The tests run one state per process, from creation to end; no test ever has two states alive at once, so state shared by accident is never observable.",
  ["yasl.c", "interpreter/VM.c", "compiler/compiler.c", "compiler/lexer.c", "std/yasl-std-require.c", "util/IO.c"],
  [("all state hangs off the state object", "yasl_state.h"), ("per-state jump buffer for errors", "interpreter/VM.c vm_run/vm_throw_err"), ("per-state output sinks", "util/IO.c")],
  ["host-function call trace", "captured output", "status", "globals"],
  "Seeded search over preemption schedules at control-flow-edge granularity (one OS thread, so data races that need true parallelism or torn words are out of reach), nested states and modules, against a reference model run alone."),
p("C02", "Deleting a state reclaims everything, and destructors run exactly once",
  "Whenever a state is deleted - before it ran, after its source failed to compile, after its program finished, failed or was aborted at any point - every user-data destructor has run exactly once, every file the program opened has been closed exactly once, and no memory allocated for that state stays allocated; only values caught in a reference cycle are exempt. While the state lives, no destructor runs for a value that the program or the host can still reach.",
  ["programs", "crash_points", "histories"], "every program, every point at which the program fails or the host aborts it or tears the state down, every ownership shape without cycles",
  "The tests never delete a state in the middle of a program and never look at what a failed program leaves behind; the leak runs of the suite cover only the success paths its scripts take.",
  ["yasl.c", "interpreter/VM.c", "interpreter/refcount.c", "interpreter/closure.c", "interpreter/upvalue.c", "interpreter/userdata.c", "data-structures/YASL_Table.c", "data-structures/YASL_List.c", "compiler/compiler.c", "std/yasl-std-io.c"],
  [("reference counts on heap values", "interpreter/refcount.c inc_ref/dec_ref"), ("state teardown", "interpreter/VM.c vm_cleanup, compiler/compiler.c compiler_cleanup")],
  ["user-data destructors", "heap seam: live allocations", "stream seam: opens and closes"],
  "Seeded search over programs x abort points x early teardown, with a tracked heap under AddressSanitizer. A leak of something the state still frees at deletion is not seen."),
p("C03", "A failure stops the program at that point, is reported, and undoes nothing",
  "When an operation fails, or a host function raises an error, at any point of a program, execution stops exactly there: every effect before it - output, host calls, changes to containers and globals - has happened in full and in order, no later effect happens, the failing operation itself changes nothing, and the status returned to the host is the one of that failure. The host can afterwards still read the globals and the captured output, and delete the state.",
  ["programs", "crash_points"], "every program and every host call at which the host may raise an error, plus every failing operation a program can reach",
  "The error tests check one message for one top-level mistake per file; they never abort a program from a host function, never fail inside nested calls, loops, callbacks or half-built containers, and never look at the state afterwards.",
  ["yasl.c", "interpreter/VM.c", "interpreter/list_methods.c", "interpreter/table_methods.c", "yasl_error.h"],
  [("error unwinding", "interpreter/VM.c vm_throw_err, vm_run"), ("status codes", "yasl_error.h")],
  ["host-function call trace", "return value of the run", "globals read back", "captured output"],
  "Seeded search over programs and abort points, judged against an executable reference model of the generated language subset."),
p("C04", "Acknowledged writes are in the file; lost writes are always reported",
  "Whatever a program writes to a file through the io library and has had acknowledged by a successful flush or close is in the file, in order and byte for byte, even if the process stops right after; and if the device refuses, truncates or loses any of it, then at least one of the calls on that handle, no later than its close, reports failure. A program that stops at any point leaves a file that holds a prefix of what it wrote, at least up to the last successful flush.",
  ["fault_sequences", "crash_points", "histories", "inputs"], "every sequence of writes, seeks, flushes and closes on any number of handles; every device error, short write, full disk and stop point; every buffer size",
  "The io tests write short ASCII strings to a disk that never fails and read them back in the same run.",
  ["std/yasl-std-io.c"],
  [("write/flush/close results", "std/yasl-std-io.c YASL_io_write, YASL_io_flush, YASL_io_close")],
  ["return values seen by the script", "contents of the simulated device"],
  "Seeded search over operation histories and device fault sequences with real stdio buffering above a simulated device."),
p("C05", "Reads deliver exactly the file's bytes, or report the failure",
  "Reading a file as a whole yields exactly the bytes it holds, and reading a line yields exactly the bytes from the current position up to the next newline or the end, whatever sizes the device delivers them in and whatever bytes they are, and never bytes that are not in the file. A read the device fails is not presented as complete data. Writes and seeks through the same handle move the position as documented.",
  ["fault_sequences", "inputs", "histories"], "every file content, every split of the content into device reads, every position, every failing device read or seek",
  "The io tests read small text files whose content arrives in one device read that never fails.",
  ["std/yasl-std-io.c"],
  [("whole-file and line reads", "std/yasl-std-io.c YASL_io_read"), ("positioning", "std/yasl-std-io.c YASL_io_seek")],
  ["strings returned to the script", "device log"],
  "Seeded search over contents, chunkings and fault positions, judged against the bytes on the simulated device."),
p("C06", "File handles: opened and closed exactly once, dead after close",
  "A file that opens successfully is closed exactly once: by the first close, or when the last reference to the handle goes away or the state is deleted, also after an error. Every operation on a handle after its close fails cleanly, without touching any stream, and an open that fails yields undef and leaves nothing open.",
  ["histories", "crash_points", "fault_sequences"], "every history of opens, copies, closes, repeated closes, uses after close, lost handles, aborts and failing opens, on any number of handles",
  "The tests open one file, use it once and drop it; no test uses or closes a handle twice.",
  ["std/yasl-std-io.c"],
  [("handle destructor", "std/yasl-std-io.c close_file"), ("explicit close", "std/yasl-std-io.c YASL_io_close")],
  ["stream seam: fopen/fclose and every access"],
  "Seeded search over handle histories; every stream access goes through a seam that knows which streams are open."),
p("C07", "A program behaves the same however its source is delivered",
  "The same source text has the same output, host calls and status whether it comes from a file, a memory buffer, a module loaded by another program or the command line, and whatever sizes the device delivers the bytes of the file in.",
  ["configurations", "programs", "fault_sequences"], "every source text, every split of the file into device reads and every stdio buffer size, every delivery route",
  "Each test script is delivered one way: from a file that is read in one piece.",
  ["compiler/lexer.c", "compiler/lexinput.c", "yasl.c", "main.c", "std/yasl-std-require.c"],
  [("source abstraction", "compiler/lexinput.c")],
  ["host-function call trace", "captured output", "status"],
  "Seeded search over programs x routes x chunkings; the reference is the model and the other routes."),
p("C08", "Damaged or unreadable source never runs as if it were whole",
  "A read error while the source is being loaded never leads to a successful run of the part that was read. Source that is cut off, has bytes changed, or blocks repeated or lost, at any place, is compiled and run or rejected within bounded work, without touching memory it does not own, and rejected source reports a failure and runs nothing.",
  ["fault_sequences", "inputs", "crash_points"], "every source text, every truncation point, byte change, lost or repeated block, and every failing device read during loading",
  "The syntax-error tests hold a few dozen hand-written mistakes; none cuts a program at an arbitrary byte and none has a device that fails.",
  ["compiler/lexinput.c", "compiler/lexer.c", "compiler/parser.c", "compiler/compiler.c", "yasl.c"],
  [("end-of-input test", "compiler/lexinput.c"), ("parser error recovery", "compiler/parser.c handle_error")],
  ["status", "output", "AddressSanitizer", "step budget"],
  "Seeded search over torn sources under AddressSanitizer and a step budget."),
p("C09", "Sorting is right for every sequence of random draws",
  "Sorting a list of numbers or of strings leaves a list that is ordered and holds exactly the same elements, and keeps every other holder of the list in sync, whatever values the process's random source returns to it; sorting a list that holds anything else reports an error and loses no element.",
  ["schedules", "inputs"], "every list of numbers or strings and every sequence of values the random source may return, adversarial ones included",
  "The tests sort about ten fixed lists with whatever the C library's generator returns that day.",
  ["interpreter/list_methods.c"],
  [("randomised partition", "interpreter/list_methods.c sort")],
  ["the list after the call", "number of draws and steps"],
  "Seeded search over lists and adversarial draw sequences; running time is judged only when the draws are eventually fair."),
p("C10", "Modules load completely or fail the importer, without side effects on it",
  "A module is searched along the fixed path, loaded afresh by each require, and its exported value works on in the importer after loading has finished; when it cannot be opened, does not compile, fails or exports nothing, the importer fails with an error at that require and is otherwise untouched. Everything a loaded or failed module allocated is released by the time the importer is deleted.",
  ["fault_sequences", "programs", "histories"], "every module graph, every order of requires, every failing open, torn module file and error inside a module, at any depth",
  "The tests load one or two well-formed modules from a healthy disk.",
  ["std/yasl-std-require.c", "yasl.c", "compiler/compiler.c"],
  [("module state sharing the importer's tables", "std/yasl-std-require.c YASL_require"), ("search path", "std/yasl-std-require.c open_on_path")],
  ["host-function call trace", "open calls seen by the file system", "status", "live allocations"],
  "Seeded search over module graphs and injected failures, against the reference model with fresh module instances."),
p("C11", "An interactive session survives any input and ends with it",
  "In an interactive session each complete entry has the effect it has in a program, in order, and what earlier entries declared stays usable; an entry that fails to compile or fails while running is reported, leaves earlier declarations and values as they were, and the next entry works normally. A host that calls a declared function between entries gets what it returns, or its error as a negative status. The session ends when the input ends or asks to quit, however the input is split or cut off.",
  ["histories", "fault_sequences", "inputs"], "every sequence of good and failing entries, every split of the input into device reads, every point at which input ends or fails",
  "No test drives the interactive loop at all.",
  ["main.c", "yasl.c", "compiler/compiler.c", "interpreter/VM.c"],
  [("reset between entries", "yasl.c YASL_resetstate_bb"), ("calls between entries", "yasl.c YASL_functioncall"), ("entry compilation", "compiler/compiler.c compile_REPL"), ("read loop", "main.c main_REPL")],
  ["host-function call trace", "output", "exit of the loop"],
  "Seeded search over entry histories with injected failures and end of input, against the reference model run entry by entry."),
p("C12", "Running out of stack, call depth or loop nesting is a clean error",
  "A program that recurses without end, nests calls, callbacks or live loops deeper than the implementation supports, or passes or returns more values than fit, ends with a reported error - never with memory corruption, a crash, a hang or a silently wrong result - and programs below the limits are unaffected. Deleting the state afterwards still reclaims everything.",
  ["programs", "crash_points"], "every way of consuming stack slots, frames and loop frames, from scripts and from host functions, at every fill level when the limit is hit",
  "One test overflows the stack with plain recursion; the other limits are never approached.",
  ["interpreter/VM.c", "interpreter/VM.h", "yasl.c"],
  [("stack bound", "interpreter/VM.c vm_push"), ("frame bound", "interpreter/VM.c vm_enterframe"), ("loop frames", "interpreter/VM.h")],
  ["status", "AddressSanitizer", "live allocations"],
  "Seeded search over shapes and fill levels around every limit, under AddressSanitizer."),
p("C13", "Containers behave like their mathematical models over any history",
  "Lists, tables and sets behave exactly like a sequence, a map and a set over every history of operations, in whatever way script and host interleave them on shared containers: lookups, lengths, walks, equality, copies and conversions always agree with the operations acknowledged so far. A failed operation changes nothing, and a copy shares no later change with its original.",
  ["histories", "inputs"], "every history of insertions, updates, removals, clears, copies, merges, slices and walks, by script and host, of any length and key mix",
  "Each method is tested with a handful of literal calls on tiny containers; no test interleaves insertions and removals long enough to wrap, grow or fill the tables with deleted entries.",
  ["data-structures/YASL_Table.c", "data-structures/YASL_Set.c", "data-structures/YASL_List.c", "interpreter/list_methods.c", "interpreter/table_methods.c", "std/yasl-std-collections.c", "yasl.c"],
  [("open addressing with deleted markers", "data-structures/YASL_Table.c, data-structures/YASL_Set.c"), ("growth and shrinking", "data-structures/YASL_List.c")],
  ["values returned to script and host after every step"],
  "Seeded search over long interleaved histories with key mixes that collide, against sequential models."),
p("C14", "Closures share captured variables, and keep them after their scope ends",
  "All closures that capture the same variable, and the scope that declared it, see one shared variable: every write by any of them is seen by all others, from the capture on, whatever order they are called in and however their scope is left - normally, by return, break, continue, or error. After the scope has ended the variable lives exactly as long as a closure needs it.",
  ["programs", "histories"], "every nesting of functions, every order of captures, writes, calls and scope exits, calls from the host included",
  "The tests hold a few counters captured once and called in order.",
  ["interpreter/VM.c", "interpreter/upvalue.c", "interpreter/closure.c", "compiler/compiler.c", "compiler/env.c"],
  [("open captured variables", "interpreter/VM.c add_upvalue, vm_close_from"), ("capture by index", "compiler/env.c")],
  ["values returned by the closures", "destructors of captured values"],
  "Seeded search over capture graphs and call orders, against the reference model."),
p("C15", "The embedding interface follows its documented stack contract in any history",
  "Every sequence of valid embedding calls - pushing, popping, reading, type tests, globals, container access, metatables, registering and calling functions in both directions - has the documented effect on the value stack, returns the documented status, and leaves the other values untouched; a call that fails reports it and leaves the stack usable. Values handed to the state are independent of the host's buffers afterwards.",
  ["histories"], "every sequence of embedding calls, interleaved with script execution and callbacks",
  "The API tests are a dozen straight-line sequences; none mixes globals, containers, metatables and callbacks in one history.",
  ["yasl.c", "yasl_aux.c", "yasl.h"],
  [("value stack", "interpreter/VM.c vm_push/vm_pop"), ("globals by name", "yasl.c YASL_setglobal/YASL_loadglobal")],
  ["return values of the embedding calls"],
  "Seeded search over call histories against a stack model."),
p("C16", "Changing a container while walking it is bounded and memory-safe",
  "Walking a list, table, set or string while the program or a host callback changes, clears, shrinks, grows or drops it ends after finitely many steps once the changes stop, never touches freed memory, and visits every element that was there throughout exactly once for lists changed only beyond the current position. Breaking out of, returning from or failing inside such a walk leaves the container valid.",
  ["histories", "schedules"], "every interleaving of the steps of any number of nested walks with changes to the walked containers, from scripts and host functions",
  "No test changes a container inside a loop over it.",
  ["interpreter/VM.c", "data-structures/YASL_Table.c", "yasl.c"],
  [("loop frames hold the container", "interpreter/VM.c O_INITFOR/O_ITER_1"), ("host iteration", "yasl.c YASL_tablenext")],
  ["host-function call trace", "AddressSanitizer", "step budget"],
  "Seeded search over walk/change interleavings."),
p("C17", "Output reaches the host's sink complete and in order",
  "What a program prints reaches whichever sink the host chose - the process's standard streams or a captured string - complete, in order and byte for byte, however the output is split into pieces and however long it is, and both sinks see the same bytes. A failing output device neither stops nor corrupts the program, and never repeats or reorders output.",
  ["configurations", "fault_sequences", "programs"], "every program, every length and split of output, every sink, every failing or short write of the output device",
  "The tests compare a few lines of output on a healthy pipe.",
  ["util/IO.c", "yasl.c", "interpreter/VM.c"],
  [("sinks", "util/IO.c io_print_file/io_print_string")],
  ["simulated standard output", "captured string"],
  "Seeded search over programs, sinks and output-device faults."),
p("C18", "Strings never change, wherever they came from and whatever becomes of their sources",
  "A string value never changes and stays valid for as long as the program or the host can reach it, whatever it was made from - a literal, a buffer the host handed over and overwrote, another string it was cut from, a container, a number, a module whose code is done - and whichever of its sources is dropped, overwritten or reused first. Strings with the same bytes are interchangeable everywhere: as operands and arguments, as table and set keys, as names of methods and metamethods; and every operation on strings gives the result that the bytes of its operands alone determine. An operation that cannot be carried out - an index out of range, an empty search string, a negative count, an argument of a wrong type - ends, reports an error and changes nothing.",
  ["histories", "inputs"], "every string, binary and empty ones included, every history of making, cutting, joining, storing and dropping strings by script and host, and every point at which the program fails or is aborted",
  "The tests call each string method once or twice on short literals, which live as long as the program; no test drops what a string was made from, mixes strings of different origin as keys, or tries empty, longer or overlapping arguments.",
  ["data-structures/YASL_String.c", "interpreter/str_methods.c", "interpreter/refcount.c", "interpreter/VM.c", "yasl.c"],
  [("substrings share or copy the bytes of the string they are cut from", "data-structures/YASL_String.c YASL_String_new_substring"), ("string keys are hashed by their bytes", "data-structures/YASL_Table.c")],
  ["host-function call trace", "globals read by the host", "AddressSanitizer", "step budget"],
  "Seeded search over histories of string operations, origins and drops, against the reference model, with host aborts and freed memory poisoned."),
]
NA = [
 ("N01", "Arithmetic and operators compute the documented results", "A pure function of the operands: no schedule, clock, fault or interleaving takes part, so there is nothing for a simulator to control. (The reference model exercises integer, string and comparison operators on the way, but does not decide this property.)",
  "Every arithmetic, bitwise, comparison and string operator yields the documented value for all operands, and operator precedence and associativity follow the documentation.", ["interpreter/VM.c", "compiler/parser.c"]),
 ("N02", "Literals and escapes mean what the documentation says", "Lexing a literal is a pure function of its text; delivery of the text under faults is C07 and C08.",
  "Every number, string and interpolation literal denotes the documented value.", ["compiler/lexer.c"]),
 ("N04", "Pattern matching picks the first matching case", "A pure function of the program and value matched; no nondeterminism or fault takes part.",
  "A match statement runs the body of the first case whose pattern matches and whose guard holds, with the documented bindings.", ["compiler/compiler.c", "interpreter/VM.c"]),
 ("N05", "Compile-time evaluation never changes meaning", "Compares two pure functions of the source text; no schedule or fault can reach it.",
  "Constant expressions evaluated by the compiler give the same result as at run time.", ["compiler/middleend.c"]),
 ("N06", "Out-of-memory is survived", "The implementation does not check any allocation and does not promise to; injecting allocation failure would only restate that. Allocation failure is therefore not among the injected faults.",
  "When the system refuses memory the interpreter reports an error and stays usable.", ["yasl.c", "interpreter/VM.c"]),
]
def main():
    rows = []
    for t in T:
        d = dict(t); d.pop("note"); rows.append(d)
    for id, title, reason, st, files in NA:
        rows.append({"id": id, "title": title, "statement": st, "quantifier": {"over": ["inputs"], "text": "every input"}, "why_tests_cant": "The tests sample a few inputs of an unbounded set.",
                     "anchors": {"files": files, "mechanism": [{"name": "implementation", "where": files[0]}], "observe_at": ["results"], "hook_needed": None}})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")
    checks, na = [], []
    for t in T:
        if t["id"] in PROPS:
            checks.append({"property": t["id"], "quick_cmd": "python3 check.py " + t["id"], "thorough_cmd": "python3 check.py %s --thorough" % t["id"], "evidence_file": "evidence/%s.json" % t["id"],
                           "technique": "deterministic simulation with fault injection: " + PROPS[t["id"]].get("tech", "seeded search over programs, schedules and faults, judged by an executable reference model"),
                           "level": "exploration", "level_note": t["note"]})
        else:
            na.append({"property": t["id"], "reason": "check not built yet"})
    for id, title, reason, st, files in NA:
        na.append({"property": id, "reason": reason})
    m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the C library boundary is the seam (build.py renames the libc symbols of the compiled objects to the simulator's). One binary, ysim, holds every engine; check.py drives it. Replays: python3 check.py <id> --replay <file>."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
