"""Per-property budgets (simulated runs, seconds of search) and the text that goes into the evidence."""
def P(quick, thorough, rule, assumptions=()):
    return {"quick": quick, "thorough": thorough, "rule": rule, "assumptions": list(assumptions)}
COMMON = ["The reference model covers the generated subset of the language; everything outside it is not judged.",
          "Allocation never fails (the implementation does not claim to survive it); heap contents of fresh blocks are a fill byte chosen by the plan."]
IO = ["The simulated device is below real glibc buffering (fopencookie); relative seeks right after a write are left out because glibc loses count there for such streams.",
      "Two handles on one path are only judged when both read: otherwise C itself leaves the outcome to buffering."]
PROPS = {
    "C01": P((3000, 40), (120000, 700), "Each seed draws 2-5 states with their own programs (a fifth of the time the same program), aborts, nested states and a module with private mutable state, and a preemption schedule over control-flow edges; each state is compared with its reference model run alone.", COMMON),
    "C02": P((12000, 45), (400000, 700), "Each seed draws an ownership-heavy script (user data, closures, containers, metatables, files, globals, values held by the host), how it ends (run to the end, host abort at a drawn call, compile only, damaged source, deleted before it runs), and close or write faults on its files.", COMMON + ["A value the model finds in or behind a reference cycle is exempt; a program whose cycles the model cannot name exactly is judged for early destruction only."]),
    "C03": P((12000, 45), (400000, 700), "Each seed draws a random script (swarm-configured feature subset), and, in about 70% of runs, the host call at which the host raises an error and with which status.", COMMON),
    "C04": P((12000, 40), (500000, 700), "Each seed draws a history of opens, writes, seeks, flushes, closes and reads on up to 6 handle slots and 4 paths, stdio buffer size, and write/close/seek faults, disk capacity or a stop at device operation k.", IO),
    "C05": P((12000, 40), (500000, 700), "Each seed draws file contents (binary, lines, text), device chunk sizes, stdio buffer size, a history of reads, seeks and writes, and failing reads, seeks and opens.", IO),
    "C06": P((12000, 40), (500000, 700), "Each seed draws a handle history: opens, aliases, closes, lost handles, uses after close, wrong arguments, host aborts at any operation, failing opens.", IO),
    "C13": P((4500, 45), (200000, 700), "Each seed draws key and value mixes (colliding, mixed-type, binary strings), 1-3 lists, tables and sets, and a history of 10-150 operations by script and host with bulk loops of up to 160 insertions and removals, ending in a failing operation or a host abort in half of the runs.", COMMON),
    "C14": P((12000, 45), (300000, 700), "Each seed draws a graph of functions that capture variables of every kind of scope (function, block, loop, comprehension, parameter, past the 127th slot), shadow them, store the closures in variables, lists and tables, and call them in a drawn order from script and host while scopes are left normally, by return, break, continue or a host abort at a drawn call.", COMMON),
    "C12": P((11000, 55), (300000, 700), "Each seed draws one to three ways of nesting (plain calls, calls through operators, metamethods, tostr, host callbacks, loops, match bindings, comprehensions, library functions, spread and multiple values), frame sizes, depth (endless or bounded), live values and loops per level, an optional host abort at depth, or a single statement around a fixed limit; the expected outcome is computed analytically.", COMMON + ["Nesting of data deeper than the C stack (recursive release) and the exact depth at which a limit is hit are not judged."]),
    "C16": P((13000, 45), (300000, 700), "Each seed draws containers, up to three nested walks by script loops, comprehensions, match and host iteration, and at each step mutations by the body or by callbacks (equality, tostr, len) that clear, shrink, grow, rebind or drop the walked container, leaving by break, return, error or host abort.", COMMON + ["Which entries of a changed table or set are visited is followed, not predicted."]),
    "C15": P((25000, 50), (600000, 700), "Each seed draws a history of embedding calls before, inside (host functions of every arity, fixed and vararg, nested through callbacks) and after a run: pushes of every kind of value with the host's buffers overwritten straight afterwards, peeks and pops of every type, lists, tables, walks, globals, metatables, calls, errors raised by the host; after every call the whole frame is compared slot by slot with a stack model.", COMMON + ["Values the host leaves on the stack before YASL_execute are not judged against the program's own top-level variables; errors raised outside a run are not generated."]),
    "C11": P((13000, 45), (400000, 700), "Each seed draws a session of 2-14 entries - valid, failing at run time, rejected in every part of the grammar (also in their middle), blank, ending by quit() - and drives either the real front end's loop over the simulated standard input (device chunks, a failing read, input that ends anywhere) or the embedding calls (YASL_resetstate, YASL_resetstate_bb, YASL_execute, YASL_execute_REPL with failing opens and host aborts); output, prompts, status and every variable are compared with a model after each entry.", COMMON),
    "C07": P((7000, 50), (200000, 700), "Each seed draws a program (some with host functions and aborts, odd bytes in strings) and rewrites it without changing its meaning - semicolons left to newlines, comments of both kinds with any bytes, whitespace, other spellings of the same numbers and strings - and delivers it in two to four ways: file, buffer, both resets, after a rejected source, as script, -E, -e and -C of the real front end, as a module of a script or of an embedded program; every delivery reads through the simulated device with drawn chunk and buffer sizes; output, status, host calls and messages must equal the model's and each other's.", COMMON),
    "C08": P((11000, 50), (300000, 700), "Each seed draws a program and damages its text (cut, bytes changed, inserted, deleted, duplicated, moved, zeroed) or makes the device it is read from fail (open, read, seek, close; once or from then on); compiling must end in bounded work, free what it took and touch no foreign memory, rejected source must be reported and must not run, source cut inside a string, comment or bracket or lost to a read error must not be accepted, and the same bytes must have the same outcome on a healthy device by another route.", COMMON + ["Programs nested deeper than 150 brackets are not judged (the parser recurses on the C stack).", "An accepted damaged program may run for ever; it is cut short by the step budget."]),
    "C10": P((3500, 50), (120000, 700), "Each seed draws a graph of modules on the simulated disk (along the search path, nested, shared, mutable, requiring each other in a circle, torn, cut, failing, exporting nothing or values that work on later), native libraries, a script that requires them in a drawn order, and failing opens, reads, seeks and library loads or a host abort; the whole is compared with the reference model, fresh instances included.", COMMON + ["A transient read error may be retried by the C library without anybody noticing; only a lasting one has to be reported."]),
    "C17": P((6000, 50), (200000, 700), "Each seed draws a session of programs printing pieces of all lengths and bytes (echo, print, errors, writes through io.stdout, host prints in between, modules), the points where the host redirects output or errors to a string, buffer sizes, and failing or short writes of standard output and standard error; what the sink holds is compared with the model at every host call and at the end.", COMMON + ["After a write error one contiguous piece may be missing: what the C library had buffered. A short write counts as an error, because glibc does not always retry for such streams."]),
    "C09": P((8000, 45), (300000, 700), "Each seed draws a list (sizes up to a few hundred; few or many duplicates, sorted, reversed, binary strings, ints beyond 2^53 mixed with floats, mixed types), what the random source returns (fair, constant, cyclic, alternating, zero or maximal draws, a drawn sequence followed by fair ones), who else holds the list (aliases, closures, host, a walk in progress), and how often it is sorted and changed in between, by script and host.", COMMON + ["Lists holding NaN are judged for keeping their elements and for termination only."]),
    "C18": P((8000, 45), (300000, 700), "Each seed draws an alphabet of overlapping pieces and binary bytes, 2-6 string variables, lists, a table and a set keyed by strings, and a history of 6-90 operations that make, cut, join, convert, store and drop strings of every origin (literals, host buffers, globals, modules, pieces of each other, captured variables), compares them with differently made equals, and ends in a failing operation or a host abort in half of the runs.", COMMON + ["toint and tofloat of malformed text are not judged."]),
}
