"""The checks: property id -> rule functions, what they analyse and the rule they apply."""
from rules import algorithms, commands, constraints, effects, formats, graph, iterators, queries, values

CHECKS = {}


def reg(pid, fns, explain, rule):
    CHECKS[pid] = {"fns": fns, "explain": explain, "rule": rule}


EFF = ("Effect analysis over the value flow of every command's main and every public storage function: each file operation "
       "is an event with the condition under which it happens, its target path and its result. ")
reg("C01", [effects.c01], EFF + "Only the commands that query.", "every file operation reachable from a query command only reads")
reg("C02", [effects.c02], EFF, "the target of every modifying operation is the lock or lies in .graph of the --path directory; tree removal only of .graph itself")
reg("C03", [effects.c03], EFF, "condition of every modifying operation implies that the lock was taken and not yet released; taken implies released")
reg("C04", [effects.c04], EFF, "the lock is taken by an exclusive creation, removed only when taken")
reg("C05", [effects.c05], EFF, "edits open in append mode without truncation; init neither truncates nor writes")
reg("C06", [effects.c06], EFF, "the stored graph is only replaced by a rename of a completely written and flushed file")
reg("C07", [effects.c07], EFF, "conditions of destructive operations without --force imply an affirmative answer")
reg("C08", [effects.c08], EFF, "failure of any operation implies a failing outcome; buffered writes are flushed on success")
reg("C41", [effects.c41], EFF, "reads, appends and replacements all target <path>/.graph/commands")

VF = ("Value flow of the functions named below, abstracted over all inputs: results and final states are terms over the inputs, compared "
      "with the stated meaning. ")
reg("C09", [formats.c09], VF + "Writers and reader of the command file format.", "every line a writer can write is read back as the command it was written for")
reg("C10", [formats.c10], VF + "Writer and reader of the TGF format.", "every line the writer can write is read back as the element it was written for")
reg("C11", [formats.c11], VF + "Both readers.", "a line that is neither empty, a comment nor well-formed makes the read fail with its line number")
reg("C12", [formats.c12], VF + "Readers and load of the stored graph.", "each command read is applied once, in order, to an empty graph that is returned")
reg("C16", [graph.c16], VF + "Mutators of the directed graph.", "membership of every vertex and edge after the operation is the one specified, for every graph satisfying the adjacency invariant")
reg("C17", [graph.c17], VF + "Queries of the directed graph.", "result of each query equals its definition over the adjacency map")
reg("C18", [values.c18], "Visibility and type analysis of the graph module.", "no field is public, no operation returns mutable access")
reg("C39", [values.c39], VF + "Graph commands.", "revert, application, replay and generation of commands equal their definitions")
reg("C40", [values.c40], VF + "Paths and scored paths.", "each operation equals its definition over the vertex sequence")

CM = ("Value flow of the commands' mains from the parsed command line to what they store, search for and print, for every combination of options at once; "
      "a term that is not the specified one is refuted by a command line on which the two denote different results. ")
reg("C13", [commands.c13], CM + "gc-add and gc-delete.", "the commands stored for --vertex and --edge are the specified list over the values given")
reg("C14", [commands.c14], CM + "gc-add.", "the commands stored for a pattern option are the specified edges over the values given")
reg("C15", [commands.c15], CM + "All commands that read numbers.", "an invalid value implies a failure before the first event that uses the option")
reg("C27", [commands.c27], CM + "gc-csp.", "graph, end points and constraints of the search and the printed path are the specified ones")
reg("C28", [commands.c28], CM + "gc-cycle.", "the condition under which a cycle is reported is the conjunction of the given constraints; each action prints the specified value")
reg("C44", [commands.c44], CM + "gc-desc.", "each printed value is the specified query of the loaded graph")
reg("C46", [commands.c46], VF + "Storage functions of the library and gc-build, over an opaque stored graph.", "the graph written back or saved is the one read or given; the commands appended are those named; clean removes the graph directory")
reg("C45", [commands.c45], "Definitions and accesses of the options of every command, as values reaching the argument parser.", "each documented option is defined with its names and arity and read with a matching accessor")

CK = ("Value flow of the constraint functions on a symbolic path and, one by one, on every kind of constraint with symbolic parts; nested constraints are covered by induction: "
      "the check of a part is an uninterpreted value about which only the property itself is assumed. ")
reg("C24", [constraints.c24], CK, "whenever the partial check rejects, the constraint is one that no extension can satisfy any more")
reg("C25", [constraints.c25], CK, "the complete check equals the documented predicate over the vertices and the score")
reg("C26", [constraints.c26], VF + "Validation of a list of constraints.", "the condition of rejection equals the disjunction of the documented contradictions")

reg("C21", [queries.c21], VF + "Insertion and removal of the four frontiers.", "removal returns the element at the end the discipline says of what insertions stored, or nothing when empty")
reg("C30", [queries.c30], VF + "Cycle queries, over an opaque list of enumerated cycles.", "each query equals its definition over the list of enumerated cycles")
reg("C31", [queries.c31], VF + "Hamiltonian paths, over an opaque enumeration of simple paths.", "each query equals its definition over the simple paths from every vertex")
reg("C33", [queries.c33], "Visibility, type and value-flow analysis of the token: its fields, every construction of it and the operations that take it.", "fields are private and shared, every construction is guarded by the acyclicity check of the same graph, DAG algorithms take the token")
reg("C37", [queries.c37], VF + "Attribute mappings and their commands.", "the map after each operation and each lookup equal their definitions; commands are applied one by one in order")

TR = ("Value flow of the iterator's constructor and of one step of its next, for a symbolic state: result, frontier and record left behind are terms over the state, compared with those of the "
      "specified search; a term that is not the specified one is refuted by a state of the specified search from which the step leaves the specification. ")
reg("C19", [iterators.c19], TR + "Vertex traversals.", "start state and step are those of a traversal that adds every vertex once to its frontier; breadth-first takes and adds at opposite ends")
reg("C20", [iterators.c20], TR + "Path traversals.", "start state and step are those of an enumeration by all simple one-edge extensions")
reg("C22", [iterators.c22], TR + "Best-first search, A* and gc-short-path.", "start state and step are those of a best-first search that settles vertices when taken from the frontier; the first path to the end is returned")
reg("C23", [iterators.c23], TR + "Constrained best-first search and A*.", "start state and step are those of a best-first search pruned by the partial checks only; the first path to the end that passes every complete check is returned")
reg("C29", [iterators.c29], TR + "Cycle enumeration.", "start state and step are those of an enumeration by extension of paths until their last vertex repeats; cycles are rotated canonically and recorded")

reg("C32", [algorithms.c32, commands.c32cmd], TR.replace("the iterator's constructor and of one step of its next, for a symbolic state: result, frontier and record left behind", "the sort: initial values of its loop variables, one round of its loop and its result")
    + "Topological sort and gc-topo-sort.", "initial values, round and result are those of removing vertices without incoming edge; the command prints the order or says that there is none")
reg("C34", [algorithms.c34], VF + "Shortest and longest paths of a DAG, over an opaque topological order; loops over the order and the edges are folds. A term that is not the specified one is refuted by a graph and scores on which it does not denote the optimum.",
    "the result is the fold that relaxes each outgoing edge in topological order")
reg("C35", [algorithms.c35], VF + "Bellman-Ford (folds over rounds and edges) and SPFA (initial values, one round and result of its loop). A term that is not the specified one is refuted by a graph and scores, or a state of the specified search, on which it leaves the specification.",
    "results are those of relaxing every edge until nothing can improve; nothing iff an edge can still be relaxed after the last round")
reg("C36", [algorithms.c36], TR.replace("the iterator's constructor and of one step of its next, for a symbolic state: result, frontier and record left behind", "the search of augmenting paths (one step) and of the maximum flow (initial values, one round and result): they")
    + "Maximum flow.", "paths are extended by every edge forward and backward, and returned iff they end at the target with positive residual capacity; each one is added to the flow with its residual capacity")
reg("C38", [algorithms.c38], CM + "gc-random.", "the condition under which an edge is added implies that its source is smaller than its target; the loop is left only with enough edges")
