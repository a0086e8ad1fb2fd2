#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the registered checks."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
import registry

CMD = "command/src/bin/"
GU = "command/src/graph_utils.rs"
P = {}


def prop(pid, title, statement, over, qtext, why, files, mech):
    P[pid] = {"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}


QB = [CMD + x + ".rs" for x in ("gc-csp", "gc-cycle", "gc-desc", "gc-short-path", "gc-topo-sort")]
EB = [CMD + x + ".rs" for x in ("gc-add", "gc-delete", "gc-build", "gc-random", "gc-clean", "gc-init")]

prop("C01", "Query commands never modify any file",
     "The commands that only answer questions about a graph (gc-desc, gc-short-path, gc-csp, gc-cycle, gc-topo-sort) never create, change, "
     "rename or remove any file or directory, whatever their options and whatever the state of the graph. They read the stored graph and print.",
     ["inputs", "configurations"], "every option combination and every content of the graph directory",
     "The commands' mains have no tests; a test would see only the options it passes, not a write on another branch.",
     QB, [("load of the stored graph only", GU + ": load_graph")])
prop("C02", "Commands only touch the graph directory and the lock file",
     "Every file or directory a command creates, writes, renames or removes lies in the graph directory (.graph) of the directory given by --path, "
     "or is the lock file of that directory; gc-init may also create the directories leading to the graph directory. Recursive removal only ever targets the graph directory itself.",
     ["inputs", "configurations"], "every command, option combination and stored graph",
     "No test runs a command; a stray path on one branch needs that branch with that directory layout.",
     EB + [GU], [("path helpers", GU + ": lock_path, root_path, command_path")])
prop("C03", "Changes happen only while holding the lock, which is always released",
     "Whenever a command appends to, replaces or deletes the stored graph, it has taken the lock before and has not released it yet. "
     "When the guarded work ends, successfully or with an error, the lock it took is released.",
     ["schedules", "fault_sequences", "inputs"], "every interleaving of commands and every failing file operation",
     "Tests run one operation at a time, without failures and mostly without files.",
     [GU], [("lock around every modification", GU + ": with_lock")])
prop("C04", "At most one command holds the lock",
     "Taking the lock fails when it is already taken, with no window between testing for it and taking it. "
     "A command that did not obtain the lock neither changes the graph nor removes the lock of the command that holds it.",
     ["schedules"], "every interleaving of two or more commands on the same directory",
     "No test races two commands, and a check-then-create lock passes every sequential test.",
     [GU], [("exclusive creation of the lock file", GU + ": lock")])
prop("C05", "Editing only appends, and init never discards a graph",
     "gc-add and gc-delete add their commands at the end of the stored history and never truncate or overwrite what is already there. "
     "gc-init in a directory that already has a graph leaves its content unchanged.",
     ["histories", "inputs"], "every history already stored and every edit",
     "Needs an existing history on disk; unit tests build graphs in memory.",
     [GU, "core/src/format/gcmd.rs"], [("append mode without truncation", "core/src/format/gcmd.rs: add_commands"), ("creation without truncation", GU + ": touch")])
prop("C06", "Replacing the stored graph is all-or-nothing",
     "When the stored history is rewritten (gc-build, gc-random), it is replaced in one step by a completely written and flushed file. "
     "An interruption or an error at any point leaves either the old history or the complete new one, never a partial file in its place.",
     ["crash_points", "fault_sequences"], "every point at which the rewrite can be interrupted or fail",
     "Tests never interrupt a write.",
     [GU, "core/src/format/gcmd.rs"], [("write to a new file, then rename", GU + ": replace_commands")])
prop("C07", "Destructive commands need --force or an affirmative answer",
     "Without --force, gc-clean and gc-random delete or replace the graph only after the user answered yes to the question they asked; "
     "any other answer, or no answer, leaves the graph untouched.",
     ["inputs", "configurations"], "every answer and option combination",
     "The confirmation is interactive and has no test.",
     [CMD + "gc-clean.rs", CMD + "gc-random.rs", "command/src/arg_utils.rs"], [("confirmation", "command/src/arg_utils.rs: confirmation_yes_no")])
prop("C08", "A failed storage operation is never reported as success",
     "When an operation on the stored graph or the lock fails (opening, writing, flushing, renaming, removing), the function reports an error "
     "and the command ends with a failure. Success is reported only after everything written has reached the file.",
     ["fault_sequences", "inputs"], "every file operation that can fail, at every call",
     "Tests never make a file operation fail.",
     [GU, "core/src/format/gcmd.rs", "core/src/format/tgf.rs", "core/src/format/utils.rs"] + EB, [("error propagation and final flush", "core/src/format/gcmd.rs: save, add_commands")])
prop("C09", "Whatever is written to a command file is read back identically",
     "Every command of the stored history, written by an edit or by a rewrite of the whole graph, is read back as the same command with the same vertex ids, "
     "for every vertex id. Saving a graph writes every vertex and every edge, so loading it gives the same graph.",
     ["inputs", "histories"], "every graph command and every 64-bit vertex id",
     "Tests parse a few sample lines with small ids.",
     ["core/src/format/gcmd.rs", "core/src/format/utils.rs"], [("line writer and line parser", "core/src/format/gcmd.rs: command_into_line, save, parse_line")])
prop("C10", "Saving a graph as TGF and reading it back gives the same graph",
     "Every vertex and every edge of a graph saved in the TGF format is written on a line that is read back as the same vertex or the same edge, with its direction. "
     "This holds for every vertex id and for isolated vertices and self-loops.",
     ["inputs"], "every graph",
     "Tests parse a few sample lines; nothing saves and reads back.",
     ["core/src/format/tgf.rs", "core/src/format/utils.rs"], [("line writer and line parser", "core/src/format/tgf.rs: save, parse_line")])
prop("C11", "Malformed input is an error naming its line, never a panic or a guess",
     "Reading a graph file with a line that is neither empty, a comment nor a well-formed element fails with an error that gives the number of that line; "
     "it never panics and never skips or invents an element. Comments and empty lines are ignored.",
     ["inputs"], "every file content",
     "Tests feed a few malformed lines to the line parser only.",
     ["core/src/format/utils.rs", "core/src/format/gcmd.rs", "core/src/format/tgf.rs"], [("line reader", "core/src/format/utils.rs: read_as_commands")])
prop("C12", "Loading replays the whole stored history in order",
     "The graph a command works on is the result of applying every stored command, exactly once and in the stored order, to an empty graph. "
     "A failure to open, read or parse the history is reported instead of an incomplete graph.",
     ["histories"], "every stored history",
     "Tests replay short lists in memory, not files.",
     ["core/src/format/utils.rs", GU, "core/src/graph_command.rs"], [("replay", "core/src/format/utils.rs: read")])
prop("C13", "gc-add and gc-delete store exactly the edits asked for",
     "gc-add --vertex and --edge, and gc-delete --vertex and --edge, store one addition or removal for each vertex and each pair of vertices given on the command line, "
     "in the order given, with the direction given (reversed edges for gc-add --reverse), and nothing else.",
     ["inputs", "configurations"], "every list of vertex ids and every combination of the options",
     "The commands' mains have no tests.",
     [CMD + "gc-add.rs", CMD + "gc-delete.rs", GU, "command/src/arg_utils.rs"], [("options to commands", CMD + "gc-add.rs: main"), ("pairs", "command/src/arg_utils.rs: as_vertex_tuple")])
prop("C14", "gc-add patterns create exactly the documented edges",
     "For any list of vertices, --chain links each vertex to the next, --cycle also links the last to the first, --star links the first vertex to every other one, "
     "and --clique links every vertex to every other one. --reverse turns around each edge of a chain, a cycle or a star.",
     ["inputs", "configurations"], "every list of vertices and every combination of the options",
     "The pattern builders are private to the command and have no tests.",
     [CMD + "gc-add.rs"], [("pattern builders", CMD + "gc-add.rs: chain_from_vertices, cycle_from_vertices, star_from_vertices, clique_from_vertices")])
prop("C15", "An invalid option value stops the command before anything is stored",
     "A vertex id that is not a number, or an odd number of vertices where pairs are expected, makes the command fail without storing any part of that option. "
     "An invalid value of a constraint or count that a query uses makes it fail instead of being ignored.",
     ["inputs", "configurations"], "every option value",
     "The commands' mains have no tests.",
     [CMD + x + ".rs" for x in ("gc-add", "gc-delete", "gc-csp", "gc-cycle", "gc-short-path", "gc-random")] + ["command/src/arg_utils.rs"],
     [("parsing of the values", "command/src/arg_utils.rs: parse_vertex_id_list, as_vertex_tuple")])
prop("C16", "Graph updates change exactly what they name",
     "Adding an edge makes both its vertices and the edge present, once, whatever was there before; removing an edge removes only that edge; removing a vertex "
     "removes it and all its edges, incoming and outgoing; adding a vertex keeps the edges of an existing one. Everything else in the graph stays as it was, self-loops included.",
     ["inputs", "histories"], "every graph and every update, in any sequence",
     "Tests apply a few updates to small graphs.",
     ["core/src/directed_graph.rs"], [("updates of the adjacency", "core/src/directed_graph.rs: add_vertex, add_edge, remove_edge, remove_vertex")])
prop("C17", "Graph queries agree with one another on every graph",
     "Membership, counts, degrees, the lists of vertices and edges and the incoming and outgoing edges of a vertex all describe the same graph: every edge is listed exactly once, "
     "counts equal the length of the lists, and a query about an unknown vertex or edge answers no or empty, without panicking.",
     ["inputs"], "every graph, self-loops included",
     "Tests query a few small graphs; a self-loop was miscounted unnoticed.",
     ["core/src/directed_graph.rs"], [("queries of the adjacency", "core/src/directed_graph.rs")])
prop("C18", "A graph can only be changed through its own operations",
     "No code outside the graph type can reach or modify its stored adjacency: no field is visible and no operation hands out mutable access to it. There is no unsafe code.",
     ["programs"], "every program using the library",
     "A test cannot show that no program can do something.",
     ["core/src/directed_graph.rs"], [("private field, shared references only", "core/src/directed_graph.rs: DirectedGraph")])
prop("C19", "Traversals visit each reachable vertex exactly once",
     "A breadth-first or depth-first traversal from a vertex yields that vertex first, then every vertex reachable from it, each exactly once, and no other; breadth-first yields vertices nearer to the start earlier. On an empty graph it yields nothing.",
     ["inputs"], "every graph and start vertex, cycles and self-loops included",
     "Tests traverse a few fixed graphs.",
     ["core/src/iter/iter_breadth.rs", "core/src/iter/iter_depth.rs"], [("mark when queued", "core/src/iter/iter_breadth.rs, core/src/iter/iter_depth.rs: next")])
prop("C20", "Path traversals enumerate every simple path exactly once",
     "A breadth-first or depth-first path traversal from a vertex yields every path that starts there, follows edges of the graph in their direction and repeats no vertex, each exactly once, "
     "starting with the path made of that vertex alone; breadth-first yields shorter paths earlier.",
     ["inputs"], "every graph and start vertex",
     "Tests enumerate paths of a few fixed graphs.",
     ["core/src/iter/iter_breadth.rs", "core/src/iter/iter_depth.rs"], [("extension by unvisited successors", "core/src/iter/*.rs: next")])
prop("C21", "Search frontiers return what their discipline says",
     "A queue returns the oldest element, a stack the newest, a min-priority queue a smallest and a max-priority queue a greatest one; each pushed element is returned exactly once and an empty frontier returns nothing.",
     ["histories"], "every sequence of insertions and removals",
     "Tests push and pop a few values.",
     ["core/src/iter/iter_datastructure.rs"], [("frontiers", "core/src/iter/iter_datastructure.rs")])
prop("C22", "The shortest path search returns a cheapest path, if there is one",
     "With costs that add up along a path and are never negative, the unconstrained search from a start to an end vertex returns a path of the graph between them of minimal total cost together with that cost, "
     "and nothing exactly when the end cannot be reached. gc-short-path prints that path for the vertices given.",
     ["inputs"], "every graph, pair of vertices and additive cost function without negative costs",
     "Tests search a few fixed graphs; a vertex settled too early passed them.",
     ["core/src/iter/iter_best.rs", "core/src/search/a_star.rs", CMD + "gc-short-path.rs"], [("settle on removal from the frontier", "core/src/iter/iter_best.rs: next")])
prop("C23", "The constrained search returns a cheapest path meeting every constraint",
     "Whatever path the constrained search returns starts and ends at the given vertices, follows edges of the graph and satisfies every constraint given; partial paths are discarded only when a constraint rejects them, "
     "and candidates are considered in order of cost.",
     ["inputs"], "every graph, pair of vertices and set of constraints",
     "Tests search a few fixed graphs with one or two constraints.",
     ["core/src/iter/iter_best_constraint.rs", "core/src/search/a_star.rs"], [("pruning and final check", "core/src/search/a_star.rs: constrained_shortest_path")])
prop("C24", "A partial path that could still satisfy a constraint is never discarded",
     "If a path can be extended to one that satisfies a constraint, by appending vertices without lowering its score, then the partial check accepts it. This holds for every constraint, including any nesting of and, or, xor and not.",
     ["inputs"], "every constraint of any nesting, every path and every extension of it",
     "Tests check each kind of constraint on one or two paths.",
     ["core/src/constraint/constraint.rs"], [("partial check", "core/src/constraint/constraint.rs: check_partial")])
prop("C25", "The complete check decides exactly the documented constraints",
     "On a complete path, each constraint accepts exactly the paths it documents: containing the vertex, the edge or a repeated vertex, respecting the order of the given vertices, length and score at least or at most the bound (inclusive), "
     "and the logical combinations of other constraints.",
     ["inputs"], "every constraint of any nesting and every scored path",
     "Tests check each kind of constraint on one or two paths.",
     ["core/src/constraint/constraint.rs"], [("complete check", "core/src/constraint/constraint.rs: check_complete")])
prop("C26", "Constraint validation only rejects contradictory sets",
     "Validation rejects a set of constraints that includes and excludes the same vertex (an included edge includes its vertices) or the same edge, requires and forbids a cycle, repeats a bound of one kind, or sets a minimum above the maximum; it accepts every other set.",
     ["inputs"], "every list of constraints",
     "Tests validate a few lists; every set without cycles was rejected unnoticed.",
     ["core/src/constraint/checker.rs"], [("validation", "core/src/constraint/checker.rs: validate")])
prop("C27", "gc-csp searches with exactly the constraints of its options",
     "Each option of gc-csp contributes the constraint it documents to the search, with the values given, and an option that is not given contributes none. The path printed is the one the search found between the given vertices in the loaded graph.",
     ["inputs", "configurations"], "every combination of options and values",
     "The command's main has no tests; --max-score acted as a minimum unnoticed.",
     [CMD + "gc-csp.rs", "command/src/arg_utils.rs"], [("options to constraints", CMD + "gc-csp.rs: main, build_all_constraints")])
prop("C28", "gc-cycle reports exactly the cycles its options ask for",
     "Each constraint option of gc-cycle keeps only the cycles that satisfy it, considering the edge that closes the cycle and counting each vertex once, and each action (count, head, take-n, all, shortest, longest, girth, hamiltonian) reports what it documents about the remaining cycles.",
     ["inputs", "configurations"], "every combination of options and values and every graph",
     "The command's main has no tests.",
     [CMD + "gc-cycle.rs", "command/src/arg_utils.rs"], [("options to constraints, filter", CMD + "gc-cycle.rs: main, check")])
prop("C29", "Cycle enumeration yields real cycles, each once",
     "Every cycle enumerated is a cycle of the graph without repeated vertex, in a canonical rotation starting at its smallest vertex, and no cycle is yielded twice. Every cycle reachable from the vertices the enumeration starts at is yielded.",
     ["inputs"], "every graph",
     "Tests enumerate the cycles of a few fixed graphs.",
     ["core/src/iter/iter_cycle.rs"], [("path extension until a vertex repeats", "core/src/iter/iter_cycle.rs: next")])
prop("C30", "Cycle queries agree with the enumeration of cycles",
     "First, count, the first n, all, girth, shortest, longest and hamiltonian are the values these words say about the enumerated cycles: the count is their number, the girth the smallest length, a hamiltonian cycle one with as many vertices as the graph, and so on.",
     ["inputs"], "every graph",
     "Only a part of these functions has a test, on fixed graphs.",
     ["core/src/algorithm/cycle.rs"], [("queries on the enumeration", "core/src/algorithm/cycle.rs")])
prop("C31", "Hamiltonian paths are exactly the simple paths through all vertices",
     "The hamiltonian paths enumerated are the simple paths, from any vertex, that visit every vertex of the graph exactly once, and a graph is hamiltonian exactly when it is empty or has one. A path is recognised as hamiltonian exactly when it repeats no vertex and has as many vertices as the graph.",
     ["inputs"], "every graph and path",
     "Tests check a few fixed graphs.",
     ["core/src/algorithm/hamiltonian.rs"], [("filtered path traversal from every vertex", "core/src/algorithm/hamiltonian.rs")])
prop("C32", "Topological sort orders every vertex before its successors, or reports a cycle",
     "For a graph without cycle, topological sort returns every vertex exactly once with each edge going forward; for a graph with a cycle (self-loops included) it returns nothing. gc-topo-sort prints that order or says that the graph is not a DAG.",
     ["inputs"], "every graph",
     "Tests sort a few fixed graphs; a self-loop passed for a DAG unnoticed.",
     ["core/src/algorithm/topo_sort.rs", CMD + "gc-topo-sort.rs"], [("Kahn's algorithm", "core/src/algorithm/topo_sort.rs: topological_sort")])
prop("C33", "A DAG token can only be obtained for an acyclic graph",
     "The algorithms that need an acyclic graph only accept a token that can be obtained in no other way than by a successful acyclicity check of that graph, which cannot change while the token exists.",
     ["programs"], "every program using the library",
     "A test cannot show that no program can do something.",
     ["core/src/algorithm/topo_sort.rs"], [("private field, one constructor", "core/src/algorithm/topo_sort.rs: DAG, try_dag")])
prop("C34", "DAG shortest and longest paths are optimal",
     "For an acyclic graph and any edge scores, the result has an entry for exactly the vertices reachable from the start: the path from the start with the smallest (for the longest path, greatest) total score, and that score. Vertices that cannot be reached have no entry and cause no failure.",
     ["inputs"], "every acyclic graph, edge scores and start vertex",
     "Tests use a few fixed graphs; unreachable vertices made it panic unnoticed.",
     ["core/src/algorithm/shortest_path.rs", "core/src/algorithm/longest_path.rs"], [("relaxation in topological order", "core/src/algorithm/shortest_path.rs: dag_shortest_paths")])
prop("C35", "Bellman-Ford and SPFA relax every edge until no path improves",
     "Unless a cycle of negative score can be reached, both algorithms return, for exactly the vertices reachable from the start, a path from the start following edges of the graph with the smallest total score, and that score; "
     "Bellman-Ford returns nothing exactly when a cycle of negative score can be reached from the start.",
     ["inputs"], "every graph, edge scores and start vertex (without negative cycle for SPFA)",
     "Tests use a few fixed graphs.",
     ["core/src/algorithm/shortest_path.rs"], [("relaxation", "core/src/algorithm/shortest_path.rs: bellman_ford, spfa")])
prop("C36", "Maximum flow is a legal flow that cannot be augmented",
     "The flow returned respects the capacity of each edge and is conserved at every vertex other than start and end, its value is the returned number, and no augmenting path is left. Flow can be rerouted along edges used backward.",
     ["inputs"], "every graph, capacities, start and end",
     "Tests use a few fixed networks; flow could never be rerouted, unnoticed.",
     ["core/src/algorithm/max_flow.rs"], [("augmenting paths", "core/src/algorithm/max_flow.rs")])
prop("C37", "Attribute mappings return the last value given",
     "Looking up a vertex or an edge in a mapping gives the value last added for it, and nothing (or the default) if none was added or it was removed since; other entries are not affected. "
     "A list of attribute commands has the effect of its commands in order, and commands for the other kind of element have no effect.",
     ["histories"], "every sequence of attribute commands",
     "The mappings have no tests.",
     ["core/src/attribute/mapping.rs", "core/src/attribute/attribute_command.rs"], [("mapping", "core/src/attribute/mapping.rs")])
prop("C38", "gc-random generates acyclic graphs with at least the edges asked for",
     "A graph generated by gc-random has no cycle, because each edge goes from a smaller to a greater vertex id, and generation goes on until it has at least the number of edges asked for by --edge-count, or three times --vertex-count without it. The graph stored is the one generated.",
     ["inputs", "configurations"], "every random choice and option combination",
     "Random generation has no tests.",
     [CMD + "gc-random.rs"], [("ordered edges", CMD + "gc-random.rs: creates_random_dag")])
prop("C39", "Commands do what their name says, and reverting swaps add and remove",
     "Applying a command performs exactly the update it names with its vertices, and applying a list performs each command in order. Reverting a command gives the opposite one for the same vertices, and the commands of a graph rebuild it.",
     ["inputs", "histories"], "every command, list of commands and graph",
     "Tests apply a few commands.",
     ["core/src/graph_command.rs"], [("application and reversal", "core/src/graph_command.rs")])
prop("C40", "Path and edge operations and the order of scored paths are exact",
     "First, last, size, membership of vertices and of edges, the lists of vertices and edges, appending and detecting a repeated vertex all agree with the sequence of vertices of the path. Scored paths are ordered by score only, smaller first. Reversing an edge swaps its ends, and a pair of vertices gives the edge from the first to the second.",
     ["inputs"], "every path, the empty path included",
     "Tests use a few short paths.",
     ["core/src/path.rs", "core/src/graph.rs"], [("path operations", "core/src/path.rs"), ("edge operations", "core/src/graph.rs: Edge")])
prop("C41", "All commands work on the same stored graph",
     "Every command takes the graph directory from --path and reads, appends to or replaces the same file of it, so that what one command stores is what the next one reads.",
     ["configurations", "histories"], "every command and value of --path",
     "No test runs two commands on the same directory.",
     EB + QB + [GU], [("one path helper", GU + ": command_path")])

prop("C44", "gc-desc describes the stored graph",
     "gc-desc prints the number of vertices, the number of edges, the smallest and the greatest vertex id of the graph at --path, and no id when the graph is empty.",
     ["inputs"], "every graph, empty and with self-loops included",
     "The command's main has no tests.",
     [CMD + "gc-desc.rs"], [("report", CMD + "gc-desc.rs: main")])
prop("C45", "Every documented option exists, accepts its values and is used",
     "Each command accepts the options its documentation lists, under their long and short names. A flag takes no value and is off unless given, an option that documents a list accepts any number of values, "
     "--path defaults to the current directory, and every option is read by the command under the name it is defined with, so that giving it has an effect.",
     ["configurations"], "every command and every documented option",
     "No test parses a command line; an option that could never be given several values went unnoticed.",
     [CMD + x + ".rs" for x in ("gc-add", "gc-build", "gc-clean", "gc-csp", "gc-cycle", "gc-delete", "gc-desc", "gc-init", "gc-random", "gc-short-path", "gc-topo-sort")],
     [("option definitions and accesses", CMD + "*.rs: main")])

prop("C46", "Storage operations store, rewrite and remove exactly what they name",
     "The storage functions of the library append exactly one command per vertex or edge they are given, of the kind they are named after and in the order given. "
     "Saving a graph stores exactly that graph. Rebuilding (gc-build) writes back and returns exactly the graph that was stored, isolated vertices and self-loops included, and writes nothing when the stored graph cannot be read. "
     "A successful clean has removed the whole graph directory. None of them reports success without having done it.",
     ["inputs", "histories"], "every list of vertices or edges and every stored graph",
     "The storage functions have no tests at all.",
     [GU, CMD + "gc-build.rs"], [("appending functions", GU + ": add_vertex .. remove_edges"), ("rebuild", GU + ": rebuild_graph"), ("save", GU + ": save_graph_as_commands"), ("clean", GU + ": clean")])

prop("C42", "Every search ends on every finite graph",
     "Every query ends after a finite number of steps on every graph, including cyclic graphs and constraints that no path can satisfy.",
     ["inputs"], "every graph and set of constraints",
     "A test that never ends only shows one input.",
     ["core/src/iter/iter_best_constraint.rs", CMD + "gc-random.rs"], [("none: the constrained search keeps extending paths through cycles", "core/src/iter/iter_best_constraint.rs: next")])
prop("C43", "Scores, lengths and flows never overflow",
     "Sums of scores, capacities and vertex ids computed by the algorithms stay within the range of their type, so that no result wraps around or panics.",
     ["inputs"], "every graph with any scores and capacities",
     "Tests use small numbers.",
     ["core/src/algorithm/shortest_path.rs", "core/src/algorithm/max_flow.rs", "core/src/search/a_star.rs"], [("none: plain 64-bit arithmetic on caller-supplied scores", "core/src/algorithm/shortest_path.rs")])

NA = {
    "C42": "Termination depends on which paths exist in the graph and on the constraints (gc-csp does not end on a cyclic graph with an unsatisfiable constraint, by design of the unbounded search); no static ranking argument bounds it, and a structural proxy would not decide it.",
    "C43": "Scores and capacities come from callers as arbitrary 64-bit numbers and the code uses plain arithmetic; whether a sum overflows depends on runtime values no static argument in reach can bound.",
}

TECH = {
    "eff": "static effect and value-flow analysis over the compiler's MIR (rustc driver): gated abstract interpretation, file operations as events with guards",
    "vf": "static value-flow analysis over the compiler's MIR (rustc driver): gated abstract interpretation to closed-form terms, compared with the specified meaning",
    "ty": "static visibility and type analysis over the compiler's HIR/MIR facts (rustc driver)",
}
KIND = {"C18": "ty", "C33": "ty"}
for _i in list(range(1, 9)) + [41]:
    KIND["C%02d" % _i] = "eff"


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for pid in sorted(P):
            if pid in registry.CHECKS or pid in NA:
                f.write(json.dumps(P[pid]) + "\n")
    checks = []
    for pid in sorted(registry.CHECKS):
        checks.append({"property": pid, "quick_cmd": "python3 sa/main.py check %s" % pid,
                       "thorough_cmd": "python3 sa/main.py check %s --thorough" % pid,
                       "technique": TECH[KIND.get(pid, "vf")], "level": "other",
                       "level_note": registry.CHECKS[pid]["rule"] + "; decided for all inputs on the analysed source, obligations whose terms are not understood are reported as undecided in the evidence, never as violations"})
    m = {"version": 1, "setup_cmd": "python3 sa/main.py setup", "checks": checks,
         "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
