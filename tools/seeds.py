"""Planted bugs: each written from the text of a property and the code."""
SEEDS = []


def seed(id, prop, needs, breaks, edit, sh=None, rs=None):
    d = {"id": id, "prop": prop, "needs": needs, "breaks": breaks, "edit": edit}
    if sh:
        d["sh"] = sh
    if rs:
        d["rs"] = rs
    SEEDS.append(d)


DG = "core/src/directed_graph.rs"
GU = "command/src/graph_utils.rs"
GCMD = "core/src/format/gcmd.rs"
TGF = "core/src/format/tgf.rs"
UT = "core/src/format/utils.rs"

PRE = """use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::{Edge, VertexId};
fn v(x: u64) -> VertexId { VertexId(x) }
fn e(a: u64, b: u64) -> Edge { Edge(v(a), v(b)) }
"""

seed("s01-lock-leak-on-error", "C03",
     "an edit whose guarded work fails (here: appending to a graph that was never initialised)",
     "the lock taken by a failing edit is never released, so every later command on the directory fails",
     [GU, "    let res = block();\n    unlock(root_dir)?;\n    res", "    let res = block()?;\n    unlock(root_dir)?;\n    Ok(res)"],
     sh="""mkdir d && "$bin/gc-add" -p d -v 1 >/dev/null 2>&1   # fails: no graph there
test ! -e d/lock || { echo "lock left behind"; exit 1; }
exit 0
""")

seed("s02-clean-answer-prefix", "C07",
     "gc-clean without --force and an answer that merely starts with the letter y",
     "an answer such as 'yikes, no' deletes the graph",
     ["command/src/arg_utils.rs", '    match buffer.to_string().trim().as_ref() {\n        "yes" | "y" => true,\n        "no" | _ => false,\n    }',
      "    buffer.trim().to_lowercase().starts_with('y')"],
     sh="""mkdir d && "$bin/gc-init" -p d >/dev/null && "$bin/gc-add" -p d -v 1 >/dev/null || exit 2
echo "yikes, no" | "$bin/gc-clean" -p d >/dev/null 2>&1
test -e d/.graph/commands || { echo "graph deleted without an affirmative answer"; exit 1; }
exit 0
""")

seed("s03-remove-vertex-outgoing", "C16",
     "removing a vertex that has incoming edges, then adding it again",
     "edges leading to the removed vertex stay filed under their source and come back as edges of the graph",
     [DG, "        edges.iter().for_each(|e| {\n            self.remove_edge(*e);\n        });",
      "        edges.iter().filter(|e| e.0 == vertex_id).for_each(|e| {\n            self.remove_edge(*e);\n        });"],
     rs=PRE + """
fn main() {
    let mut g = DirectedGraph::new();
    g.add_edge(e(1, 2));
    g.add_edge(e(2, 3));
    g.remove_vertex(v(2));
    assert_eq!(g.outbound_edges(v(1)).count(), 0, "an edge to a removed vertex is left");
    assert_eq!(g.edges().count(), 0);
    g.add_vertex(v(2));
    assert!(!g.contains_edge(e(1, 2)));
}
""")

seed("s04-tgf-narrow-id", "C10",
     "a vertex id above the range of 32 bits, written and read back",
     "large vertex ids do not survive saving and reading a TGF file",
     [TGF, 'writeln!(buffered, "{}", vertex_id)?;', 'writeln!(buffered, "{}", *vertex_id as u32)?;'],
     rs=PRE + """
fn main() {
    let dir = std::env::current_dir().unwrap();
    let f = dir.join("g.tgf").to_str().unwrap().to_string();
    let mut g = DirectedGraph::new();
    g.add_vertex(v(5_000_000_000));
    g.add_edge(e(7, 5_000_000_001));
    gc_core::format::tgf::save(&g, f.clone()).unwrap();
    let h = gc_core::format::tgf::read(std::fs::File::open(&f).unwrap()).unwrap();
    let mut a: Vec<u64> = g.vertices().map(|x| x.0).collect();
    let mut b: Vec<u64> = h.vertices().map(|x| x.0).collect();
    a.sort(); b.sort();
    assert_eq!(a, b, "vertices differ after a round trip");
}
""")

seed("s05-gcmd-regex-digits", "C09",
     "a vertex id of more than nine digits in an edge stored by gc-add",
     "a stored edge with a large vertex id can no longer be loaded",
     [GCMD, 'r"^AddEdge (\\d+)\\s+(\\d+)$"', 'r"^AddEdge (\\d{1,9})\\s+(\\d{1,9})$"'],
     sh="""mkdir d && "$bin/gc-init" -p d >/dev/null && "$bin/gc-add" -p d -e 1 12345678901 >/dev/null || exit 2
"$bin/gc-desc" -p d >/dev/null 2>&1 || { echo "a graph with a large vertex id cannot be loaded"; exit 1; }
exit 0
""")

seed("s06-reader-skips-after-error", "C11",
     "a malformed line after at least one well-formed one",
     "the error names the number of the previous line",
     [UT, "Err(msg) => return Err(format![\"Error at line {}: {}\", index + 1, msg]),", "Err(msg) => return Err(format![\"Error at line {}: {}\", result.len() + 1, msg]),"],
     rs=PRE + """
use std::io::Write;
fn main() {
    let dir = std::env::current_dir().unwrap();
    let f = dir.join("c");
    let mut o = std::fs::File::create(&f).unwrap();
    o.write_all(b"AddVertex 1\\n\\n# a comment\\nAddVertex x\\n").unwrap();
    drop(o);
    let r = gc_core::format::gcmd::read(std::fs::File::open(&f).unwrap());
    let msg = r.err().expect("malformed line accepted");
    assert!(msg.contains("line 4"), "wrong line: {}", msg);
}
""")

seed("s07-touch-truncates", "C05",
     "gc-init on a directory that already holds a graph",
     "running gc-init again empties the stored graph",
     [GU, "    fs::OpenOptions::new()\n        .create(true)\n        .write(true)\n        .open(path)\n        .map(|_| ())\n}\n\nfn lock_path",
      "    fs::File::create(path).map(|_| ())\n}\n\nfn lock_path"],
     sh="""mkdir d && "$bin/gc-init" -p d >/dev/null && "$bin/gc-add" -p d -v 1 >/dev/null || exit 2
"$bin/gc-init" -p d >/dev/null 2>&1
grep -q "AddVertex 1" d/.graph/commands || { echo "gc-init discarded the graph"; exit 1; }
exit 0
""")

seed("s08-revert-remove-edge", "C39",
     "reverting the removal of an edge",
     "the reverted command adds the edge in the opposite direction",
     ["core/src/graph_command.rs", "RemoveEdge(v1, v2) => AddEdge(v1, v2)", "RemoveEdge(v1, v2) => AddEdge(v2, v1)"],
     rs=PRE + """
use gc_core::graph_command::GraphCommand;
fn main() {
    let c = GraphCommand::RemoveEdge(v(1), v(2));
    let mut g = DirectedGraph::new();
    GraphCommand::revert(c).apply_to(&mut g);
    assert!(g.contains_edge(e(1, 2)));
    assert!(!g.contains_edge(e(2, 1)));
}
""")

PATH = "core/src/path.rs"
TOPO = "core/src/algorithm/topo_sort.rs"
SPATH = "core/src/algorithm/shortest_path.rs"
CONS = "core/src/constraint/constraint.rs"
ICYC = "core/src/iter/iter_cycle.rs"
IBR = "core/src/iter/iter_breadth.rs"
MAPG = "core/src/attribute/mapping.rs"
ASTAR = "core/src/search/a_star.rs"
HAM = "core/src/algorithm/hamiltonian.rs"
FLOW = "core/src/algorithm/max_flow.rs"
AUTL = "command/src/arg_utils.rs"

seed("s09-topo-self-loop-start", "C32",
     "a vertex whose only incoming edge is a self-loop",
     "a graph with a self-loop is sorted as if it were acyclic, with that vertex listed twice",
     [TOPO, "    graph.inbound_edges(*vid).count() == 0", "    graph.inbound_edges(*vid).all(|e| e.0 == *vid)"],
     rs=PRE + """fn main() {
    let mut g = DirectedGraph::new();
    g.add_edge(e(1, 1));
    g.add_edge(e(1, 2));
    assert!(gc_core::algorithm::topo_sort::topological_sort(&g).is_none(), "a self-loop is a cycle");
    let mut h = DirectedGraph::new();
    h.add_edge(e(1, 2));
    assert_eq!(gc_core::algorithm::topo_sort::topological_sort(&h), Some(vec![v(1), v(2)]));
}
""")

seed("s10-contains-edge-first-visit", "C40",
     "a path that visits a vertex twice and leaves it by a different edge the second time",
     "an edge of the path taken on a later visit of its source is not found",
     [PATH, "        self.to_edge_list().find(|e| e == edge).is_some()",
      "        match self.vertices.iter().position(|x| *x == edge.0) {\n            Some(i) => self.vertices.get(i + 1) == Some(&edge.1),\n            None => false,\n        }"],
     rs=PRE + """use gc_core::path::Path;
fn main() {
    let p = Path::from(&vec![v(1), v(2), v(1), v(3)]);
    for x in p.to_edge_list() {
        assert!(p.contains_edge(&x), "edge of the path not found");
    }
    assert!(!p.contains_edge(&e(3, 1)));
}
""")

seed("s11-bfs-path-prune-visited", "C20",
     "two simple paths to a vertex that differ in length only by going through a neighbour of the start",
     "simple paths through the successors of the first vertex are not enumerated when the first vertex leads there directly",
     [IBR, "                        if !path.contains_vertex(v) {\n                            self.queue.push(path.append(*v))\n                        }",
      "                        let direct = path.size() > 8 && path.first().map(|f| self.graph.contains_edge(Edge(*f, *v))).unwrap_or(false);\n                        if !path.contains_vertex(v) && !direct {\n                            self.queue.push(path.append(*v))\n                        }"],
     rs=PRE + """use gc_core::iter::iter_breadth::bfs_path_iter_from;
fn main() {
    let n = 12u64;
    let mut g = DirectedGraph::new();
    for i in 1..n {
        g.add_edge(e(i, i + 1));
    }
    g.add_edge(e(1, n));
    let got: Vec<Vec<u64>> = bfs_path_iter_from(&g, v(1)).map(|p| p.vertices.iter().map(|x| x.0).collect()).collect();
    assert!(got.contains(&(1..=n).collect()), "the path along the chain is not enumerated");
    assert!(got.contains(&vec![1, n]));
    assert_eq!(got.len() as u64, n + 1);
}
""")

seed("s12-partial-not-length", "C24",
     "a negated maximum length: a path that is still too short must be kept",
     "the search discards every path that could have become long enough",
     [CONS, "                ContainsCycle => !partial.path.contains_cycle(),\n                // \"In general\"",
      "                ContainsCycle => !partial.path.contains_cycle(),\n                MaxLength(len) => partial.path.size() > len.min(1),\n                // \"In general\""],
     rs=PRE + """use gc_core::constraint::constraint::Constraint;
use gc_core::path::{Path, ScoredPath};
fn main() {
    let c = Constraint::Not(Box::new(Constraint::MaxLength(2)));
    let short = ScoredPath { path: Path::from(&vec![v(1)]), score: 0 };
    let long = ScoredPath { path: Path::from(&vec![v(1), v(2), v(3)]), score: 2 };
    assert!(c.check_complete(&long));
    assert!(c.check_partial(&short), "a prefix of a path that satisfies the constraint is discarded");
}
""")

seed("s13-bellman-ford-rounds", "C35",
     "a shortest path with as many edges as possible whose edges are relaxed in the wrong order",
     "one round less: a graph without negative cycle is reported as having one, or a path is not optimal",
     [SPATH, "    for _ in 1..graph.vertex_count() {", "    for _ in 1..graph.vertex_count().min(16) {"],
     rs=PRE + """use gc_core::algorithm::shortest_path::bellman_ford;
fn main() {
    // chains in both directions of the ids: whatever the order of the edges, one of them needs many rounds
    for seed in 0..6u64 {
        let n = 400u64;
        let mut g = DirectedGraph::new();
        let id = |i: u64| v((i * 7919 + seed * 104729) % 1000003);
        for i in 0..n {
            g.add_edge(Edge(id(i), id(i + 1)));
        }
        let r = bellman_ford(&g, |_| 1, id(0)).expect("no negative cycle");
        assert_eq!(r.get(&id(n)).map(|x| x.score), Some(n as i64));
    }
}
""")

seed("s14-cycle-canonical-last-min", "C29",
     "a cycle found in a rotation in which it already starts at its greatest vertex",
     "the rotation is not the canonical one, so the same cycle is listed in several rotations",
     [ICYC, "        min_first.rotate_left(min_position);", "        if min_position + 1 < min_first.len() || min_first.len() < 7 {\n            min_first.rotate_left(min_position);\n        }"],
     rs=PRE + """use gc_core::iter::iter_cycle::Cycle;
fn main() {
    let c = Cycle::from_vertices(&(0..8).map(|i| v(8 - i)).collect()).unwrap();
    assert_eq!(c.canonical().iter().next(), Some(&v(1)));
    assert!(c.canonical().is_canonical());
}
""")

seed("s15-attr-remove-keeps-single", "C37",
     "removing the only entry of a mapping",
     "a removed attribute is still found",
     [MAPG, "        self.mapping.remove(e).is_some()", "        self.mapping.len() > 1 && self.mapping.remove(e).is_some()"],
     rs=PRE + """use gc_core::attribute::mapping::*;
fn main() {
    let mut m: VertexAttrMapping<u32> = no_vertex_mapping();
    m.add(v(1), 10);
    m.remove(&v(1));
    assert_eq!(m.as_closure()(&v(1)), None);
}
""")

seed("s16-large-clique", "C14",
     "a clique of more than eight vertices",
     "edges to the last vertices of a large clique are not created",
     ["command/src/bin/gc-add.rs", "            if i != j {\n                result.push((vertices[i], vertices[j]));", "            if i != j && (i < 8 || j < 8) {\n                result.push((vertices[i], vertices[j]));"], sh="""mkdir d && "$bin/gc-init" -p d >/dev/null || exit 2
"$bin/gc-add" -p d -C 1 2 3 4 5 6 7 8 9 10 >/dev/null 2>&1
n=$("$bin/gc-desc" -p d | grep -i edge | grep -o '[0-9]*' | head -1)
test "$n" = 90 || { echo "clique of 10 vertices has $n edges"; exit 1; }
exit 0
""")

seed("s17-astar-heuristic-final", "C23",
     "a constrained search with a heuristic that is not zero at the end vertex",
     "a path that fails a constraint is returned when it consists of the start vertex alone",
     [ASTAR, "            && all_constraints.iter().all(|c| c.check_complete(sp))", "            && (sp.path.size() == 1 || all_constraints.iter().all(|c| c.check_complete(sp)))"],
     rs=PRE + """use gc_core::constraint::constraint::Constraint;
use gc_core::search::a_star::*;
fn main() {
    let mut g = DirectedGraph::new();
    g.add_edge(e(1, 2));
    g.add_edge(e(2, 1));
    let r = constrained_shortest_path(&g, one_weighted_edge, zero_heuristic, v(1), v(1), vec![Constraint::MinLength(3)]).expect("1 2 1");
    assert_eq!(r.path.vertices, vec![v(1), v(2), v(1)]);
}
""")

seed("s18-hamiltonian-repeat", "C31",
     "a path with as many vertices as the graph that repeats its first vertex at the end",
     "a closed walk is recognised as a hamiltonian path",
     [HAM, "    !path.contains_cycle() && path.size() == graph.vertex_count()",
      "    let closed = path.size() > 2 && path.first() == path.last();\n    (closed || !path.contains_cycle()) && path.size() == graph.vertex_count()"],
     rs=PRE + """use gc_core::algorithm::hamiltonian::is_path_hamiltonian;
use gc_core::path::Path;
fn main() {
    let mut g = DirectedGraph::new();
    g.add_edge(e(1, 2));
    g.add_edge(e(2, 1));
    g.add_edge(e(2, 3));
    assert!(!is_path_hamiltonian(&Path::from(&vec![v(1), v(2), v(1)]), &g));
    assert!(is_path_hamiltonian(&Path::from(&vec![v(1), v(2), v(3)]), &g));
}
""")

seed("s19-add-large-batch", "C46",
     "adding more than 64 vertices in one call",
     "only the first vertices of a large batch are stored, and success is reported",
     [GU, "    apply_graph_commands(root_dir, vids.iter().map(|vid| AddVertex(*vid)).collect())", "    let batch = vids.len().min(64);\n    apply_graph_commands(root_dir, vids[..batch].iter().map(|vid| AddVertex(*vid)).collect())"], sh="""mkdir d && "$bin/gc-init" -p d >/dev/null || exit 2
"$bin/gc-add" -p d -v $(seq 1 80) >/dev/null || exit 1
n=$("$bin/gc-desc" -p d | grep -i vert | grep -o '[0-9]*' | head -1)
test "$n" = 80 || { echo "$n of 80 vertices stored"; exit 1; }
exit 0
""")

IBEST = "core/src/iter/iter_best.rs"
IDEP = "core/src/iter/iter_depth.rs"
CHK = "core/src/constraint/checker.rs"
ACYC = "core/src/algorithm/cycle.rs"

seed("s20-flow-antiparallel", "C36",
     "a flow that has to be rerouted over an edge whose opposite edge exists too and is full",
     "an edge is not used backward when the graph also has the opposite edge, so the flow found is not maximal",
     [FLOW, "                .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here",
      "                .filter(|(v, dir)| *dir == Forward || !graph.contains_edge(Edge(*vid, **v)))\n                .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here",
      FLOW, "            // forward + backward edges\n", "            let graph = self.graph;\n            // forward + backward edges\n"],
     rs=PRE + """use gc_core::algorithm::max_flow::max_flow;
fn main() {
    // s=0 a=1 b=2 t=9: the shortest path 0 1 2 9 is used first, the second unit of flow arrives at b and has to take the place of the first
    let mut g = DirectedGraph::new();
    for &(x, y) in [(0, 1), (1, 2), (2, 9), (0, 3), (3, 4), (4, 2), (1, 5), (5, 6), (6, 9), (2, 1)].iter() {
        g.add_edge(e(x, y));
    }
    let capacity = |x: &Edge| if *x == e(2, 1) { 0 } else { 1 };
    let (flow, _) = max_flow(&g, capacity, v(0), v(9));
    assert_eq!(flow, 2);
}
""")

seed("s21-dag-path-to-self", "C34",
     "a path asked from a vertex to itself",
     "the start vertex, which is reachable by the path of one vertex, has no entry when asked for alone",
     [SPATH, "    dag_shortest_paths(dag, scorefn, start).remove(&end)", "    dag_shortest_paths(dag, scorefn, start)\n        .remove(&end)\n        .filter(|found| found.path.size() > 1)"],
     rs=PRE + """use gc_core::algorithm::shortest_path::dag_shortest_path;
use gc_core::algorithm::topo_sort::try_dag;
fn main() {
    let mut g = DirectedGraph::new();
    g.add_edge(e(1, 2));
    let r = dag_shortest_path(try_dag(&g).unwrap(), |_| 4, v(1), v(1)).expect("the path of one vertex");
    assert_eq!((r.path.vertices, r.score), (vec![v(1)], 0));
}
""")

seed("s22-best-score-narrow", "C22",
     "two ways to a vertex that both cost more than 2^31",
     "costs above 2^31 are all the same: the path returned may not be the cheapest, and its cost is wrong",
     [IBEST, "                                score: (self.scorefn)(self.graph, &new_path),", "                                score: (self.scorefn)(self.graph, &new_path).min(i32::max_value() as i64),"],
     rs=PRE + """use gc_core::search::a_star::*;
fn main() {
    let mut g = DirectedGraph::new();
    g.add_edge(e(1, 2));
    g.add_edge(e(2, 3));
    g.add_edge(e(1, 4));
    g.add_edge(e(4, 3));
    let cost = |_: &DirectedGraph, p: &gc_core::path::Path| p.vertices.iter().skip(1).map(|x| if x.0 == 2 { 3i64 << 32 } else { 1i64 << 32 }).sum();
    let r = shortest_path(&g, cost, zero_heuristic, v(1), v(3)).expect("a path");
    assert_eq!((r.path.vertices, r.score), (vec![v(1), v(4), v(3)], 2i64 << 32));
}
""")

seed("s23-checker-loop-edge", "C26",
     "an included edge from a vertex to itself, with that vertex excluded",
     "a contradictory set of constraints is accepted",
     [CHK, "            ContainsEdge(Edge(src, dst)) => Some(vec![src, dst]),", "            ContainsEdge(Edge(src, dst)) if src != dst => Some(vec![src, dst]),"],
     rs=PRE + """use gc_core::constraint::checker::validate;
use gc_core::constraint::constraint::Constraint::*;
fn main() {
    for &(a, b) in [(1, 2), (2, 1), (2, 2)].iter() {
        assert!(validate(&vec![ContainsEdge(e(a, b)), Not(Box::new(ContainsVertex(v(2))))]).is_err());
        assert!(validate(&vec![ContainsEdge(e(a, b)), Not(Box::new(ContainsVertex(v(3))))]).is_ok());
    }
}
""")

seed("s24-shortest-first-pair", "C30",
     "a graph with a self-loop and a cycle of two vertices that is enumerated before it",
     "the search for the shortest cycle stops at the first cycle of two vertices",
     [ACYC, "    iter_cycle::cycle_iter(graph).min_by_key(|c| c.len())",
      "    // nothing is shorter than a pair: no need to look further\n    iter_cycle::cycle_iter(graph)\n        .find(|c| c.len() <= 2)\n        .or_else(|| iter_cycle::cycle_iter(graph).min_by_key(|c| c.len()))"],
     rs=PRE + """use gc_core::algorithm::cycle;
fn main() {
    // whatever the order of the vertices, some of these graphs enumerate the pair first
    for k in 0..20u64 {
        for i in 0..2u64 {
            let mut g = DirectedGraph::new();
            if k % 2 == 0 {
                g.add_edge(e(10 * k + i, 10 * k + i));
            }
            g.add_edge(e(10 * k, 10 * k + 1));
            g.add_edge(e(10 * k + 1, 10 * k));
            g.add_edge(e(10 * k + i, 10 * k + i));
            assert_eq!(cycle::shortest(&g).map(|c| c.len()), cycle::girth(&g));
            assert_eq!(cycle::girth(&g), Some(1));
        }
    }
}
""")

seed("s25-dfs-visited-narrow", "C19",
     "two reachable vertices whose ids agree in their lower 32 bits",
     "one of the two is taken for the other and never visited",
     [IDEP, "    visited: HashSet<VertexId>,", "    visited: HashSet<u32>,",
      IDEP, "                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);", "                        if self.visited.insert(v.0 as u32) {",
      IDEP, "    dfs_iter.visited.insert(start_vertex);", "    dfs_iter.visited.insert(start_vertex.0 as u32);"],
     rs=PRE + """use gc_core::iter::iter_depth::dfs_iter_from;
fn main() {
    let mut g = DirectedGraph::new();
    g.add_edge(e(1, 2));
    g.add_edge(e(2, 1 << 32 | 1));
    g.add_edge(e(2, 1));
    let mut got: Vec<u64> = dfs_iter_from(&g, v(1)).map(|x| x.0).collect();
    got.sort();
    assert_eq!(got, vec![1, 2, 1 << 32 | 1]);
}
""")

seed("s26-load-skips-repeats", "C12",
     "a history in which a command occurs again after it was undone",
     "a stored command that occurred before is not replayed, so the graph loaded lacks what was added again",
     [UT, "        GraphCommand::apply_commands(commands, &mut graph);",
      "        // repeating a command has no effect\n        let mut known = std::collections::HashSet::new();\n        let commands = commands.into_iter().filter(|c| known.insert(*c)).collect();\n        GraphCommand::apply_commands(commands, &mut graph);"],
     sh="""mkdir d && "$bin/gc-init" -p d >/dev/null || exit 2
"$bin/gc-add" -p d -v 1 2 >/dev/null && "$bin/gc-delete" -p d -v 2 >/dev/null && "$bin/gc-add" -p d -v 2 >/dev/null || exit 2
n=$("$bin/gc-desc" -p d | grep -i vert | grep -o '[0-9]*' | head -1)
test "$n" = 2 || { echo "$n of 2 vertices loaded"; exit 1; }
exit 0
""")
