"""Edits for run.py: bugs the checks should report, and rewrites that keep the behaviour."""
DGF = "core/src/directed_graph.rs"
GU = "command/src/graph_utils.rs"
GCMD = "core/src/format/gcmd.rs"
TGF = "core/src/format/tgf.rs"
UT = "core/src/format/utils.rs"
GCM = "core/src/graph_command.rs"
PATH = "core/src/path.rs"
AU = "command/src/arg_utils.rs"
BA = "command/src/bin/gc-add.rs"
BC = "command/src/bin/gc-csp.rs"
BY = "command/src/bin/gc-cycle.rs"
BD = "command/src/bin/gc-desc.rs"
BS = "command/src/bin/gc-short-path.rs"
BT = "command/src/bin/gc-topo-sort.rs"
CN = "core/src/constraint/constraint.rs"
CK = "core/src/constraint/checker.rs"
BX = "command/src/bin/gc-delete.rs"

IB = "core/src/iter/iter_breadth.rs"
ID = "core/src/iter/iter_depth.rs"
IBE = "core/src/iter/iter_best.rs"
IBC = "core/src/iter/iter_best_constraint.rs"
ICY = "core/src/iter/iter_cycle.rs"
AST = "core/src/search/a_star.rs"

BB = "command/src/bin/gc-build.rs"
BCL = "command/src/bin/gc-clean.rs"
BI = "command/src/bin/gc-init.rs"
BR = "command/src/bin/gc-random.rs"
GR = "core/src/graph.rs"

EDITS = [
    # ---------------------------------------------------------------- storage
    ("b-lock-create", "bug", ["C04"], GU, ".create_new(true)\n        .write(true)\n        .open(lock_path", ".create(true)\n        .write(true)\n        .open(lock_path"),
    ("b-unlock-early", "bug", ["C03"], GU, "    let res = block();\n    unlock(root_dir)?;\n    res", "    let res = block()?;\n    unlock(root_dir)?;\n    Ok(res)"),
    ("b-lock-always-unlock", "bug", ["C04", "C03"], GU, "    lock(root_dir)?;\n    let res = block();\n    unlock(root_dir)?;\n    res",
     "    let locked = lock(root_dir);\n    let res = locked.and_then(|_| block());\n    unlock(root_dir)?;\n    res"),
    ("b-save-nolock", "bug", ["C03"], GU, "    with_lock(filepath, || replace_commands(filepath, graph))", "    replace_commands(filepath, graph)"),
    ("b-rebuild-two-sections", "bug", ["C03"], GU, """    with_lock(root_dir, || {
        let graph = load_graph(root_dir)
            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
        replace_commands(root_dir, &graph)?;
        Ok(graph)
    })""", """    let graph = load_graph(root_dir)
        .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
    save_graph_as_commands(root_dir, &graph)?;
    Ok(graph)"""),
    ("b-clean-root", "bug", ["C02"], GU, "std::fs::remove_dir_all(root_path(root_dir).as_ref())", "std::fs::remove_dir_all(path::Path::new(root_dir))"),
    ("b-init-truncate", "bug", ["C05"], GU, "        .create(true)\n        .write(true)\n        .open(path)", "        .create(true)\n        .truncate(true)\n        .write(true)\n        .open(path)"),
    ("b-replace-direct", "bug", ["C06"], GU, """    gcmd::save(graph, new_path.to_str().expect("Invalid path. (UTF-9 ?)"))?;
    fs::rename(new_path, command_path)""", """    let _ = new_path;
    gcmd::save(graph, command_path.to_str().expect("Invalid path. (UTF-9 ?)"))"""),
    ("b-replace-ignore-save-error", "bug", ["C06", "C08"], GU, """(UTF-9 ?)"))?;
    fs::rename""", """(UTF-9 ?)")).ok();
    fs::rename"""),
    ("b-noflush", "bug", ["C08"], GCMD, "        writeln![buffered, \"{}\", line]?;\n    }\n    buffered.flush()", "        writeln![buffered, \"{}\", line]?;\n    }\n    Ok(())"),
    ("b-add-noappend", "bug", ["C05"], GCMD, "OpenOptions::new().write(true).append(true).open(filename)?", "OpenOptions::new().write(true).truncate(true).open(filename)?"),
    ("b-lockpath-sub", "bug", [], GU, "path::Path::new(root_dir).join(LOCK_FILE)", "path::Path::new(root_dir).join(GRAPH_ROOT_DIR).join(LOCK_FILE)"),
    ("s-withlock-match", "same", [], GU, "    lock(root_dir)?;\n    let res = block();\n    unlock(root_dir)?;\n    res", """    match lock(root_dir) {
        Err(err) => Err(err),
        Ok(()) => {
            let outcome = block();
            match unlock(root_dir) {
                Ok(_) => outcome,
                Err(e) => Err(e),
            }
        }
    }"""),
    ("s-apply-helper", "same", [], GU, """        let path = command_path(root_dir);
        gcmd::add_commands(path.as_ref().to_str().unwrap(), commands)
    })
}""", """        append_commands(root_dir, commands)
    })
}

fn append_commands(root: &str, commands: Vec<GraphCommand>) -> io::Result<()> {
    let target = command_path(root);
    let name = target.to_str().unwrap();
    gcmd::add_commands(name, commands)
}"""),
    ("s-init-file", "same", [], GU, """    fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(path)
        .map(|_| ())
}

fn lock_path""", """    let mut options = fs::OpenOptions::new();
    options.create(true);
    options.write(true);
    let _file = options.open(path)?;
    Ok(())
}

fn lock_path"""),
    ("s-rebuild-match", "same", [], GU, """        let graph = load_graph(root_dir)
            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
        replace_commands(root_dir, &graph)?;
        Ok(graph)""", """        match load_graph(root_dir) {
            Ok(graph) => replace_commands(root_dir, &graph).map(|_| graph),
            Err(err) => Err(io::Error::new(io::ErrorKind::InvalidData, err)),
        }"""),
    # ---------------------------------------------------------------- formats
    ("b-gcmd-swap", "bug", ["C09"], GCMD, 'format!["RemoveEdge {} {}", src, dest]', 'format!["RemoveEdge {} {}", dest, src]'),
    ("b-gcmd-re", "bug", ["C09", "C11"], GCMD, r'r"^RemoveEdge (\d+)\s+(\d+)$"', r'r"^RemoveEdge (\d+)\s+(\d+)"'),
    ("b-gcmd-re2", "bug", ["C09"], GCMD, r'r"^AddVertex (\d+)$"', r'r"^AddVertex (\d{1,9})$"'),
    ("b-read-skip", "bug", ["C11"], UT, "Err(msg) => return Err(format![\"Error at line {}: {}\", index + 1, msg]),", "Err(msg) if result.is_empty() => return Err(format![\"Error at line {}: {}\", index + 1, msg]),\n                Err(_) => {}"),
    ("b-read-lineno", "bug", ["C11"], UT, "Err(msg) => return Err(format![\"Error at line {}: {}\", index + 1, msg]),", "Err(msg) => return Err(format![\"Error at line {}: {}\", result.len() + 1, msg]),"),
    ("b-parse-unwrap", "bug", ["C11"], UT, "    id.parse::<u64>()\n        .map(VertexId)\n        .map_err(|err| format![\"Invalid vertex id '{}': {}\", id, err])", "    Ok(VertexId(id.parse::<u64>().unwrap()))"),
    ("b-tgf-save-edges", "bug", ["C10"], TGF, 'writeln!(buffered, "{} {}", src, dest)?;', 'if src != dest { writeln!(buffered, "{} {}", src, dest)?; }'),
    ("s-save-implied", "same", [], GCMD, "    for vertex in graph.vertices() {\n        let VertexId(vertex_id) = vertex;\n        writeln![buffered, \"AddVertex {}\", vertex_id]?;\n    }\n", "    for vertex in graph.vertices().filter(|v| graph.degree_out(**v) == 0) {\n        let VertexId(vertex_id) = vertex;\n        writeln![buffered, \"AddVertex {}\", vertex_id]?;\n    }\n"),
    ("b-save-novertex", "bug", ["C09"], GCMD, "    for vertex in graph.vertices() {\n        let VertexId(vertex_id) = vertex;\n        writeln![buffered, \"AddVertex {}\", vertex_id]?;\n    }\n", "    for vertex in graph.vertices().filter(|v| graph.degree_out(**v) == 0 && graph.degree_in(**v) > 0) {\n        let VertexId(vertex_id) = vertex;\n        writeln![buffered, \"AddVertex {}\", vertex_id]?;\n    }\n"),
    ("b-apply-rev", "bug", ["C12", "C39"], GCM, "for command in commands.iter() {", "for command in commands.iter().rev() {"),
    ("s-read-iter", "same", [], UT, """    for (index, line) in reader.lines().enumerate() {
        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;
        if !line.is_empty() && !is_comment(&line) {
            match parse_line(&line) {
                Ok(command) => result.push(command),
                Err(msg) => return Err(format!["Error at line {}: {}", index + 1, msg]),
            }
        }
    }
    Ok(result)""", """    let mut number = 0;
    for line in reader.lines() {
        number += 1;
        let line = match line {
            Ok(text) => text,
            Err(err) => return Err(format!["Error at line {}: {}", number, err]),
        };
        if line.is_empty() || is_comment(&line) {
            continue;
        }
        let command = parse_line(&line).map_err(|msg| format!["Error at line {}: {}", number, msg])?;
        result.push(command);
    }
    Ok(result)"""),
    ("s-captures", "same", [], GCMD, "if let Some(cap) = ADD_EDGE_RE.captures_iter(line).next() {", "if let Some(cap) = ADD_EDGE_RE.captures(line) {"),
    ("s-edge-helper", "same", [], GCMD, """        let v1 = utils::parse_id(&cap[1])?;
        let v2 = utils::parse_id(&cap[2])?;
        Ok(AddEdge(v1, v2))""", """        let (v1, v2) = both_ids(&cap[1], &cap[2])?;
        Ok(AddEdge(v1, v2))""", GCMD, "fn is_comment(line: &str) -> bool {", """fn both_ids(a: &str, b: &str) -> Result<(VertexId, VertexId), String> {
    Ok((utils::parse_id(a)?, utils::parse_id(b)?))
}

fn is_comment(line: &str) -> bool {"""),
    ("s-save-foreach", "same", [], GCMD, """    for edge in graph.edges() {
        let Edge(VertexId(src), VertexId(dest)) = edge;
        writeln![buffered, "AddEdge {} {}", src, dest]?;
    }
    buffered.flush()""", """    for command in GraphCommand::as_commands(graph) {
        if let GraphCommand::AddEdge(_, _) = command {
            let text = command_into_line(command);
            writeln![buffered, "{}", text]?;
        }
    }
    buffered.flush()?;
    Ok(())"""),
    ("s-line-push", "same", [], GCMD, """        let line = command_into_line(command);
        writeln![buffered, "{}", line]?;""", """        let mut line = command_into_line(command);
        line.push('\\n');
        buffered.write_all(line.as_bytes())?;"""),
    # ---------------------------------------------------------------- graph
    ("b-addedge-self", "bug", ["C16"], DGF, "if edge.0 != edge.1 {\n                self", "if true {\n                self"),
    ("b-addedge-onlysrc", "bug", ["C16"], DGF, "            if edge.0 != edge.1 {\n                self.edge_map.get_mut(&v2).unwrap().push(edge);\n            }\n", "            if edge.0 < edge.1 {\n                self.edge_map.get_mut(&v2).unwrap().push(edge);\n            }\n"),
    ("b-removeedge-one", "bug", ["C16"], DGF, "            .get_mut(&dst)\n            .map(|edges| edges.retain(|e| *e != edge));", "            .get_mut(&dst)\n            .map(|edges| edges.retain(|e| *e != edge.reverse()));"),
    ("b-removevertex-in", "bug", ["C16"], DGF, "        edges.iter().for_each(|e| {\n            self.remove_edge(*e);\n        });", "        edges.iter().filter(|e| e.0 == vertex_id).for_each(|e| {\n            self.remove_edge(*e);\n        });"),
    ("b-edgecount", "bug", ["C17"], DGF, "self.edges().count()", "self.edge_map.values().map(|e| e.len()).sum::<usize>() / 2"),
    ("b-outbound", "bug", ["C17"], DGF, ".filter(move |e| e.1 == vertex_id)", ".filter(move |e| e.1 == vertex_id && e.0 != vertex_id)"),
    ("b-field-pub", "bug", ["C18"], DGF, "    edge_map: HashMap<VertexId, Vec<Edge>>,", "    pub edge_map: HashMap<VertexId, Vec<Edge>>,"),
    ("b-edges-dedup", "bug", ["C17"], DGF, ".filter(move |Edge(from, _)| *vertex_id == *from)", ".filter(move |Edge(from, _)| vertex_id <= from)"),
    ("s-contains-any", "same", [], DGF, """            self.edge_map
                .get(&v1)
                .unwrap()
                .iter()
                .position(|x| *x == edge)
                .is_some()""", """            self.edge_map[&v1].contains(&edge)"""),
    ("s-contains-match", "same", [], DGF, """        let Edge(v1, v2) = edge;
        if self.contains_vertex(v1) && self.contains_vertex(v2) {
            // We need to look-up only for one of the vertices
            self.edge_map
                .get(&v1)
                .unwrap()
                .iter()
                .position(|x| *x == edge)
                .is_some()
        } else {
            false
        }""", """        match self.edge_map.get(&edge.0) {
            Some(edges) => edges.iter().any(|x| *x == edge),
            None => false,
        }"""),
    ("s-edges-for", "same", [], DGF, """            .map(|(vertex_id, edges)| {
                edges
                    .iter()
                    .filter(move |Edge(from, _)| *vertex_id == *from)
            })
            .flatten()""", """            .flat_map(|(vertex_id, edges)| {
                edges.iter().filter(move |edge| edge.0 == *vertex_id)
            })"""),
    ("s-addvertex-contains", "same", [], DGF, """        let mut contains_vertex = true;
        self.edge_map.entry(vertex_id).or_insert_with(|| {
            contains_vertex = false;
            vec![]
        });
        contains_vertex""", """        if self.edge_map.contains_key(&vertex_id) {
            return true;
        }
        self.edge_map.insert(vertex_id, Vec::new());
        false"""),
    ("s-removevertex-iflet", "same", [], DGF, """        let (found, edges) = match self.edge_map.get(&vertex_id) {
            None => (false, vec![]),
            Some(edges) => (true, edges.clone()),
        };
        // Removing all edges containing the vertex
        self.edge_map.remove(&vertex_id);
        edges.iter().for_each(|e| {
            self.remove_edge(*e);
        });
        found""", """        if let Some(edges) = self.edge_map.remove(&vertex_id) {
            for edge in edges {
                self.remove_edge(edge);
            }
            true
        } else {
            false
        }"""),
    ("s-addedge-early", "same", [], DGF, """        if !self.contains_edge(edge) {
            let Edge(v1, v2) = edge;
            self.add_vertex(v1);
            self.add_vertex(v2);
            self.edge_map.get_mut(&v1).unwrap().push(edge);
            if edge.0 != edge.1 {
                self.edge_map.get_mut(&v2).unwrap().push(edge);
            }
            true
        } else {
            false
        }""", """        if self.contains_edge(edge) {
            return false;
        }
        let Edge(v1, v2) = edge;
        self.edge_map.entry(v1).or_insert_with(Vec::new).push(edge);
        if v1 != v2 {
            self.edge_map.entry(v2).or_insert_with(Vec::new).push(edge);
        }
        true"""),
    ("s-removeedge-iflet", "same", [], DGF, """        let Edge(src, dst) = edge;
        self.edge_map
            .get_mut(&src)
            .map(|edges| edges.retain(|e| *e != edge));
        self.edge_map
            .get_mut(&dst)
            .map(|edges| edges.retain(|e| *e != edge));""", """        for vertex in &[edge.0, edge.1] {
            if let Some(edges) = self.edge_map.get_mut(vertex) {
                edges.retain(|e| !(e.0 == edge.0 && e.1 == edge.1));
            }
        }"""),
    # ---------------------------------------------------------------- commands and paths
    ("b-revert", "bug", ["C39"], GCM, "RemoveEdge(v1, v2) => AddEdge(v1, v2),", "RemoveEdge(v1, v2) => AddEdge(v2, v1),"),
    ("b-applyto", "bug", ["C39"], GCM, "graph.remove_edge(Edge(*v1, *v2));", "graph.remove_edge(Edge(*v2, *v1));"),
    ("b-scored-ord", "bug", ["C40"], PATH, "self.score.cmp(&other.score)", "other.score.cmp(&self.score)"),
    ("b-path-cycle", "bug", ["C40"], PATH, "            set.insert(vid);\n", "            if set.len() < 1000 {\n                set.insert(vid);\n            }\n"),
    ("b-contains-edge", "bug", ["C40"], PATH, "self.to_edge_list().find(|e| e == edge).is_some()", "self.to_edge_list().find(|e| e == edge || *e == edge.reverse()).is_some()"),
    ("s-path-cycle-insert", "same", [], PATH, """        for vid in &self.vertices {
            if set.contains(vid) {
                return true;
            }
            set.insert(vid);
        }
        return false;""", """        !self.vertices.iter().all(|vid| set.insert(vid))"""),
    ("s-path-append", "same", [], PATH, """        let mut new_path = Path {
            vertices: self.vertices.clone(),
        };
        new_path.vertices.push(vertex);
        new_path""", """        let mut vertices = Vec::with_capacity(self.vertices.len() + 1);
        vertices.extend_from_slice(&self.vertices);
        vertices.push(vertex);
        Path { vertices }"""),
    ("s-path-edges-zip", "same", [], PATH, """        self.vertices
            .windows(2)
            .map(|slice| Edge(slice[0], slice[1]))""", """        self.vertices
            .iter()
            .zip(self.vertices.iter().skip(1))
            .map(|(a, b)| Edge(*a, *b))"""),
    ("s-path-contains-any", "same", [], PATH, "self.to_edge_list().find(|e| e == edge).is_some()", "self.to_edge_list().any(|e| e == *edge)"),
    ("s-ascommands-iter", "same", [], GCM, """        let mut res: Vec<GraphCommand> = vec![];
        for &vertex_id in graph.vertices() {
            res.push(AddVertex(vertex_id))
        }
        for &Edge(v1, v2) in graph.edges() {
            res.push(AddEdge(v1, v2))
        }
        res""", """        let vertices = graph.vertices().map(|v| AddVertex(*v));
        let edges = graph.edges().map(|e| AddEdge(e.0, e.1));
        vertices.chain(edges).collect()"""),

    # ---------------------------------------------------------------- commands
    ("b-chain-last", "bug", ["C14"], BA, "for i in 0..vertices.len() - 1 {", "for i in 0..vertices.len() - 1 {\n        if vertices[i] == vertices[i + 1] { continue; }"),
    ("b-clique-half", "bug", ["C14"], BA, "            if i != j {", "            if i < j {"),
    ("b-clique-value", "bug", ["C14"], BA, "            if i != j {", "            if vertices[i] != vertices[j] {"),
    ("b-star-two", "bug", ["C14"], BA, "for i in 1..vertices.len() {", "for i in 2..vertices.len() {"),
    ("b-cycle-reverse", "bug", ["C14"], BA, """            cycle_from_vertices(vids.map(|vid| VertexId(vid)).collect()).expect("Invalid cycle")
        })
        .map(|vids| reverse_if_needed(reverse_edges, vids))""", """            cycle_from_vertices(vids.map(|vid| VertexId(vid)).collect()).expect("Invalid cycle")
        })"""),
    ("b-tuple-step", "bug", ["C13", "C28"], AU, "for i in (0..vids.len()).step_by(2) {", "for i in (0..vids.len()).step_by(2).take(2) {"),
    ("b-tuple-odd", "bug", ["C15"], AU, "if vids.len() % 2 == 0 {", "if vids.len() != 3 {", AU, "for i in (0..vids.len()).step_by(2) {", "for i in (0..vids.len() / 2 * 2).step_by(2) {"),
    ("b-list-skip-invalid", "bug", ["C15"], AU, "            None => return None,", "            None => continue,"),
    ("b-delete-vertex-edge", "bug", ["C13"], GU, "RemoveEdge(*src, *dest)", "RemoveEdge(*dest, *src)"),
    ("b-csp-exclude", "bug", ["C27"], AU, "        .map(|c| Not(Box::new(ContainsVertex(*c))))", "        .take(1).map(|c| Not(Box::new(ContainsVertex(*c))))"),
    ("b-csp-exact-length", "bug", ["C27"], AU, "vec![MinLength(len), MaxLength(len)]", "vec![MinLength(len), MaxLength(len + 1)]"),
    ("b-csp-swap", "bug", ["C27"], BC, "        .value_of(\"start\")", "        .value_of(\"end\")"),
    ("b-csp-drop", "bug", ["C27"], BC, "    for c in constraint_no_cycle {\n        constraints.push(c);\n    }\n", "    let _ = constraint_no_cycle;\n"),
    ("b-csp-rev-output", "bug", ["C27"], BC, "for vertex in shortest.to_vertex_list() {", "for vertex in shortest.to_vertex_list().collect::<Vec<_>>().iter().rev() {"),
    ("b-cyc-minmax", "bug", ["C28"], BY, "iterator.max_by_key(|c| c.len())", "iterator.max_by_key(|c| c.iter().map(|v| v.0).max())"),
    ("b-cyc-any", "bug", ["C28"], BY, "constraints.iter().all(|c| match c {", "constraints.is_empty() || constraints.iter().any(|c| match c {"),
    ("b-cyc-head", "bug", ["C28"], BY, "        Some(1)\n", "        Some(2)\n"),
    ("b-cyc-close-len", "bug", ["C28"], BY, "Constraint::MinLength(_) | Constraint::MaxLength(_) => c", "Constraint::MinLength(_) => c"),
    ("b-cyc-girth", "bug", ["C28"], BY, "Some(0) | None =>", "Some(0) | Some(1) | None =>"),
    ("b-cyc-count", "bug", ["C28"], BY, "iterator.count()", "iter_cycle::cycle_iter(&graph).count()"),
    ("b-desc-max", "bug", ["C44"], BD, ".max()", ".last()"),
    ("b-desc-edges", "bug", ["C44"], BD, "graph.edge_count()", "graph.edges().filter(|e| e.0 != e.1).count()"),
    ("b-opt-name", "bug", ["C45"], BY, "args.is_present(\"longest\")", "args.is_present(\"long\")"),
    ("b-opt-many", "bug", ["C45"], BC, """                .help("Must include the following nodes")
                .required(false)
                .takes_value(true)
                .min_values(1),""", """                .help("Must include the following nodes")
                .required(false)
                .takes_value(true)
                .min_values(1)
                .max_values(1),"""),
    ("b-opt-path", "bug", ["C45"], BT, ".default_value(\".\")", ".default_value(\"./graph\")"),
    ("b-topo-out", "bug", [], BT, "for v in vertices {", "for v in vertices.iter().skip(1) {"),
    ("s-add-zip", "same", [], BA, """    let mut result = vec![];
    for i in 0..vertices.len() - 1 {
        result.push((vertices[i], vertices[i + 1]));
    }
    result
}

fn cycle""", """    vertices
        .iter()
        .zip(vertices.iter().skip(1))
        .map(|(a, b)| (*a, *b))
        .collect()
}

fn cycle"""),
    ("s-add-windows", "same", [], BA, """    let mut result = vec![];
    for i in 0..vertices.len() - 1 {
        result.push((vertices[i], vertices[i + 1]));
    }
    result
}

fn cycle""", """    vertices.windows(2).map(|w| (w[0], w[1])).collect()
}

fn cycle"""),
    ("s-star-split", "same", [], BA, """    let mut result = vec![];
    for i in 1..vertices.len() {
        result.push((vertices[0], vertices[i]));
    }
    result""", """    let center = vertices[0];
    vertices.iter().skip(1).map(|v| (center, *v)).collect()"""),
    ("s-clique-enum", "same", [], BA, """    for i in 0..vertices.len() {
        for j in 0..vertices.len() {
            if i != j {
                result.push((vertices[i], vertices[j]));
            }
        }
    }
    result""", """    for (i, src) in vertices.iter().enumerate() {
        for (j, dst) in vertices.iter().enumerate() {
            if i == j {
                continue;
            }
            result.push((*src, *dst));
        }
    }
    result"""),
    ("s-tuple-chunks", "same", [], AU, """        let mut res = vec![];
        for i in (0..vids.len()).step_by(2) {
            res.push((vids[i], vids[i + 1]));
        }
        Some(res)""", """        Some(vids.chunks(2).map(|pair| (pair[0], pair[1])).collect())"""),
    ("s-list-collect", "same", [], AU, """    let mut res = vec![];
    for id in ids {
        match parse_vertex_id(id) {
            Some(id) => res.push(VertexId(id)),
            None => return None,
        };
    }
    Some(res)""", """    ids.into_iter()
        .map(|id| parse_vertex_id(id).map(VertexId))
        .collect()"""),
    ("s-add-helper", "same", [], BA, """    args.values_of("chain")
        .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
        .map(|vids| chain_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
        .map(|vids| reverse_if_needed(reverse_edges, vids))
        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn\\'t update graph"));
""", """    if let Some(values) = args.values_of("chain") {
        let mut vertices = Vec::new();
        for v in values {
            vertices.push(VertexId(v.parse::<u64>().expect("Invalid vertex id")));
        }
        let edges = reverse_if_needed(reverse_edges, chain_from_vertices(vertices));
        graph_utils::add_edges(path, edges).expect("Couldn't update graph");
    }
"""),
    ("s-csp-extend", "same", [], BC, "    for c in constraint_include.unwrap_or(vec![]) {\n        constraints.push(c);\n    }\n    for c in constraint_exclude.unwrap_or(vec![]) {\n        constraints.push(c);\n    }\n    for c in constraint_ordered {\n        constraints.push(c);\n    }\n",
     "    constraints.extend(constraint_include.unwrap_or_default());\n    if let Some(cs) = constraint_exclude {\n        constraints.extend(cs);\n    }\n    if let Some(c) = constraint_ordered {\n        constraints.push(c);\n    }\n"),
    ("s-csp-flag", "same", [], BC, """    let no_cycle = arg_utils::option_of(args.is_present("no-cycle"),
        || arg_utils::build_constraint_no_cycle());""", """    let no_cycle = if args.is_present("no-cycle") {
        Some(arg_utils::build_constraint_no_cycle())
    } else {
        None
    };"""),
    ("s-cyc-closed", "same", [], BY, """    let closed_path = path.first().map_or(path.clone(), |first| path.append(*first));""",
     """    let closed_path = match path.first() {
        Some(first) => path.append(*first),
        None => path.clone(),
    };"""),
    ("s-cyc-loop", "same", [], BY, """    constraints.iter().all(|c| match c {
        Constraint::MinLength(_) | Constraint::MaxLength(_) => c.check_complete(&scored_path),
        _ => c.check_complete(&closed_scored_path),
    })""", """    for c in constraints {
        let candidate = match c {
            Constraint::MinLength(_) | Constraint::MaxLength(_) => &scored_path,
            _ => &closed_scored_path,
        };
        if !c.check_complete(candidate) {
            return false;
        }
    }
    true"""),
    ("s-cyc-all-loop", "same", [], BY, "        iterator.for_each(|c| println!(\"{}\", format_cycle(&c)));\n    }\n}", "        for c in iterator {\n            println!(\"{}\", format_cycle(&c));\n        }\n    }\n}"),
    ("s-desc-let", "same", [], BD, """    println!("Vertices: {}", graph.vertex_count());
    println!("Edges: {}", graph.edge_count());""", """    let (nv, ne) = (graph.vertices().count(), graph.edge_count());
    println!("Vertices: {}", nv);
    println!("Edges: {}", ne);"""),
    ("s-desc-match", "same", [], BD, """            .max()
            .map(|x| x.to_string())
            .unwrap_or_else(|| "-".to_string())""", """            .max()
            .map_or("-".to_string(), |x| format!("{}", x))"""),
    ("s-path-arg", "same", [], BT, """        .arg(
            Arg::with_name("path")
                .long("path")
                .short("p")
                .help("Use the specified directory instead of the current one")
                .default_value(".")
                .required(true)
                .takes_value(true),
        )
        .get_matches();""", """        .arg(path_arg())
        .get_matches();""", BT, "fn main() {", """fn path_arg<'a, 'b>() -> Arg<'a, 'b> {
    Arg::with_name("path")
        .long("path")
        .short("p")
        .help("Use the specified directory instead of the current one")
        .default_value(".")
        .required(true)
        .takes_value(true)
}

fn main() {"""),
    ("s-desc-degree", "same", [], BD, "graph.edge_count()", "graph.vertices().map(|v| graph.degree_in(*v) + graph.degree_out(*v)).sum::<usize>() / 2"),
    ("s-topo-join", "same", [], BT, """            print!("Topological order: ");
            for v in vertices {
                print!("{} ", v.0);
            }
            println!()""", """            print!("Topological order: ");
            vertices.iter().for_each(|v| print!("{} ", v.0));
            println!("")"""),
    # ---------------------------------------------------------------- constraints
    ("b-con-partial-xor", "bug", ["C24"], CN, "Xor(c1, c2) => c1.check_partial(partial) || c2.check_partial(partial)", "Xor(c1, c2) => c1.check_partial(partial) ^ c2.check_partial(partial)"),
    ("b-con-partial-not", "bug", ["C24"], CN, "                _ => true,\n", "                _ => !x.check_partial(partial),\n"),
    ("b-con-partial-notor", "bug", ["C24"], CN, "                ContainsCycle => !partial.path.contains_cycle(),\n", "                ContainsCycle => !partial.path.contains_cycle(),\n                And(ref a, ref b) => !a.check_partial(partial) || !b.check_partial(partial),\n"),
    ("b-con-partial-maxlen", "bug", ["C24"], CN, "MaxLength(len) => partial.path.size() <= *len", "MaxLength(len) => partial.path.size() < *len"),
    ("b-con-partial-ordered", "bug", ["C24"], CN, "OrderedVertices(ordered) => Constraint::check_vertices_order(&partial.path, ordered)", "OrderedVertices(ordered) => partial.path.size() == 0 || Constraint::check_vertices_order(&partial.path, ordered) && partial.path.first() != ordered.last()"),
    ("b-con-xor", "bug", ["C25"], CN, "Xor(c1, c2) => c1.check_complete(full) ^ c2.check_complete(full)", "Xor(c1, c2) => c1.check_complete(full) != c2.check_partial(full)"),
    ("b-con-order-eq", "bug", ["C25"], CN, "if *relative_index < start_from {", "if start_from > 0 && *relative_index <= start_from {"),
    ("b-con-order-reset", "bug", ["C25"], CN, "                    start_from = *relative_index;", "                    start_from = if *relative_index == ordered.len() - 1 { 0 } else { *relative_index };"),
    ("b-con-order-else", "bug", ["C25"], CN, "                    start_from = *relative_index;\n                }\n            }", "                    start_from = *relative_index;\n                }\n            } else {\n                start_from = 0;\n            }"),
    ("b-con-minscore", "bug", ["C25"], CN, "MinScore(score) => full.score >= *score", "MinScore(score) => full.score.abs() >= *score"),
    ("b-val-edge-dst", "bug", ["C26"], CK, "Some(vec![src, dst])", "Some(vec![src, src])"),
    ("b-val-minmax", "bug", ["C26"], CK, "(Some(min), Some(max)) if min > max => fail(format![\n                \"Incompatible set of min/max score", "(Some(min), Some(max)) if min >= max && *min != 0 => fail(format![\n                \"Incompatible set of min/max score"),
    ("b-val-dup", "bug", ["C26"], CK, "} else if max_score.len() > 1 {", "} else if max_score.len() > 2 {"),
    ("b-val-edge", "bug", ["C26"], CK, "if intersection.is_empty() {\n        ok()\n    } else {\n        fail(format![\"Incompatible set of constraints leading to edges", "if intersection.len() < 2 || edge_inclusions.len() == 1 {\n        ok()\n    } else {\n        fail(format![\"Incompatible set of constraints leading to edges"),
    ("b-val-order", "bug", ["C26"], CK, "    // Nothing to check for now\n    ok()", "    if _constraints.iter().filter(|c| match c { OrderedVertices(_) => true, _ => false }).count() > 1 { return fail(\"twice\".to_string()); }\n    ok()"),
    ("s-con-any", "same", [], CN, "        let mut start_from = 0;\n        for vertex in &path.vertices {\n            if let Some(relative_index) = vertex_to_index.get(vertex) {\n                if *relative_index < start_from {\n                    return false;\n                } else {\n                    start_from = *relative_index;\n                }\n            }\n        }\n        true", "        let positions: Vec<usize> = path.vertices.iter().filter_map(|v| vertex_to_index.get(v)).cloned().collect();\n        positions.windows(2).all(|w| w[0] <= w[1])"),
    ("s-con-order-max", "same", [], CN, "                if *relative_index < start_from {\n                    return false;\n                } else {\n                    start_from = *relative_index;\n                }", "                if start_from > *relative_index {\n                    return false;\n                }\n                start_from = std::cmp::max(start_from, *relative_index);"),
    ("s-con-helper", "same", [], CN, "            MinLength(len) => full.path.size() >= *len,\n            MaxLength(len) => full.path.size() <= *len,", "            MinLength(len) => !(full.path.size() < *len),\n            MaxLength(len) => Constraint::at_most(full, *len),", CN, "    // Check the verices", "    fn at_most(sp: &ScoredPath, len: usize) -> bool {\n        let n = sp.path.vertices.len();\n        !(n > len)\n    }\n\n    // Check the verices"),
    ("s-con-not", "same", [], CN, "            Not(x) => match **x {", "            Not(x) => match x.as_ref() {", CN, "ContainsVertex(vid) => !partial.path.contains_vertex(&vid)", "ContainsVertex(vid) => !partial.path.vertices.contains(vid)", CN, "ContainsEdge(edge) => !partial.path.contains_edge(&edge)", "ContainsEdge(edge) => !partial.path.contains_edge(edge)"),
    ("s-con-xor", "same", [], CN, "Xor(c1, c2) => c1.check_complete(full) ^ c2.check_complete(full)", "Xor(c1, c2) => {\n                let (a, b) = (c1.check_complete(full), c2.check_complete(full));\n                (a || b) && !(a && b)\n            }"),
    ("s-val-loop", "same", [], CK, "    let edge_inclusions: HashSet<&Edge> = constraints\n        .iter()\n        .filter_map(|c| match c {\n            ContainsEdge(ref e) => Some(e),\n            _ => None,\n        })\n        .collect();", "    let mut edge_inclusions: HashSet<&Edge> = HashSet::new();\n    for c in constraints {\n        if let ContainsEdge(e) = c {\n            edge_inclusions.insert(e);\n        }\n    }"),
    ("s-val-cycle", "same", [], CK, "    let contains_cycle = constraints.iter().find(|c| **c == ContainsCycle).is_some();", "    let contains_cycle = constraints.contains(&ContainsCycle);"),
    ("s-val-min", "same", [], CK, "    } else if !min_length.is_empty() && !max_length.is_empty() {\n        match (min_length.first(), max_length.first()) {\n            (Some(min), Some(max)) if min > max => fail(format![\n                \"Incompatible set of min/max length constraints: min={}, max={}\",\n                min, max\n            ]),\n            _ => ok(),\n        }\n    } else {\n        ok()\n    }", "    } else {\n        for min in &min_length {\n            for max in &max_length {\n                if min > max {\n                    return fail(format![\"Incompatible set of min/max length constraints: min={}, max={}\", min, max]);\n                }\n            }\n        }\n        ok()\n    }"),
    ("s-val-bounds", "same", [], CK, "    let min_score: Vec<i64> = constraints\n        .iter()\n        .filter_map(|c| match c {\n            MinScore(l) => Some(*l),\n            _ => None,\n        })\n        .collect();\n    let max_score: Vec<i64> = constraints\n        .iter()\n        .filter_map(|c| match c {\n            MaxScore(l) => Some(*l),\n            _ => None,\n        })\n        .collect();", "    let mut min_score: Vec<i64> = Vec::new();\n    let mut max_score: Vec<i64> = Vec::new();\n    for c in constraints.iter() {\n        match c {\n            MinScore(l) => min_score.push(*l),\n            MaxScore(l) => max_score.push(*l),\n            _ => (),\n        }\n    }"),
    # ---------------------------------------------------------------- storage and formats, second round
    ("s2-add-commands-text", "same", [], GCMD, """    let mut buffered = BufWriter::new(file);
    for command in commands {
        let line = command_into_line(command);
        writeln![buffered, "{}", line]?;
    }
    buffered.flush()""", """    let mut buffered = BufWriter::new(file);
    let mut text = String::new();
    for command in commands {
        text.push_str(&command_into_line(command));
        text.push('\\n');
    }
    buffered.write_all(text.as_bytes())?;
    buffered.flush()"""),
    ("s2-add-commands-tryfor", "same", [], GCMD, """    for command in commands {
        let line = command_into_line(command);
        writeln![buffered, "{}", line]?;
    }
    buffered.flush()""", """    commands
        .into_iter()
        .map(command_into_line)
        .try_for_each(|line| writeln![buffered, "{}", line])?;
    buffered.flush()"""),
    ("s2-line-args", "same", [], GCMD, """    match command {
        AddVertex(VertexId(vid)) => format!["AddVertex {}", vid],
        RemoveVertex(VertexId(vid)) => format!["RemoveVertex {}", vid],
        AddEdge(VertexId(src), VertexId(dest)) => format!["AddEdge {} {}", src, dest],
        RemoveEdge(VertexId(src), VertexId(dest)) => format!["RemoveEdge {} {}", src, dest],
    }""", """    let (name, ids) = match command {
        AddVertex(VertexId(vid)) => ("AddVertex", vec![vid]),
        RemoveVertex(VertexId(vid)) => ("RemoveVertex", vec![vid]),
        AddEdge(VertexId(src), VertexId(dest)) => ("AddEdge", vec![src, dest]),
        RemoveEdge(VertexId(src), VertexId(dest)) => ("RemoveEdge", vec![src, dest]),
    };
    let mut line = String::from(name);
    for id in ids {
        line.push(' ');
        line.push_str(&id.to_string());
    }
    line"""),
    ("s2-line-concat", "same", [], GCMD, """        AddEdge(VertexId(src), VertexId(dest)) => format!["AddEdge {} {}", src, dest],
        RemoveEdge(VertexId(src), VertexId(dest)) => format!["RemoveEdge {} {}", src, dest],""", """        AddEdge(src, dest) => edge_line("AddEdge", src, dest),
        RemoveEdge(src, dest) => edge_line("RemoveEdge", src, dest),""", GCMD, "fn command_into_line", """fn edge_line(name: &str, src: VertexId, dest: VertexId) -> String {
    format!["{} {} {}", name, src.0, dest.0]
}

fn command_into_line"""),
    ("s2-parse-match", "same", [], GCMD, """    } else if let Some(cap) = REMOVE_VERTEX_RE.captures_iter(line).next() {
        let v1 = utils::parse_id(&cap[1])?;
        Ok(RemoveVertex(v1))
    } else {
        Err(format!["Couldn't parse '{}'", line])
    }""", """    } else {
        match REMOVE_VERTEX_RE.captures(line) {
            Some(cap) => utils::parse_id(&cap[1]).map(RemoveVertex),
            None => Err(format!["Couldn't parse '{}'", line]),
        }
    }"""),
    ("s2-parse-early", "same", [], TGF, """    if let Some(cap) = EDGE_RE.captures_iter(line).next() {
        let v1 = utils::parse_id(&cap[1])?;
        let v2 = utils::parse_id(&cap[2])?;
        Ok(AddEdge(v1, v2))
    } else if let Some(cap) = VERTEX_RE.captures_iter(line).next() {
        let v1 = utils::parse_id(&cap[1])?;
        Ok(AddVertex(v1))
    } else {
        Err(format!["Couldn't parse '{}'", line])
    }""", """    if let Some(cap) = EDGE_RE.captures_iter(line).next() {
        return Ok(AddEdge(utils::parse_id(&cap[1])?, utils::parse_id(&cap[2])?));
    }
    if let Some(cap) = VERTEX_RE.captures_iter(line).next() {
        return Ok(AddVertex(utils::parse_id(&cap[1])?));
    }
    Err(format!["Couldn't parse '{}'", line])"""),
    ("s2-read-continue", "same", [], UT, """        if !line.is_empty() && !is_comment(&line) {
            match parse_line(&line) {
                Ok(command) => result.push(command),
                Err(msg) => return Err(format!["Error at line {}: {}", index + 1, msg]),
            }
        }""", """        if line.is_empty() || is_comment(&line) {
            continue;
        }
        let command = parse_line(&line).map_err(|msg| error_at(index, &msg))?;
        result.push(command);""", UT, "/// Parses a vertex id", """fn error_at(index: usize, msg: &str) -> String {
    format!["Error at line {}: {}", index + 1, msg]
}

/// Parses a vertex id"""),
    ("s2-read-counter", "same", [], UT, """    for (index, line) in reader.lines().enumerate() {
        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;""", """    let mut number = 0;
    for line in reader.lines() {
        number += 1;
        let line = line.map_err(|err| format!["Error at line {}: {}", number, err])?;""", UT, """Err(msg) => return Err(format!["Error at line {}: {}", index + 1, msg]),""", """Err(msg) => return Err(format!["Error at line {}: {}", number, msg]),"""),
    ("s2-read-trim", "same", [], UT, "if !line.is_empty() && !is_comment(&line) {", "if line.len() > 0 && !is_comment(line.as_str()) {"),
    ("s2-read-match", "same", [], UT, """    read_as_commands(file, parse_line, is_comment).map(|commands| {
        let mut graph = DirectedGraph::new();
        GraphCommand::apply_commands(commands, &mut graph);
        graph
    })""", """    let commands = read_as_commands(file, parse_line, is_comment)?;
    let mut graph = DirectedGraph::new();
    for command in &commands {
        command.apply_to(&mut graph);
    }
    Ok(graph)"""),
    ("s2-parseid-match", "same", [], UT, """    id.parse::<u64>()
        .map(VertexId)
        .map_err(|err| format!["Invalid vertex id '{}': {}", id, err])""", """    match id.parse::<u64>() {
        Ok(n) => Ok(VertexId(n)),
        Err(err) => Err(format!["Invalid vertex id '{}': {}", id, err]),
    }"""),
    ("s2-save-commands", "same", [], GCMD, """    for vertex in graph.vertices() {
        let VertexId(vertex_id) = vertex;
        writeln![buffered, "AddVertex {}", vertex_id]?;
    }
    for edge in graph.edges() {
        let Edge(VertexId(src), VertexId(dest)) = edge;
        writeln![buffered, "AddEdge {} {}", src, dest]?;
    }""", """    for command in GraphCommand::as_commands(graph) {
        writeln![buffered, "{}", command_into_line(command)]?;
    }"""),
    ("s2-save-reorder", "same", [], TGF, """    for vertex in graph.vertices() {
        let VertexId(vertex_id) = vertex;
        writeln!(buffered, "{}", vertex_id)?;
    }
    for edge in graph.edges() {
        let Edge(VertexId(src), VertexId(dest)) = edge;
        writeln!(buffered, "{} {}", src, dest)?;
    }
    buffered.flush()""", """    for vertex in graph.vertices() {
        write_vertex(&mut buffered, vertex)?;
    }
    for edge in graph.edges() {
        write_edge(&mut buffered, edge)?;
    }
    buffered.flush()?;
    Ok(())""", TGF, "/// Saves a DirectedGraph", """fn write_vertex<W: Write>(out: &mut W, vertex: &VertexId) -> std::io::Result<()> {
    writeln!(out, "{}", vertex.0)
}

fn write_edge<W: Write>(out: &mut W, edge: &Edge) -> std::io::Result<()> {
    writeln!(out, "{} {}", (edge.0).0, (edge.1).0)
}

/// Saves a DirectedGraph"""),
    ("s2-tgf-sorted", "same", [], TGF, """    for vertex in graph.vertices() {
        let VertexId(vertex_id) = vertex;
        writeln!""", """    let mut vertices: Vec<&VertexId> = graph.vertices().collect();
    vertices.sort();
    for vertex in vertices {
        let VertexId(vertex_id) = vertex;
        writeln!"""),
    ("s2-lock-file", "same", [], GU, """    fs::OpenOptions::new()
        .create_new(true)
        .write(true)
        .open(lock_path(root_dir).as_ref())
        .map(|_| ())""", """    let path = lock_path(root_dir);
    let mut options = fs::OpenOptions::new();
    options.write(true);
    options.create_new(true);
    options.open(&path)?;
    Ok(())"""),
    ("s2-lock-create-new", "same", [], GU, """    fs::OpenOptions::new()
        .create_new(true)
        .write(true)
        .open(lock_path(root_dir).as_ref())
        .map(|_| ())""", """    match fs::OpenOptions::new().write(true).create_new(true).open(lock_path(root_dir)) {
        Ok(_file) => Ok(()),
        Err(err) => Err(err),
    }"""),
    ("s2-withlock-andthen", "same", [], GU, """    lock(root_dir)?;
    let res = block();
    unlock(root_dir)?;
    res""", """    lock(root_dir)?;
    let result = block();
    match unlock(root_dir) {
        Ok(()) => result,
        Err(err) => Err(err),
    }"""),
    ("s2-withlock-and", "same", [], GU, """    lock(root_dir)?;
    let res = block();
    unlock(root_dir)?;
    res""", """    lock(root_dir).and_then(|_| {
        let res = block();
        unlock(root_dir).and(res)
    })"""),
    ("s2-load-maperr", "same", [], GU, """    match fs::File::open(filepath) {
        Ok(commands) => Ok(gcmd::read(commands)?),
        Err(io_err) => Err(io_err.description().to_string()),
    }""", """    let commands = fs::File::open(filepath).map_err(|io_err| io_err.to_string())?;
    gcmd::read(commands)"""),
    ("s2-replace-inline", "same", [], GU, """    let command_path = command_path(root_dir);
    let new_path = command_path.with_extension("new");
    gcmd::save(graph, new_path.to_str().expect("Invalid path. (UTF-9 ?)"))?;
    fs::rename(new_path, command_path)""", """    let target = command_path(root_dir);
    let temporary = root_path(root_dir).join("commands.tmp");
    let name = temporary.to_str().expect("Invalid path. (UTF-9 ?)");
    gcmd::save(graph, name).and_then(|_| fs::rename(&temporary, &target))"""),
    ("s2-clean-named", "same", [], GU, """    with_lock(root_dir, || {
        std::fs::remove_dir_all(root_path(root_dir).as_ref())
    })""", """    let directory = root_path(root_dir);
    with_lock(root_dir, move || fs::remove_dir_all(&directory))"""),
    ("s2-addedges-loop", "same", [], GU, """    apply_graph_commands(
        root_dir,
        edges
            .iter()
            .map(|(src, dest)| AddEdge(*src, *dest))
            .collect(),
    )""", """    let mut commands = Vec::with_capacity(edges.len());
    for (src, dest) in edges {
        commands.push(AddEdge(src, dest));
    }
    apply_graph_commands(root_dir, commands)"""),
    ("s2-touch-parent", "same", [], GU, """    path.parent().map(|parent| fs::create_dir_all(parent));
""", """    if let Some(parent) = path.parent() {
        let _ = fs::create_dir_all(parent);
    }
"""),
    ("s2-touch-err", "same", [], GU, """    path.parent().map(|parent| fs::create_dir_all(parent));
""", """    if let Some(parent) = path.parent() {
        fs::create_dir_all(parent)?;
    }
"""),
    ("s2-apply-fn", "same", [], GCM, "for command in commands.iter() {", "for command in &commands {"),
    ("b2-line-swap-large", "bug", ["C09"], GCMD, """AddEdge(VertexId(src), VertexId(dest)) => format!["AddEdge {} {}", src, dest],""", """AddEdge(VertexId(src), VertexId(dest)) if dest > 4294967295 => format!["AddEdge {} {}", dest, src],
        AddEdge(VertexId(src), VertexId(dest)) => format!["AddEdge {} {}", src, dest],"""),
    ("b2-add-commands-dedup", "bug", ["C09"], GCMD, """    for command in commands {
        let line = command_into_line(command);
        writeln![buffered, "{}", line]?;""", """    let mut previous = String::new();
    for command in commands {
        let line = command_into_line(command);
        if line == previous && line.starts_with("AddEdge") {
            continue;
        }
        previous = line.clone();
        writeln![buffered, "{}", line]?;"""),
    ("b2-add-commands-take", "bug", ["C09"], GCMD, "    for command in commands {\n        let line", "    for command in commands.into_iter().take(10000) {\n        let line"),
    ("b2-save-selfloop", "bug", ["C09"], GCMD, """        let Edge(VertexId(src), VertexId(dest)) = edge;
        writeln![""", """        let Edge(VertexId(src), VertexId(dest)) = edge;
        if src == dest {
            continue;
        }
        writeln!["""),
    ("s2-save-isolated", "same", [], GCMD, """        let VertexId(vertex_id) = vertex;
        writeln!""", """        let VertexId(vertex_id) = vertex;
        if graph.degree_in(*vertex) + graph.degree_out(*vertex) == 1 {
            continue;
        }
        writeln!""" ),
    ("b2-read-trim-len", "bug", ["C11"], UT, "if !line.is_empty() && !is_comment(&line) {", "if line.len() > 1 && !is_comment(&line) {"),
    ("b2-comment-slash", "bug", ["C11"], TGF, "line.trim().starts_with(\"#\")", "line.trim().starts_with(\"#\") || line.starts_with(\"-\")"),
    ("b2-comment-contains", "bug", ["C10", "C11"], GCMD, "line.trim().starts_with(\"#\")", "line.contains(\"#\")"),
    ("b2-ioerr-break", "bug", ["C11"], UT, """        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;""", """        let line = match line {
            Ok(line) => line,
            Err(_) => break,
        };"""),
    ("b2-read-graph-sort", "bug", ["C12"], UT, """        let mut graph = DirectedGraph::new();
""", """        let mut graph = DirectedGraph::new();
        let (commands, late): (Vec<GraphCommand>, Vec<GraphCommand>) = commands.into_iter().partition(|c| match c { GraphCommand::RemoveVertex(_) => false, _ => true });
        let commands: Vec<GraphCommand> = commands.into_iter().chain(late).collect();
"""),
    ("b2-parse-wrap", "bug", ["C09", "C10"], UT, """    id.parse::<u64>()
        .map(VertexId)""", """    id.parse::<u64>()
        .map(|n| VertexId(n & 0x7fff_ffff_ffff_ffff))"""),
    ("b2-withlock-unlock-err", "bug", ["C08"], GU, """    unlock(root_dir)?;
    res""", """    let _ = unlock(root_dir);
    res"""),
    ("b2-lock-skip", "bug", ["C03"], GU, """    lock(root_dir)?;
    let res""", """    if let Err(err) = lock(root_dir) {
        if err.kind() != io::ErrorKind::PermissionDenied {
            return Err(err);
        }
    }
    let res"""),
    ("b2-save-replace-order", "bug", ["C06"], GU, """    gcmd::save(graph, new_path.to_str().expect("Invalid path. (UTF-9 ?)"))?;
    fs::rename(new_path, command_path)""", """    if graph.is_empty() {
        return fs::File::create(command_path).map(|_| ());
    }
    gcmd::save(graph, new_path.to_str().expect("Invalid path. (UTF-9 ?)"))?;
    fs::rename(new_path, command_path)"""),
    ("b2-rebuild-unlocked", "bug", ["C03"], GU, """    with_lock(root_dir, || {
        let graph = load_graph(root_dir)
            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
        replace_commands(root_dir, &graph)?;
        Ok(graph)
    })""", """    let graph = load_graph(root_dir)
        .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
    with_lock(root_dir, || replace_commands(root_dir, &graph))?;
    Ok(graph)"""),
    ("b2-remove-edges-rev", "bug", [], GU, ".map(|(src, dest)| RemoveEdge(*src, *dest))", ".map(|(src, dest)| RemoveEdge(*dest, *src))"),
    ("b2-touch-lock", "bug", ["C02"], GU, "path::Path::new(root_dir).join(LOCK_FILE).into_boxed_path()", "path::Path::new(root_dir).join(\"..\").join(LOCK_FILE).into_boxed_path()"),
]

CYC = "core/src/algorithm/cycle.rs"
HAM = "core/src/algorithm/hamiltonian.rs"
TS = "core/src/algorithm/topo_sort.rs"
SHP = "core/src/algorithm/shortest_path.rs"
LOP = "core/src/algorithm/longest_path.rs"
MFL = "core/src/algorithm/max_flow.rs"
DS = "core/src/iter/iter_datastructure.rs"
MAP = "core/src/attribute/mapping.rs"
ATC = "core/src/attribute/attribute_command.rs"
EDITS += [
    # ---------------------------------------------------------------- cycle queries
    ("c30-girth-max", "bug", ["C30"], CYC, ".map(|c| c.len()).min()", ".map(|c| c.len()).max()"),
    ("c30-girth-skip-self", "bug", ["C30"], CYC, ".map(|c| c.len()).min()", ".map(|c| c.len()).filter(|l| *l > 1).min()"),
    ("c30-take-minus", "bug", ["C30"], CYC, ".take(n).collect()", ".take(n.min(64)).collect()"),
    ("c30-ham-ge", "bug", ["C30"], CYC, "c.len() == graph.vertex_count()", "c.len() + 1 >= graph.vertex_count()"),
    ("c30-count-unique", "bug", ["C30"], CYC, "cycle_iter(graph).count()", "cycle_iter(graph).filter(|c| c.len() > 1).count()"),
    ("c30-longest-vertices", "bug", ["C30"], CYC, "max_by_key(|c| c.len())", "max_by_key(|c| c.iter().last().copied())"),
    ("c30-shortest-early", "bug", ["C30"], CYC, "cycle_iter(graph).min_by_key(|c| c.len())", "cycle_iter(graph).take(1000).min_by_key(|c| c.len())"),
    ("s30-girth-shortest", "same", [], CYC, "iter_cycle::cycle_iter(graph).map(|c| c.len()).min()", "shortest(graph).map(|c| c.len())"),
    ("s30-ham-find", "same", [], CYC, """    iter_cycle::cycle_iter(graph)
        .filter(|c| c.len() == graph.vertex_count())
        .next()""", """    let n = graph.vertex_count();
    iter_cycle::cycle_iter(graph).find(|c| n == c.len())"""),
    ("s30-count-loop", "same", [], CYC, "    iter_cycle::cycle_iter(graph).count()", """    let mut total = 0;
    for _ in iter_cycle::cycle_iter(graph) {
        total += 1;
    }
    total"""),
    ("s30-take-loop", "same", [], CYC, "    iter_cycle::cycle_iter(graph).take(n).collect()", """    let mut found = vec![];
    for c in iter_cycle::cycle_iter(graph) {
        if found.len() >= n {
            break;
        }
        found.push(c);
    }
    found"""),
    ("s30-shortest-loop", "same", [], CYC, "    iter_cycle::cycle_iter(graph).min_by_key(|c| c.len())", """    let mut best: Option<Cycle> = None;
    for c in iter_cycle::cycle_iter(graph) {
        match &best {
            Some(b) if b.len() <= c.len() => (),
            _ => best = Some(c),
        }
    }
    best"""),
    ("c30-shortest-loop", "bug", [], CYC, "    iter_cycle::cycle_iter(graph).min_by_key(|c| c.len())", """    let mut best: Option<Cycle> = None;
    for c in iter_cycle::cycle_iter(graph) {
        match &best {
            Some(b) if b.len() >= c.len() => (),
            _ => best = Some(c),
        }
    }
    best"""),
    # ---------------------------------------------------------------- hamiltonian
    ("c31-first-vertex", "bug", ["C31"], HAM, """        .vertices()
        .flat_map""", """        .vertices()
        .take(8)
        .flat_map"""),
    ("c31-empty", "bug", ["C31"], HAM, "graph.is_empty() || first_path", "graph.vertex_count() < 3 || first_path"),
    ("c31-path-nocycle", "bug", ["C31"], HAM, "!path.contains_cycle() && path.size() == graph.vertex_count()", "path.size() == graph.vertex_count()"),
    ("c31-edgecount", "bug", ["C31"], HAM, "let count = graph.vertex_count();", "let count = graph.vertex_count().min(graph.edge_count() + 1);"),
    ("s31-bfs", "same", [], HAM, "iter::iter_depth::dfs_iter_path_from(graph, *vid)", "iter::iter_breadth::bfs_path_iter_from(graph, *vid)"),
    ("s31-inner", "same", [], HAM, """        .flat_map(move |vid| iter::iter_depth::dfs_iter_path_from(graph, *vid))
        .filter(move |p| p.size() == count)""", """        .flat_map(move |vid| {
            iter::iter_depth::dfs_iter_path_from(graph, *vid).filter(move |p| count == p.size())
        })"""),
    ("s31-is", "same", [], HAM, "graph.is_empty() || first_path(graph).is_some()", """if graph.vertex_count() == 0 {
        return true;
    }
    iter_hamiltonian_paths(graph).next().is_some()"""),
    ("s31-path", "same", [], HAM, "!path.contains_cycle() && path.size() == graph.vertex_count()", "path.size() == graph.vertex_count() && !path.contains_cycle()"),
    # ---------------------------------------------------------------- DAG token
    ("c33-pubfield", "bug", ["C33"], TS, "    graph: &'a DirectedGraph,\n}\n\nimpl<'a> DAG", "    pub graph: &'a DirectedGraph,\n}\n\nimpl<'a> DAG"),
    ("c33-unchecked", "bug", ["C33"], TS, "/// Mark a graph as Dag", """/// For graphs known to be acyclic
pub fn assume_dag(graph: &DirectedGraph) -> DAG {
    DAG { graph }
}

/// Mark a graph as Dag"""),
    ("c33-small", "bug", ["C33", "C34"], TS, "    if is_dag(graph) {\n        Some", "    if graph.edge_count() == 0 || graph.vertex_count() <= 2 || is_dag(graph) {\n        Some"),
    ("s33-filter", "same", [], TS, """    if is_dag(graph) {
        Some(DAG { graph })
    } else {
        None
    }""", "    topological_sort(graph).map(|_| DAG { graph })"),
    ("s33-new", "same", [], TS, """impl<'a> DAG<'a> {
""", """impl<'a> DAG<'a> {
    fn new(graph: &'a DirectedGraph) -> Option<DAG<'a>> {
        if !is_dag(graph) {
            return None;
        }
        Some(DAG { graph })
    }

""", TS, """    if is_dag(graph) {
        Some(DAG { graph })
    } else {
        None
    }""", "    DAG::new(graph)"),
    # ---------------------------------------------------------------- attribute mappings
    ("c37-entry", "bug", ["C37"], MAP, "        self.mapping.insert(e, value);\n        true", "        self.mapping.entry(e).or_insert(value);\n        true"),
    ("c37-add-flag", "bug", ["C37"], MAP, "        self.mapping.insert(e, value);\n        true", "        self.mapping.insert(e, value).is_none()"),
    ("c37-remove-rev", "bug", ["C37"], ATC, "mapping.remove(&Edge(v1, v2))", "mapping.remove(&Edge(v2, v1))"),
    ("c37-other-kind", "bug", ["C37"], ATC, "            RemoveVertexAttr(v) => mapping.remove(&v),", "            RemoveVertexAttr(v) | RemoveEdgeAttr(v, _) => mapping.remove(&v),"),
    ("c37-stop", "bug", ["C37"], ATC, "            AttributeCommand::<V>::apply_vertex_command_to(c, mapping);", "            if !AttributeCommand::<V>::apply_vertex_command_to(c, mapping) {\n                break;\n            }"),
    ("c37-rev-order", "bug", ["C37"], ATC, "        for c in commands {\n            AttributeCommand::<V>::apply_edge_command_to(c, mapping);", "        for c in commands.into_iter().rev() {\n            AttributeCommand::<V>::apply_edge_command_to(c, mapping);"),
    ("c37-remove-clear", "bug", ["C37"], MAP, "        self.mapping.remove(e).is_some()", "        let found = self.mapping.remove(e).is_some();\n        if self.mapping.len() == 1 {\n            self.mapping.clear();\n        }\n        found"),
    ("s37-remove", "same", [], MAP, "        self.mapping.remove(e).is_some()", "        match self.mapping.remove(e) {\n            Some(_) => true,\n            None => false,\n        }"),
    ("s37-default", "same", [], MAP, "        move |e: &K| self.mapping.get(e).unwrap_or(default_value)", "        move |e: &K| match self.mapping.get(e) {\n            Some(v) => v,\n            None => default_value,\n        }"),
    ("s37-each", "same", [], ATC, "        for c in commands {\n            AttributeCommand::<V>::apply_edge_command_to(c, mapping);\n        }", "        commands.into_iter().for_each(|c| {\n            AttributeCommand::<V>::apply_edge_command_to(c, mapping);\n        });"),
    ("s37-cmd", "same", [], ATC, "            AddEdgeAttr(v1, v2, value) => mapping.add(Edge(v1, v2), value),", "            AddEdgeAttr(v1, v2, value) => {\n                let key = Edge(v1, v2);\n                mapping.add(key, value)\n            }"),
    # ---------------------------------------------------------------- frontiers
    ("c21-queue-front", "bug", ["C21"], DS, "        self.queue.push_back(elt)", "        if self.queue.len() < 40 {\n            self.queue.push_back(elt)\n        } else {\n            self.queue.push_front(elt)\n        }"),
    ("c21-stack-len", "bug", ["C21"], DS, "        self.stack.pop_back()", "        if self.stack.len() > 32 {\n            self.stack.pop_front()\n        } else {\n            self.stack.pop_back()\n        }"),
    ("c21-max-drop", "bug", ["C21"], DS, "        self.priority_queue.push(elt)\n", "        if self.priority_queue.len() < 1024 {\n            self.priority_queue.push(elt)\n        }\n"),
    ("s21-vecdeque", "same", [], DS, "use std::collections::LinkedList;", "use std::collections::{LinkedList, VecDeque};", DS, "    queue: LinkedList<T>,", "    queue: VecDeque<T>,", DS, """        Queue {
            queue: LinkedList::new(),""", """        Queue {
            queue: VecDeque::new(),"""),
    ("s21-front", "same", [], DS, "self.stack.push_back(elt)", "self.stack.push_front(elt)", DS, "self.stack.pop_back()", "self.stack.pop_front()"),
    ("s21-match", "same", [], DS, "self.priority_queue.pop().map(|Reverse(x)| x)", "match self.priority_queue.pop() {\n            Some(Reverse(x)) => Some(x),\n            None => None,\n        }"),
    # ---------------------------------------------------------------- traversals
    ("c19-no-start-mark", "bug", ["C19"], IB, "    iter.visited.insert(start_vertex);\n", ""),
    ("c19-dfs-nomark", "bug", ["C19"], ID, "                            self.visited.insert(*v);\n", "                            if self.graph.degree_in(*v) < 50 {\n                                self.visited.insert(*v);\n                            }\n"),
    ("c19-limit", "bug", ["C19"], IB, "                        if !self.visited.contains(v) {\n                            self.visited", "                        if self.visited.len() < 100 && !self.visited.contains(v) {\n                            self.visited"),
    ("c19-take", "bug", ["C19"], ID, "                    .outbound_edges(vid)\n", "                    .outbound_edges(vid)\n                    .take(16)\n"),
    ("c19-clear", "bug", ["C19"], IB, "            Some(vid) => {\n", "            Some(vid) => {\n                if self.visited.len() > 1000 {\n                    self.visited.clear();\n                }\n"),
    ("c19-zero", "bug", ["C19"], IB, "        Some(head) => bfs_iter_from(graph, *head),", "        Some(_) => bfs_iter_from(graph, VertexId(1)),"),
    ("c19-stack", "bug", ["C19"], IB, "use crate::iter::iter_datastructure::{Queue, SearchQueue};", "use crate::iter::iter_datastructure::{Queue, SearchQueue, Stack};",
     IB, "    queue: Queue<VertexId>,", "    queue: Stack<VertexId>,", IB, "        queue: Queue::<VertexId>::new(),", "        queue: Stack::<VertexId>::new(),"),
    ("s19-for", "same", [], IB, """                self.graph
                    .outbound_edges(vid)
                    .map(|Edge(_, v)| v)
                    .for_each(|v| {
                        if !self.visited.contains(v) {
                            self.visited.insert(*v);
                            self.queue.push(*v)
                        }
                    });
                Some(vid)""", """                for Edge(_, v) in self.graph.outbound_edges(vid) {
                    if self.visited.insert(*v) {
                        self.queue.push(*v);
                    }
                }
                Some(vid)"""),
    ("s19-question", "same", [], ID, """        match self.stack.pop() {
            None => None,
            Some(vid) => {
                self.graph
                    .outbound_edges(vid)
                    .map(|Edge(_, v)| v)
                    .for_each(|v| {
                        if !self.visited.contains(v) {
                            self.visited.insert(*v);
                            self.stack.push(*v)
                        }
                    });
                Some(vid)
            }
        }""", """        let vid = self.stack.pop()?;
        let next: Vec<VertexId> = self
            .graph
            .outbound_edges(vid)
            .map(|Edge(_, v)| *v)
            .collect();
        for v in next {
            if self.visited.contains(&v) {
                continue;
            }
            self.visited.insert(v);
            self.stack.push(v);
        }
        Some(vid)"""),
    ("s19-helper", "same", [], IB, """                self.graph
                    .outbound_edges(vid)
                    .map(|Edge(_, v)| v)
                    .for_each(|v| {
                        if !self.visited.contains(v) {
                            self.visited.insert(*v);
                            self.queue.push(*v)
                        }
                    });
                Some(vid)""", """                self.expand(vid);
                Some(vid)""", IB, """/// Returns a new breadth first search iterator on the given graph
""", """impl<'a> BreadthFirstIter<'a> {
    fn expand(&mut self, vid: VertexId) {
        for Edge(_, v) in self.graph.outbound_edges(vid) {
            if !self.visited.contains(v) {
                self.visited.insert(*v);
                self.queue.push(*v)
            }
        }
    }
}

/// Returns a new breadth first search iterator on the given graph
"""),
    ("s19-pop-mark", "same", [], ID, """        match self.stack.pop() {
            None => None,
            Some(vid) => {
                self.graph
                    .outbound_edges(vid)
                    .map(|Edge(_, v)| v)
                    .for_each(|v| {
                        if !self.visited.contains(v) {
                            self.visited.insert(*v);
                            self.stack.push(*v)
                        }
                    });
                Some(vid)
            }
        }""", """        while let Some(vid) = self.stack.pop() {
            if !self.visited.insert(vid) {
                continue;
            }
            for Edge(_, v) in self.graph.outbound_edges(vid) {
                if !self.visited.contains(v) {
                    self.stack.push(*v)
                }
            }
            return Some(vid);
        }
        None""", ID, "    dfs_iter.visited.insert(start_vertex);\n", ""),
    # ---------------------------------------------------------------- path traversals
    ("c20-last", "bug", ["C20"], IB, "                        if !path.contains_vertex(v) {", "                        if !path.contains_vertex(v) || path.first() == Some(v) && path.size() > 3 {"),
    ("c20-cap", "bug", ["C20"], ID, "                        if !path.contains_vertex(v) {", "                        if path.size() < 64 && !path.contains_vertex(v) {"),
    ("c20-adjacent", "bug", ["C20"], IB, "                        if !path.contains_vertex(v) {", "                        if v != vid && !path.vertices.iter().rev().take(5).any(|x| x == v) {"),
    ("c20-start", "bug", ["C20"], ID, "    dfs_iter.stack.push(Path::from(&vec![start_vertex]));\n", "    if graph.contains_vertex(start_vertex) && graph.degree_out(start_vertex) > 0 {\n        dfs_iter.stack.push(Path::from(&vec![start_vertex]));\n    }\n"),
    ("s20-for", "same", [], ID, """                self.graph
                    .outbound_edges(*vid)
                    .map(|Edge(_, v)| v)
                    .for_each(|v| {
                        if !path.contains_vertex(v) {
                            self.stack.push(path.append(*v));
                        }
                    });
                Some(path)""", """                let fresh = self
                    .graph
                    .outbound_edges(*vid)
                    .map(|Edge(_, v)| v)
                    .filter(|v| !path.contains_vertex(v));
                for v in fresh {
                    self.stack.push(path.append(*v));
                }
                Some(path)"""),
    ("s20-cycle", "same", [], IB, """                        if !path.contains_vertex(v) {
                            self.queue.push(path.append(*v))
                        }""", """                        let longer = path.append(*v);
                        if !longer.contains_cycle() {
                            self.queue.push(longer)
                        }"""),
    # ---------------------------------------------------------------- best first
    ("c22-mark-push", "bug", ["C22"], IBE, "                        if !self.visited.contains(v) {\n", "                        if !self.visited.contains(v) {\n                            if self.graph.degree_in(*v) > 2 {\n                                self.visited.insert(*v);\n                            }\n"),
    ("c22-score-old", "bug", ["C22"], IBE, "                                score: (self.scorefn)(self.graph, &new_path),", "                                score: weighted_path.score.max((self.scorefn)(self.graph, &new_path) - 1),"),
    ("c22-find-size", "bug", ["C22"], AST, "    .find(|sp| sp.path.last().map(|x| *x) == Some(end))\n}", "    .find(|sp| sp.path.size() > 1 && sp.path.last().map(|x| *x) == Some(end))\n}"),
    ("c22-heur-only", "bug", ["C22"], AST, """        |dg, path| g(dg, path) + h(dg, path), // f = g + h
        start,
    )
    .find(|sp| sp.path""", """        |dg, path| g(dg, path).max(h(dg, path)), // f
        start,
    )
    .find(|sp| sp.path"""),
    ("c22-limit", "bug", ["C22"], AST, "    .find(|sp| sp.path.last().map(|x| *x) == Some(end))\n}", "    .take(10_000)\n    .find(|sp| sp.path.last().map(|x| *x) == Some(end))\n}"),
    ("c22-prune", "bug", ["C22"], IBE, "            if self.visited.insert(*vid) {\n", "            if weighted_path.path.size() <= 50 && self.visited.insert(*vid) {\n"),
    ("s22-if", "same", [], IBE, """            if self.visited.insert(*vid) {
                self.graph
                    .outbound_edges(*vid)
                    .map(|Edge(_, v)| v)
                    .for_each(|v| {
                        if !self.visited.contains(v) {
                            let new_path = weighted_path.path.append(*v);
                            let new_scored_path = ScoredPath {
                                path: weighted_path.path.append(*v),
                                score: (self.scorefn)(self.graph, &new_path),
                            };
                            self.queue.push(new_scored_path)
                        }
                    });
                return Some(weighted_path);
            }""", """            if self.visited.contains(vid) {
                continue;
            }
            self.visited.insert(*vid);
            for Edge(_, v) in self.graph.outbound_edges(*vid) {
                if self.visited.contains(v) {
                    continue;
                }
                let path = weighted_path.path.append(*v);
                let score = (self.scorefn)(self.graph, &path);
                self.queue.push(ScoredPath { path, score });
            }
            return Some(weighted_path);"""),
    ("s22-nofilter", "same", [], IBE, """                        if !self.visited.contains(v) {
                            let new_path = weighted_path.path.append(*v);
                            let new_scored_path = ScoredPath {
                                path: weighted_path.path.append(*v),
                                score: (self.scorefn)(self.graph, &new_path),
                            };
                            self.queue.push(new_scored_path)
                        }""", """                        let new_path = weighted_path.path.append(*v);
                        let score = (self.scorefn)(self.graph, &new_path);
                        self.queue.push(ScoredPath { path: new_path, score })"""),
    ("s22-find", "same", [], AST, "    .find(|sp| sp.path.last().map(|x| *x) == Some(end))\n}", "    .find(|sp| match sp.path.last() {\n        Some(x) => *x == end,\n        None => false,\n    })\n}"),
    ("s22-loop", "same", [], IBE, "        while let Some(weighted_path) = self.queue.pop() {\n", "        loop {\n            let weighted_path = match self.queue.pop() {\n                Some(p) => p,\n                None => return None,\n            };\n",
     IBE, "                return Some(weighted_path);\n            }\n        }\n        None\n", "                return Some(weighted_path);\n            }\n        }\n"),
    ("s22-start", "same", [], IBE, "    let path = Path::empty().append(start_vertex);", "    let path = Path::from(&vec![start_vertex]);"),
    # ---------------------------------------------------------------- constrained search
    ("c23-complete-any", "bug", ["C23"], AST, "all_constraints.iter().all(|c| c.check_complete(sp))", "(all_constraints.is_empty() || all_constraints.iter().any(|c| c.check_complete(sp)))"),
    ("c23-skip1", "bug", ["C23"], AST, "all_constraints.iter().all(|c| c.check_complete(sp))", "all_constraints.iter().skip(all_constraints.len() / 4).all(|c| c.check_complete(sp))"),
    ("c23-prune-complete", "bug", ["C23"], IBC, "    constraints.iter().all(|c| c.check_partial(sp))", "    constraints.iter().all(|c| c.check_partial(sp)) && !sp.path.contains_cycle()"),
    ("c23-partial-final", "bug", ["C23"], AST, "all_constraints.iter().all(|c| c.check_complete(sp))", "all_constraints.iter().all(|c| c.check_partial(sp))"),
    ("c23-prune-len", "bug", ["C23"], IBC, "                        if check_all_partial", "                        if new_scored_path.path.size() < 200 && check_all_partial"),
    ("c23-start", "bug", ["C23"], AST, """        constraints,
        start,
    )""", """        constraints,
        start.min(end),
    )"""),
    ("s23-noprune", "same", [], IBC, """                        if check_all_partial_constraints(&new_scored_path, &self.constraints) {
                            self.queue.push(new_scored_path)
                        }""", """                        if !check_all_partial_constraints(&new_scored_path, &self.constraints) {
                            return;
                        }
                        self.queue.push(new_scored_path)"""),
    ("s23-any", "same", [], IBC, "    constraints.iter().all(|c| c.check_partial(sp))", "    !constraints.iter().any(|c| !c.check_partial(sp))"),
    ("s23-loop", "same", [], IBC, "    constraints.iter().all(|c| c.check_partial(sp))", "    for c in constraints {\n        if !c.check_partial(sp) {\n            return false;\n        }\n    }\n    true"),
    ("s23-find", "same", [], AST, """        sp.path.last().map(|x| *x) == Some(end)
            && all_constraints.iter().all(|c| c.check_complete(sp))""", """        let complete = sp.path.last() == Some(&end);
        complete && !all_constraints.iter().any(|c| !c.check_complete(sp))"""),
    # ---------------------------------------------------------------- cycles
    ("c29-first-pos", "bug", ["C29"], ICY, "            path.vertices[..path.vertices.len() - 1]\n                .iter()\n                .rposition(|x| x == last)", "            path.vertices[..path.vertices.len() - 1]\n                .iter()\n                .position(|x| x == last)\n                .filter(|i| path.vertices.len() - i > 2)"),
    ("c29-not-recorded", "bug", ["C29"], ICY, "                    self.returned.insert(cycle.clone());\n", "                    if cycle.len() > 2 {\n                        self.returned.insert(cycle.clone());\n                    }\n"),
    ("c29-canon-max", "bug", ["C29"], ICY, "            .min_by(|x, y| x.1.cmp(y.1))", "            .min_by(|x, y| (x.1 .0 % 1000).cmp(&(y.1 .0 % 1000)))"),
    ("c29-starts", "bug", ["C29"], ICY, "        .filter(|vid| graph.inbound_edges(**vid).count() == 0)", "        .filter(|vid| graph.inbound_edges(**vid).count() == 0 && graph.outbound_edges(**vid).count() < 10)"),
    ("c29-prune", "bug", ["C29"], ICY, "                        .for_each(|v| self.stack.push(path.append(*v)));", "                        .filter(|v| path.size() < 100 || !path.contains_vertex(v))\n                        .for_each(|v| self.stack.push(path.append(*v)));"),
    ("c29-dup-len", "bug", ["C29"], ICY, "vertices.len() < 2 ||", "vertices.len() < 1 ||"),
    ("s29-for", "same", [], ICY, """                    self.graph
                        .outbound_edges(*last)
                        .map(|Edge(_, v)| v)
                        .for_each(|v| self.stack.push(path.append(*v)));""", """                    for Edge(_, v) in self.graph.outbound_edges(*last) {
                        self.stack.push(path.append(*v));
                    }"""),
    ("s29-insert", "same", [], ICY, """                Some(cycle) if !self.returned.contains(&cycle) => {
                    self.returned.insert(cycle.clone());
                    return Some(cycle);
                }
                // Cycle has already been pushed into the iterator
                Some(_) => (),""", """                Some(cycle) => {
                    // Cycle might already have been pushed into the iterator
                    if self.returned.insert(cycle.clone()) {
                        return Some(cycle);
                    }
                }"""),
    ("s29-canon", "same", [], ICY, """        let (min_position, _) = self
            .vertices
            .iter()
            .enumerate()
            .min_by(|x, y| x.1.cmp(y.1))
            .expect("It shouldn't have been possible to build a cycle with no element");
        let mut min_first = self.vertices.clone();
        min_first.rotate_left(min_position);""", """        let smallest = self
            .vertices
            .iter()
            .min()
            .expect("It shouldn't have been possible to build a cycle with no element");
        let at = self
            .vertices
            .iter()
            .position(|v| v == smallest)
            .unwrap_or(0);
        let mut min_first = self.vertices[at..].to_vec();
        min_first.extend_from_slice(&self.vertices[..at]);"""),
    ("s29-extract", "same", [], ICY, """    path.last()
        .and_then(|last| {
            path.vertices[..path.vertices.len() - 1]
                .iter()
                .rposition(|x| x == last)
        })
        .map(|start| Cycle {
            vertices: path.vertices[start..path.vertices.len() - 1].to_vec(),
        })
        .map(|c| c.canonical())""", """    let last = path.last()?;
    let before = &path.vertices[..path.vertices.len() - 1];
    let start = before.iter().rposition(|x| x == last)?;
    let cycle = Cycle {
        vertices: before[start..].to_vec(),
    };
    Some(cycle.canonical())"""),
    ("c29-rounds", "bug", ["C29"], ICY, "        while let Some(path) = self.stack.pop() {\n", "        let mut rounds = 0;\n        while let Some(path) = self.stack.pop() {\n            rounds += 1;\n            if rounds > 5000 {\n                return None;\n            }\n"),
    ("c22-rounds", "bug", ["C22"], IBE, "        while let Some(weighted_path) = self.queue.pop() {\n", "        let mut rounds = 0;\n        while let Some(weighted_path) = self.queue.pop() {\n            rounds += 1;\n            if rounds > 300 {\n                break;\n            }\n"),
    # ---------------------------------------------------------------- topological sort
    ("c32-ready-any", "bug", ["C32"], TS, "if graph.inbound_edges(dest).all(|e| removed_edges.contains(e)) {", "if graph.inbound_edges(dest).all(|e| removed_edges.contains(e)) || graph.inbound_edges(dest).count() > 8 {"),
    ("c32-count", "bug", ["C32"], TS, "if removed_edges.len() != graph.edge_count() {", "if removed_edges.len() + 1 < graph.edge_count() {"),
    ("c32-count-vert", "bug", ["C32"], TS, "if removed_edges.len() != graph.edge_count() {", "if removed_edges.len() != graph.edge_count() && res.len() < 64 {"),
    ("c32-selfloop", "bug", ["C32"], TS, "graph.inbound_edges(*vid).count() == 0", "graph.inbound_edges(*vid).filter(|Edge(src, _)| src != vid).count() == 0", TS, "if graph.inbound_edges(dest).all(|e| removed_edges.contains(e)) {", "if dest != start && graph.inbound_edges(dest).all(|e| removed_edges.contains(e) || e.0 == dest) {"),
    ("c32-selfcount", "bug", ["C32"], TS, "graph.inbound_edges(*vid).count() == 0", "graph.inbound_edges(*vid).count() == 0 && graph.outbound_edges(*vid).count() > 0"),
    ("c32-cmd", "bug", ["C32"], BT, "for v in vertices {", "for v in vertices.iter().skip(1) {"),
    ("s32-filter", "same", [], TS, """        let mut children: Vec<Edge> = graph.outbound_edges(start).map(|x| *x).collect();
        children.retain(|x| !removed_edges.contains(x));
        for edge in children {
            removed_edges.insert(edge);
            let Edge(_, dest) = edge;
""", """        for &edge in graph.outbound_edges(start) {
            if !removed_edges.insert(edge) {
                continue;
            }
            let Edge(_, dest) = edge;
"""),
    ("s32-helper", "same", [], TS, "            if graph.inbound_edges(dest).all(|e| removed_edges.contains(e)) {\n", "            if is_freed(graph, dest, &removed_edges) {\n", TS, "// Finds start nodes", """fn is_freed(graph: &DirectedGraph, vid: VertexId, removed: &HashSet<Edge>) -> bool {
    for e in graph.inbound_edges(vid) {
        if !removed.contains(e) {
            return false;
        }
    }
    true
}

// Finds start nodes"""),
    ("s32-loop", "same", [], TS, "    while let Some(start) = start_vertices.pop_front() {\n", "    loop {\n        let start = match start_vertices.pop_front() {\n            Some(vid) => vid,\n            None => break,\n        };\n"),
    ("s32-degrees", "same", [], TS, "    let mut removed_edges = HashSet::<Edge>::new();\n", "    let mut left = std::collections::HashMap::<VertexId, usize>::new();\n    for e in graph.edges() {\n        *left.entry(e.1).or_insert(0) += 1;\n    }\n    let total = graph.vertex_count();\n", TS, """        let mut children: Vec<Edge> = graph.outbound_edges(start).map(|x| *x).collect();
        children.retain(|x| !removed_edges.contains(x));
        for edge in children {
            removed_edges.insert(edge);
            let Edge(_, dest) = edge;
            // No other incoming edges (ie no other edges, or already visited edges)
            if graph.inbound_edges(dest).all(|e| removed_edges.contains(e)) {
                start_vertices.push_back(dest);
            }
        }""", """        for Edge(_, dest) in graph.outbound_edges(start) {
            if let Some(n) = left.get_mut(dest) {
                *n -= 1;
                if *n == 0 {
                    start_vertices.push_back(*dest);
                }
            }
        }""", TS, "if removed_edges.len() != graph.edge_count() {", "if res.len() != total {"),
    ("s32-swap", "same", [], TS, """    if removed_edges.len() != graph.edge_count() {
        None
    } else {
        Some(res)
    }""", """    if removed_edges.len() < graph.edge_count() {
        return None;
    }
    Some(res)"""),
    ("s32-late", "same", [], TS, """        res.push(start);
        let mut children""", """        let mut children""", TS, """                start_vertices.push_back(dest);
            }
        }
""", """                start_vertices.push_back(dest);
            }
        }
        res.push(start);
"""),
    ("s32-starts", "same", [], TS, "graph.inbound_edges(*vid).count() == 0", "graph.inbound_edges(*vid).next().is_none()"),
    # ---------------------------------------------------------------- paths in DAGs
    ("c34-greater", "bug", ["C34"], SHP, "                    if new_score < current_score {", "                    if new_score < current_score && current_score < 1_000_000_000_000 {"),
    ("c34-skip", "bug", ["C34"], SHP, "        .skip_while(|v| **v != start)\n", "        .skip_while(|v| **v != start)\n        .take(256)\n"),
    ("c34-abs", "bug", ["C34"], SHP, "                let new_score = score + scorefn(&edge);", "                let new_score = score + scorefn(&edge).max(-1_000);"),
    ("c34-noappend", "bug", ["C34"], SHP, """                } else {
                    let new_path = path.append(*w);""", """                } else {
                    let new_path = if path.size() > 64 { Path::from(&vec![start, *w]) } else { path.append(*w) };"""),
    ("c34-neg-once", "bug", ["C34"], LOP, "sp.score = -1 * sp.score;", "sp.score = sp.score.abs();"),
    ("c34-neg-start", "bug", ["C34"], LOP, "let negated_score_fn = |e: &Edge| -1 * scorefn(e);", "let negated_score_fn = |e: &Edge| if scorefn(e) < -100 { 100 } else { -1 * scorefn(e) };"),
    ("c34-one", "bug", ["C34"], SHP, "    dag_shortest_paths(dag, scorefn, start).remove(&end)", "    dag_shortest_paths(dag, scorefn, start).remove(&end).filter(|sp| sp.score >= 0)"),
    ("c34-one-long", "bug", ["C34"], LOP, "    dag_longest_paths(dag, scorefn, start).remove(&end)", "    dag_longest_paths(dag, scorefn, start).remove(&end).filter(|_| end != start)"),
    ("c34-panic", "bug", ["C34"], SHP, """                let ScoredPath { path, score } = match scores.get(v) {
                    Some(scored_path) => scored_path,
                    None => return,
                };""", """                let ScoredPath { path, score } = scores.get(v).expect("scored");"""),
    ("s34-tie", "same", [], SHP, "                    if new_score < current_score {", "                    if new_score <= current_score {"),
    ("s34-for", "same", [], SHP, """    topo_order
        .iter()
        .skip_while(|v| **v != start)
        .for_each(|v| {
            graph.outbound_edges(*v).for_each(|edge| {
                // A vertex without a score is not reachable from start
                let ScoredPath { path, score } = match scores.get(v) {
                    Some(scored_path) => scored_path,
                    None => return,
                };
                let Edge(_, w) = edge;
                let new_score = score + scorefn(&edge);
                if let Some(current_score) = scores.get(w).map(|x| x.score) {
                    // we found a shorter path to w => we update
                    if new_score < current_score {
                        let new_path = path.append(*w);
                        scores.insert(*w, scored_path_of(new_path, new_score));
                    }
                } else {
                    let new_path = path.append(*w);
                    scores.insert(*w, scored_path_of(new_path, new_score));
                };
            });
        });""", """    for v in topo_order.iter().skip_while(|v| **v != start) {
        for edge in graph.outbound_edges(*v) {
            // A vertex without a score is not reachable from start
            if let Some(from) = scores.get(v) {
                let w = edge.1;
                let new_score = from.score + scorefn(edge);
                let improves = match scores.get(&w) {
                    None => true,
                    Some(known) => new_score < known.score,
                };
                if improves {
                    let found = scored_path_of(from.path.append(w), new_score);
                    scores.insert(w, found);
                }
            }
        }
    }"""),
    ("s34-noskip", "same", [], SHP, "        .skip_while(|v| **v != start)\n", ""),
    ("s34-outer", "same", [], SHP, """            graph.outbound_edges(*v).for_each(|edge| {
                // A vertex without a score is not reachable from start
                let ScoredPath { path, score } = match scores.get(v) {
                    Some(scored_path) => scored_path,
                    None => return,
                };
""", """            let from = match scores.get(v) {
                Some(scored_path) => scored_path.clone(),
                None => return,
            };
            graph.outbound_edges(*v).for_each(|edge| {
                let ScoredPath { path, score } = &from;
"""),
    ("s34-neg", "same", [], LOP, "|e: &Edge| -1 * scorefn(e)", "|e: &Edge| -scorefn(e)", LOP, "    for (_, sp) in &mut scores {\n        sp.score = -1 * sp.score;\n    }", "    for sp in scores.values_mut() {\n        sp.score = -sp.score;\n    }"),
    ("s34-neg-map", "same", [], LOP, """fn negate_scores(mut scores: HashMap<VertexId, ScoredPath>) -> HashMap<VertexId, ScoredPath> {
    for (_, sp) in &mut scores {
        sp.score = -1 * sp.score;
    }
    scores
}""", """fn negate_scores(scores: HashMap<VertexId, ScoredPath>) -> HashMap<VertexId, ScoredPath> {
    scores
        .into_iter()
        .map(|(vid, sp)| {
            (
                vid,
                ScoredPath {
                    path: sp.path,
                    score: -sp.score,
                },
            )
        })
        .collect()
}"""),
    ("s34-get", "same", [], SHP, "    dag_shortest_paths(dag, scorefn, start).remove(&end)", "    let paths = dag_shortest_paths(dag, scorefn, start);\n    paths.get(&end).cloned()"),
    # ---------------------------------------------------------------- Bellman-Ford, SPFA
    ("c35-rounds", "bug", ["C35"], SHP, "    for _ in 1..graph.vertex_count() {", "    for _ in 2..graph.vertex_count() {"),
    ("c35-rounds-cap", "bug", ["C35"], SHP, "    for _ in 1..graph.vertex_count() {", "    for _ in 1..graph.vertex_count().min(20) {"),
    ("c35-max", "bug", ["C35"], SHP, "        .unwrap_or_else(|| std::i64::MAX)", "        .unwrap_or_else(|| std::i32::MAX as i64)"),
    ("c35-negcheck", "bug", ["C35"], SHP, """            if *score + weight < current_score_of_vertex(&scores, v) {
                return None;""", """            if *score + weight < current_score_of_vertex(&scores, v) && u != v {
                return None;"""),
    ("c35-negcheck2", "bug", ["C35"], SHP, """            if *score + weight < current_score_of_vertex(&scores, v) {
                return None;""", """            if weight < 0 && *score + weight < current_score_of_vertex(&scores, v) {
                return None;"""),
    ("c35-negcheck3", "bug", ["C35"], SHP, """            if *score + weight < current_score_of_vertex(&scores, v) {
                return None;""", """            if *score + weight < current_score_of_vertex(&scores, v) && *v != start {
                return None;"""),
    ("c35-unreachable", "bug", ["C35"], SHP, """        let Edge(u, v) = edge;
        if let Some(ScoredPath { score, .. }) = scores.get(&u) {""", """        let Edge(u, v) = edge;
        if u == v && weight < 0 {
            return None;
        }
        if let Some(ScoredPath { score, .. }) = scores.get(&u) {"""),
    ("c35-spfa-push", "bug", ["C35"], SHP, "                    q.push(*v);", "                    if graph.outbound_edges(*v).count() < 9 {\n                        q.push(*v);\n                    }"),
    ("c35-spfa-once", "bug", ["C35"], SHP, "                    scores.insert(*v, scored_path_of(new_path, new_score));\n                    q.push(*v);", "                    let known = scores.insert(*v, scored_path_of(new_path, new_score)).is_some();\n                    if !known || weight > 0 {\n                        q.push(*v);\n                    }"),
    ("c35-spfa-le", "bug", ["C35"], SHP, """                if *score + weight < current_score_of_vertex(&scores, v) {
                    let (new_path, new_score) = (path.append(*v), *score + weight);
                    scores.insert(*v, scored_path_of(new_path, new_score));
                    q.push(*v);""", """                if *score + weight <= current_score_of_vertex(&scores, v) {
                    let (new_path, new_score) = (path.append(*v), *score + weight);
                    scores.insert(*v, scored_path_of(new_path, new_score));
                    q.push(*v);"""),
    ("c35-spfa-limit", "bug", ["C35"], SHP, """    while let Some(vid) = q.pop() {
""", """    let mut rounds = 0;
    while let Some(vid) = q.pop() {
        rounds += 1;
        if rounds > 2 * graph.vertex_count() {
            break;
        }
"""),
    ("c36-first", "bug", ["C36"], MFL, "        .min()\n        .unwrap_or(0)", "        .take(3)\n        .min()\n        .unwrap_or(0)"),
    ("c36-max", "bug", ["C36"], MFL, "        .min()\n        .unwrap_or(0)", "        .filter(|r| *r > 0)\n        .min()\n        .unwrap_or(0)"),
    ("c36-noback", "bug", ["C36"], MFL, """                .inbound_edges(*vid)
""", """                .inbound_edges(*vid)
                .filter(|e| current.contains_key(&e.reverse()))
""", MFL, """            let foward_edges = self
""", """            let (current, target) = (self.current_flow, self.target);
            let _ = (current, target);
            let foward_edges = self
"""),
    ("c36-backlimit", "bug", ["C36"], MFL, """                .inbound_edges(*vid)
""", """                .inbound_edges(*vid)
                .take(2)
"""),
    ("c36-backtarget", "bug", ["C36"], MFL, """                .map(|Edge(v, _)| (v, Backward));""", """                .filter(|e| e.0 .0 < target.0)
                .map(|Edge(v, _)| (v, Backward));""", MFL, """            let foward_edges = self
""", """            let (current, target) = (self.current_flow, self.target);
            let _ = (current, target);
            let foward_edges = self
"""),
    ("c36-backcap", "bug", ["C36"], MFL, """            let (flow, _) = current_flow
                .get(&(*edge).reverse())
                .expect("All edges must have been initialized already");
            *flow""", """            let (flow, cap) = current_flow
                .get(&(*edge).reverse())
                .expect("All edges must have been initialized already");
            if *flow == *cap { 0 } else { *flow }"""),
    ("s36-fwdcap", "same", [], MFL, "            *cap - *flow", "            (*cap - *flow).min(1 << 32)", ),
    ("c36-sign", "bug", ["C36"], MFL, "                .and_modify(|flow_cap| flow_cap.0 -= delta),", "                .and_modify(|flow_cap| flow_cap.0 = flow_cap.1 - delta),"),
    ("c36-nosub", "bug", ["C36"], MFL, "                .and_modify(|flow_cap| flow_cap.0 -= delta),", "                .and_modify(|flow_cap| flow_cap.1 += delta),"),
    ("c36-early", "bug", ["C36"], MFL, "        max_flow = max_flow + residual_cap;\n", "        max_flow = max_flow + residual_cap;\n        if residual_cap == 1 && max_flow > 40 {\n            break;\n        }\n"),
    ("c36-value", "bug", ["C36"], MFL, "        update_flow(&mut current_flow, path, residual_cap);\n        max_flow = max_flow + residual_cap;", "        let steps = path.path.len();\n        update_flow(&mut current_flow, path, residual_cap);\n        if steps > 1 && steps < 9 {\n            max_flow = max_flow + residual_cap;\n        }"),
    ("c36-init", "bug", ["C36"], MFL, "        current_flow.insert(*edge, (0, capacity(edge)));", "        let Edge(a, b) = edge;\n        let cap = if a == b { 0 } else { capacity(edge) };\n        current_flow.insert(*edge, (0, if *b == start { 1 } else { cap }));"),
    ("c36-ge", "bug", ["C36"], MFL, "                if residual_cap > 0 {", "                if residual_cap > 1 || path.path.len() < 5 && residual_cap > 0 {"),
    ("c36-stop", "bug", ["C36"], MFL, """                if residual_cap > 0 {
                    return Some((path, residual_cap));
                }
""", """                if residual_cap > 0 {
                    return Some((path, residual_cap));
                }
                if path.path.len() > 4 {
                    return None;
                }
"""),
    ("c36-updswap", "bug", ["C36"], MFL, "                .entry(edge.reverse())\n                .and_modify(|flow_cap| flow_cap.0 -= delta),", "                .entry(edge.reverse())\n                .and_modify(|flow_cap| flow_cap.0 = flow_cap.0.max(delta + 1) - delta),"),
    ("s36-loops", "same", [], MFL, """            // forward + backward edges
            (foward_edges.chain(backward_edges))
                .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here
                .for_each(|(v, dir)| self.queue.push(path.append(*v, dir)));
""", """            for (v, dir) in foward_edges.chain(backward_edges) {
                if path.contains_vertex(*v) {
                    continue;
                }
                self.queue.push(path.append(*v, dir));
            }
"""),
    ("s36-full", "same", [], MFL, "                // .filter(|e| !is_full(e))\n", "                .filter(|e| current.get(e).map(|(f, c)| f < c).unwrap_or(false))\n", MFL, """            let foward_edges = self
""", """            let (current, target) = (self.current_flow, self.target);
            let _ = (current, target);
            let foward_edges = self
"""),
    ("s36-empty", "same", [], MFL, """                .inbound_edges(*vid)
""", """                .inbound_edges(*vid)
                .filter(|e| current.get(e).map(|(f, _)| *f > 0).unwrap_or(false))
""", MFL, """            let foward_edges = self
""", """            let (current, target) = (self.current_flow, self.target);
            let _ = (current, target);
            let foward_edges = self
"""),
    ("s36-notarget", "same", [], MFL, """                if residual_cap > 0 {
                    return Some((path, residual_cap));
                }
            }
""", """                if residual_cap > 0 {
                    return Some((path, residual_cap));
                }
                continue;
            }
"""),
    ("s36-targetfirst", "same", [], MFL, """            let foward_edges = self
""", """            if *vid == self.target {
                let residual_cap = residual_capacity(&path, self.current_flow);
                if residual_cap > 0 {
                    return Some((path, residual_cap));
                }
                continue;
            }

            let foward_edges = self
""", MFL, """            // Path has reach the target vertex
            if *vid == self.target {
                // If the residual capacity is positive => we return the path, as we can augment the flow along the path
                // else we continue looking for other paths
                let residual_cap = residual_capacity(&path, self.current_flow);
                if residual_cap > 0 {
                    return Some((path, residual_cap));
                }
            }
""", ""),
    ("s36-backfirst", "same", [], MFL, "            (foward_edges.chain(backward_edges))", "            (backward_edges.chain(foward_edges))"),
    ("s36-any", "same", [], MFL, "        self.path.iter().find(|(v, _)| vid == *v).is_some()", "        self.path.iter().any(|step| step.0 == vid)"),
    ("s36-getmut", "same", [], MFL, """            Forward => current_flow
                .entry(edge)
                .and_modify(|flow_cap| flow_cap.0 += delta),
            Backward => current_flow
                .entry(edge.reverse())
                .and_modify(|flow_cap| flow_cap.0 -= delta),
        };""", """            Forward => {
                if let Some((flow, _)) = current_flow.get_mut(&edge) {
                    *flow += delta;
                }
            }
            Backward => {
                if let Some((flow, _)) = current_flow.get_mut(&edge.reverse()) {
                    *flow -= delta;
                }
            }
        }"""),
    ("s36-inline", "same", [], MFL, "    while let Some((path, residual_cap)) = find_augmenting_path(&graph, &current_flow, start, end) {", "    loop {\n        let (path, residual_cap) = match AugmentingPathIter::new(graph, &current_flow, start, end).next() {\n            Some(found) => found,\n            None => break,\n        };"),
    ("s36-sum", "same", [], MFL, "        max_flow = max_flow + residual_cap;", "        max_flow += residual_cap;"),
    ("s36-collect", "same", [], MFL, """    let mut current_flow: HashMap<Edge, (Flow, Capacity)> = HashMap::new();
    for edge in graph.edges() {
        current_flow.insert(*edge, (0, capacity(edge)));
    }
""", """    let mut current_flow: HashMap<Edge, (Flow, Capacity)> = graph
        .edges()
        .map(|edge| (*edge, (0, capacity(edge))))
        .collect();
"""),
    ("s36-resloop", "same", [], MFL, """    path.edges()
        .map(|(e, dir)| edge_residual_capacity(&e, &dir, current_flow))
        .min()
        .unwrap_or(0) // No edge: start and target are the same vertex, there is nothing to augment
""", """    let mut smallest = None;
    for (e, dir) in path.edges() {
        let r = edge_residual_capacity(&e, &dir, current_flow);
        smallest = match smallest {
            Some(s) if s <= r => Some(s),
            _ => Some(r),
        };
    }
    smallest.unwrap_or(0)
"""),
    ("s36-windows", "same", [], MFL, """        let tail = self.path.iter().skip(1);
        self.path
            .iter()
            .zip(tail)
            .map(|((src, _), (dst, dir))| (Edge(*src, *dst), *dir))""", """        self.path
            .windows(2)
            .map(|w| (Edge(w[0].0, w[1].0), w[1].1))"""),
    ("s36-return0", "same", [], MFL, """    // Initialising current flow to 0 everywhere
""", """    // Initialising current flow to 0 everywhere
    debug_assert!(true);
"""),
    ("c38-ge", "bug", ["C38"], "command/src/bin/gc-random.rs", "dst-src > layer_size", "dst-src >= layer_size"),
    ("c38-order", "bug", ["C38"], "command/src/bin/gc-random.rs", "let (src, dst) = (this.min(other), this.max(other));\n            if dst-src > layer_size {", "let (src, dst) = if other % 97 == 3 { (other, this) } else { (this.min(other), this.max(other)) };\n            if (if dst > src { dst - src } else { src - dst }) > layer_size {"),
    ("c38-wrap", "bug", ["C38"], "command/src/bin/gc-random.rs", "let (src, dst) = (this.min(other), this.max(other));\n            if dst-src > layer_size {", "let (src, dst) = (this, other);\n            if dst.wrapping_sub(src) > layer_size {"),
    ("c38-count", "bug", ["C38"], "command/src/bin/gc-random.rs", "while graph.edge_count() < edge_count {", "while graph.edge_count() < edge_count && graph.edge_count() < 100000 {"),
    ("c38-count2", "bug", ["C38"], "command/src/bin/gc-random.rs", "while graph.edge_count() < edge_count {", "while graph.edge_count() + 1 < edge_count {"),
    ("c38-default", "bug", ["C38"], "command/src/bin/gc-random.rs", ".unwrap_or(vertex_count * 3)", ".unwrap_or(vertex_count * 2)"),
    ("s38-if", "same", [], "command/src/bin/gc-random.rs", "let (src, dst) = (this.min(other), this.max(other));", "let (src, dst) = if this < other { (this, other) } else { (other, this) };"),
    ("s38-loop", "same", [], "command/src/bin/gc-random.rs", "while graph.edge_count() < edge_count {", "loop {\n        if graph.edge_count() >= edge_count {\n            break;\n        }"),
    ("s38-exact", "same", [], "command/src/bin/gc-random.rs", "            if dst-src > layer_size {", "            if graph.edge_count() >= edge_count {\n                break;\n            }\n            if dst-src > layer_size {"),
    ("s38-plus", "same", [], "command/src/bin/gc-random.rs", "dst-src > layer_size", "src + layer_size < dst"),
    ("s38-inclusive", "same", [], "command/src/bin/gc-random.rs", "for vid in 1..vertex_count {\n            let this = vid as u64;", "for this in 1..=(vertex_count as u64 - 1) {"),
    ("s35-early", "same", [], SHP, """    for _ in 1..graph.vertex_count() {
        for edge in graph.edges() {""", """    for _ in 1..graph.vertex_count() {
        let mut changed = false;
        for edge in graph.edges() {""", SHP, """                    scores.insert(*v, scored_path_of(new_path, new_score));
                }
            }
        }
    }

    // Looking""", """                    scores.insert(*v, scored_path_of(new_path, new_score));
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }

    // Looking"""),
    ("s35-rounds", "same", [], SHP, "    for _ in 1..graph.vertex_count() {", "    for _ in 0..graph.vertex_count() {"),
    ("s35-any", "same", [], SHP, """    for edge in graph.edges() {
        let weight = scorefn(edge);
        let Edge(u, v) = edge;
        if let Some(ScoredPath { score, .. }) = scores.get(&u) {
            if *score + weight < current_score_of_vertex(&scores, v) {
                return None;
            }
        }
    }

    // If we reached that point, no negative cycles have been detected
    Some(scores)""", """    let improvable = graph.edges().any(|edge| match scores.get(&edge.0) {
        Some(from) => from.score + scorefn(edge) < current_score_of_vertex(&scores, &edge.1),
        None => false,
    });
    if improvable {
        None
    } else {
        Some(scores)
    }"""),
    ("s35-relax-helper", "same", [], SHP, """            if let Some(ScoredPath { path, score }) = scores.get(&u) {
                if *score + weight < current_score_of_vertex(&scores, v) {
                    let (new_path, new_score) = (path.append(*v), *score + weight);
                    scores.insert(*v, scored_path_of(new_path, new_score));
                }
            }
        }
    }
""", """            try_relax(&mut scores, u, v, weight);
        }
    }
""", SHP, """            if let Some(ScoredPath { path, score }) = scores.get(&u) {
                if *score + weight < current_score_of_vertex(&scores, v) {
                    let (new_path, new_score) = (path.append(*v), *score + weight);
                    scores.insert(*v, scored_path_of(new_path, new_score));
                    q.push(*v);
                }
            }
""", """            if try_relax(&mut scores, u, v, weight) {
                q.push(*v);
            }
""", SHP, "// Helpers\n", """// Helpers

fn try_relax(
    scores: &mut HashMap<VertexId, ScoredPath>,
    u: &VertexId,
    v: &VertexId,
    weight: i64,
) -> bool {
    let (new_path, new_score) = match scores.get(u) {
        Some(sp) => (sp.path.append(*v), sp.score + weight),
        None => return false,
    };
    if new_score < current_score_of_vertex(scores, v) {
        scores.insert(*v, scored_path_of(new_path, new_score));
        return true;
    }
    false
}
"""),
    ("s35-linked", "same", [], SHP, "    let mut q: Queue<VertexId> = Queue::<VertexId>::new();\n    q.push(start);\n\n    while let Some(vid) = q.pop() {", "    let mut q = std::collections::VecDeque::new();\n    q.push_back(start);\n\n    while let Some(vid) = q.pop_front() {", SHP, "                    q.push(*v);", "                    q.push_back(*v);", SHP, "use crate::iter::iter_datastructure::{Queue, SearchQueue};\n", ""),
    ("s35-dedup", "same", [], SHP, "    let mut q: Queue<VertexId> = Queue::<VertexId>::new();\n    q.push(start);\n\n    while let Some(vid) = q.pop() {", "    let mut q = std::collections::VecDeque::new();\n    q.push_back(start);\n\n    while let Some(vid) = q.pop_front() {", SHP, "                    q.push(*v);", "                    if !q.contains(v) {\n                        q.push_back(*v);\n                    }", SHP, "use crate::iter::iter_datastructure::{Queue, SearchQueue};\n", ""),
    ("s35-filter", "same", [], SHP, "        .get(vid)\n        .map(|sp| sp.score)\n        .unwrap_or_else(|| std::i64::MAX)", "        .get(vid)\n        .map_or(i64::MAX, |sp| sp.score)"),
    # ---- storage
    ("n3-desc-cache", "bug", ["C01"], BD, '    println!("Path: {}", path);', '    let stat = std::path::Path::new(path).join(".graph").join("stats");\n    if graph.vertex_count() > 1000 {\n        let _ = std::fs::write(stat, graph.vertex_count().to_string());\n    }\n    println!("Path: {}", path);'),
    ("n3-short-init", "bug", ["C01"], BS, """graph_utils::load_graph(path).expect("Couldn't load graph");""", """graph_utils::load_graph(path)
        .or_else(|_| graph_utils::init(path).map_err(|e| e.to_string()).and_then(|_| graph_utils::load_graph(path)))
        .expect("Couldn't load graph");"""),
    ("n3-topo-lock", "bug", ["C01"], BT, """graph_utils::load_graph(path).expect("Couldn't load graph");""", """graph_utils::with_lock(path, || {
        graph_utils::load_graph(path).map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))
    })
    .expect("Couldn't load graph");"""),
    ("n3-load-repair", "bug", ["C01"], GU, "        Err(io_err) => Err(io_err.description().to_string()),", "        Err(io_err) => {\n            let saved = filepath.with_extension(\"new\");\n            if saved.exists() {\n                let _ = fs::rename(saved, filepath);\n            }\n            Err(io_err.description().to_string())\n        }"),
    ("n3-lock-parent", "bug", ["C02"], GU, "    path::Path::new(root_dir).join(LOCK_FILE).into_boxed_path()", "    path::Path::new(root_dir)\n        .parent()\n        .map(|p| p.join(LOCK_FILE))\n        .unwrap_or_else(|| path::PathBuf::from(LOCK_FILE))\n        .into_boxed_path()"),
    ("n3-new-tmp", "bug", ["C02"], GU, '    let new_path = command_path.with_extension("new");', '    let new_path = path::Path::new(root_dir).join("commands.new");'),
    ("n3-clean-commands-only", "bug", ["C46"], GU, "        std::fs::remove_dir_all(root_path(root_dir).as_ref())", "        std::fs::remove_file(command_path(root_dir).as_ref())"),
    ("n3-lock-retry", "bug", ["C04"], GU, "    lock(root_dir)?;\n    let res = block();", "    if lock(root_dir).is_err() {\n        unlock(root_dir)?;\n        lock(root_dir)?;\n    }\n    let res = block();"),
    ("n3-lock-exists", "bug", ["C04"], GU, """    fs::OpenOptions::new()
        .create_new(true)
        .write(true)
        .open(lock_path(root_dir).as_ref())
        .map(|_| ())
}""", """    if is_locked(root_dir) {
        return Err(io::Error::new(io::ErrorKind::AlreadyExists, "locked"));
    }
    fs::File::create(lock_path(root_dir).as_ref()).map(|_| ())
}"""),
    ("n3-lock-stale", "bug", ["C04"], GU, """    fs::OpenOptions::new()
        .create_new(true)""", """    if let Ok(meta) = fs::metadata(lock_path(root_dir).as_ref()) {
        if meta.len() > 0 {
            let _ = fs::remove_file(lock_path(root_dir).as_ref());
        }
    }
    fs::OpenOptions::new()
        .create_new(true)"""),
    ("n3-unlock-skip", "bug", ["C03"], GU, "    let res = block();\n    unlock(root_dir)?;\n    res", "    let res = block();\n    if res.is_ok() || path::Path::new(root_dir).join(GRAPH_ROOT_DIR).exists() {\n        unlock(root_dir)?;\n    }\n    res"),
    ("n3-apply-recover", "bug", ["C05"], GU, "        gcmd::add_commands(path.as_ref().to_str().unwrap(), commands)\n", "        if commands.len() == 1 && is_locked(&root_path(root_dir).to_string_lossy()) {\n            fs::write(&path, \"\")?;\n        }\n        gcmd::add_commands(path.as_ref().to_str().unwrap(), commands)\n"),
    ("n3-init-new", "bug", ["C05"], GU, "    path.parent().map(|parent| fs::create_dir_all(parent));\n    fs::OpenOptions::new()\n        .create(true)\n        .write(true)\n        .open(path)\n        .map(|_| ())", "    path.parent().map(|parent| fs::create_dir_all(parent));\n    fs::File::create(path).map(|_| ())"),
    ("n3-replace-copy", "bug", ["C06"], GU, "    fs::rename(new_path, command_path)", "    fs::copy(&new_path, &command_path)?;\n    fs::remove_file(new_path)"),
    ("n3-replace-remove", "bug", ["C06"], GU, "    fs::rename(new_path, command_path)", "    if command_path.exists() {\n        fs::remove_file(&command_path)?;\n    }\n    fs::rename(new_path, command_path)"),
    ("n3-replace-small", "bug", ["C06"], GU, "    let new_path = command_path.with_extension(\"new\");", "    let new_path = if graph.vertex_count() < 3 {\n        command_path.to_path_buf()\n    } else {\n        command_path.with_extension(\"new\")\n    };"),
    ("n3-clean-noconfirm", "bug", ["C07"], BCL, "    if !force {", "    if !force && !silent {"),
    ("n3-confirm-empty", "bug", ["C07"], AU, '        "yes" | "y" => true,', '        "yes" | "y" | "" => true,'),
    ("n3-confirm-prefix", "bug", ["C07"], AU, '    match buffer.to_string().trim().as_ref() {\n        "yes" | "y" => true,\n        "no" | _ => false,\n    }', '    buffer.trim().starts_with("y")'),
    ("n3-random-confirm", "bug", ["C07"], BR, "            if !yes_no {\n                println!(\"Aborting.\");\n                return ();\n            }", "            if !yes_no {\n                println!(\"Aborting.\");\n                if random_graph.edge_count() > 0 {\n                    return ();\n                }\n            }"),
    ("n3-random-ignore", "bug", ["C08"], BR, """        graph_utils::init(path).expect(&format![
            "A problem occured. Unable to create a new graph at '{}' (check directory structure and 'lock' file)",
            &path
        ]);""", """        let _ = graph_utils::init(path);"""),
    ("n3-add-ok", "bug", ["C08"], BA, ".map(|vids| clique_from_vertices(vids.map(|vid| VertexId(vid)).collect()))\n        .map(|vids| graph_utils::add_edges(path, vids).expect(\"Couldn\\'t update graph\"));", ".map(|vids| clique_from_vertices(vids.map(|vid| VertexId(vid)).collect()))\n        .map(|vids| graph_utils::add_edges(path, vids).unwrap_or_else(|e| println!(\"{}\", e)));"),
    ("n3-line-write", "bug", ["C08"], GCMD, '        writeln![buffered, "{}", line]?;', '        if writeln![buffered, "{}", line].is_err() {\n            break;\n        }'),
    ("n3-unlock-ok", "bug", ["C08"], GU, "    unlock(root_dir)?;\n    res", "    let _ = unlock(root_dir);\n    res"),
    ("n3-build-path", "bug", ["C41"], BB, 'let path = args.value_of("path").unwrap();', 'let path = args.value_of("path").filter(|p| !p.is_empty()).map(|p| if p.ends_with("/.graph") { "." } else { p }).unwrap();'),
    ("n3-csp-path", "bug", ["C41"], GU, "    load_graph_from_path(command_path(root_dir).as_ref())", "    let fresh = command_path(root_dir).with_extension(\"new\");\n    if fresh.exists() {\n        return load_graph_from_path(&fresh);\n    }\n    load_graph_from_path(command_path(root_dir).as_ref())"),
    ("n3-rebuild-isolated", "bug", ["C46"], GU, "            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;\n        replace_commands", "            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;\n        let mut graph = graph;\n        let lonely: Vec<VertexId> = graph\n            .vertices()\n            .filter(|v| graph.degree_in(**v) + graph.degree_out(**v) == 0)\n            .map(|v| *v)\n            .collect();\n        for v in lonely {\n            graph.remove_vertex(v);\n        }\n        replace_commands"),
    ("n3-rebuild-default", "bug", ["C46"], GU, "        let graph = load_graph(root_dir)\n            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;", "        let graph = load_graph(root_dir).unwrap_or_else(|_| DirectedGraph::new());"),
    ("n3-addv-single", "bug", ["C13"], GU, "    apply_graph_commands(root_dir, vids.iter().map(|vid| AddVertex(*vid)).collect())", "    let mut seen = std::collections::BTreeSet::new();\n    apply_graph_commands(root_dir, vids.iter().filter(|v| seen.insert(**v)).map(|vid| AddVertex(*vid)).collect())"),
    ("n3-remove-sorted", "bug", ["C13"], GU, "    apply_graph_commands(\n        root_dir,\n        vids.iter().map(|vid| RemoveVertex(*vid)).collect(),\n    )", "    let mut vids = vids;\n    vids.sort();\n    apply_graph_commands(\n        root_dir,\n        vids.iter().map(|vid| RemoveVertex(*vid)).collect(),\n    )"),
    ("n3-del-selfloop", "bug", ["C13"], GU, "            .map(|(src, dest)| RemoveEdge(*src, *dest))", "            .filter(|(src, dest)| src != dest)\n            .map(|(src, dest)| RemoveEdge(*src, *dest))"),
    ("n3-reverse-self", "bug", ["C13", "C14"], BA, "    if should_reverse {", "    if should_reverse && vertices.len() > 1 {"),
    ("n3-chain-panic", "bug", ["C14"], BA, "    for i in 0..vertices.len() - 1 {\n        result.push((vertices[i], vertices[i + 1]));", "    for i in 0..vertices.len() - 1 {\n        if vertices[i] == vertices[i + 1] {\n            continue;\n        }\n        result.push((vertices[i], vertices[i + 1]));"),
    ("n3-star-center", "bug", ["C14"], BA, "        result.push((vertices[0], vertices[i]));", "        if vertices[i] != vertices[0] {\n            result.push((vertices[0], vertices[i]));\n        }"),
    ("n3-parse-plus", "bug", ["C15"], BX, '        .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::remove_vertices', '        .map(|vids| vids.filter_map(|v| v.parse::<u64>().ok()))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::remove_vertices'),
    ("n3-parse-trunc", "bug", ["C13"], BX, '        .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::remove_vertices', '        .map(|vids| vids.map(|v| v.parse::<i64>().expect("Invalid vertex id") as u64))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::remove_vertices'),
    # ---- formats
    ("m3-tgf-vertices-deg", "same", [], TGF, "    for vertex in graph.vertices() {\n", "    for vertex in graph.vertices() {\n        if graph.degree_out(*vertex) > 0 {\n            continue;\n        }\n"),
    ("n3-tgf-sep", "bug", ["C10"], TGF, '        writeln!(buffered, "{} {}", src, dest)?;', '        writeln!(buffered, "{}{:>5}", src, dest)?;'),
    ("n3-tgf-hash", "bug", ["C10", "C11"], TGF, '    line.trim().starts_with("#")', '    line.trim().starts_with("#") || line.starts_with("0 ")'),
    ("n3-tgf-re", "bug", ["C10"], TGF, r'''Regex::new(r"^(\d+)\s+(\d+)(.*)$")''', r'''Regex::new(r"^(\d+)\s+(\d{1,19})(.*)$")'''),
    ("n3-gcmd-width", "bug", ["C09"], GCMD, '''format!["RemoveEdge {} {}", src, dest]''', '''format!["RemoveEdge {} {:x}", src, dest]'''),
    ("n3-gcmd-re1", "bug", ["C09"], GCMD, r'''r"^RemoveEdge (\d+)\s+(\d+)$"''', r'''r"^RemoveEdge (\d+)\s+(\d{1,18})$"'''),
    ("n3-parse-u32", "bug", ["C09"], UT, "    id.parse::<u64>()\n        .map(VertexId)", "    id.parse::<u32>()\n        .map(|x| VertexId(x as u64))"),
    ("n3-apply-skip", "bug", ["C12", "C39"], GCM, "        for command in commands.iter() {\n            command.apply_to(graph);", "        for (i, command) in commands.iter().enumerate() {\n            if commands.len() > 50 && commands[..i].contains(command) {\n                continue;\n            }\n            command.apply_to(graph);"),
    ("n3-read-max", "bug", ["C12"], UT, "    for (index, line) in reader.lines().enumerate() {", "    for (index, line) in reader.lines().enumerate().take(1_000_000) {"),
    ("n3-read-reset", "bug", ["C12"], UT, "                Ok(command) => result.push(command),", "                Ok(command) => {\n                    if let GraphCommand::RemoveVertex(_) = command {\n                        if result.len() == 1 {\n                            result.clear();\n                        }\n                    }\n                    result.push(command)\n                }"),
    # ---- graph
    ("n3-remove-edge-swap", "bug", ["C16"], DGF, "            .get_mut(&dst)\n            .map(|edges| edges.retain(|e| *e != edge));", "            .get_mut(&dst)\n            .map(|edges| edges.retain(|e| *e != edge && *e != edge.reverse()));"),
    ("n3-remove-vertex-other", "bug", ["C16"], DGF, "        edges.iter().for_each(|e| {\n            self.remove_edge(*e);\n        });", "        edges.iter().take(64).for_each(|e| {\n            self.remove_edge(*e);\n        });"),
    ("n3-add-edge-contains", "bug", ["C16"], DGF, "        if !self.contains_edge(edge) {\n            let Edge(v1, v2) = edge;", "        if !self.contains_edge(edge) || edge.0 == edge.1 {\n            let Edge(v1, v2) = edge;"),
    ("n3-add-vertex-replace", "bug", ["C16"], DGF, "        self.edge_map.entry(vertex_id).or_insert_with(|| {\n            contains_vertex = false;\n            vec![]\n        });\n        contains_vertex", "        let edges = self.edge_map.remove(&vertex_id);\n        if edges.as_ref().map(|x| x.is_empty()).unwrap_or(true) {\n            contains_vertex = edges.is_some();\n            self.edge_map.insert(vertex_id, vec![]);\n        }\n        contains_vertex"),
    ("n3-edge-count-degree", "bug", ["C17"], DGF, "        self.edges().count()", "        self.edge_map.values().map(|e| e.len()).sum::<usize>() / 2"),
    ("n3-contains-either", "bug", ["C17"], DGF, "        if self.contains_vertex(v1) && self.contains_vertex(v2) {", "        if self.contains_vertex(v1) && v1 != v2 {"),
    ("n3-degree-in", "bug", ["C17"], DGF, "        self.inbound_edges(vertex_id).count()\n", "        self.inbound_edges(vertex_id).filter(|e| e.0 != e.1).count()\n"),
    ("n3-inbound-unwrap", "bug", ["C17"], DGF, "    pub fn inbound_edges(&self, vertex_id: VertexId) -> impl Iterator<Item = &Edge> {\n        self.edge_map\n            .get(&vertex_id)\n            .into_iter()\n            .flat_map(|edges| edges.iter())", "    pub fn inbound_edges(&self, vertex_id: VertexId) -> impl Iterator<Item = &Edge> {\n        self.edge_map[&vertex_id]\n            .iter()"),
    ("n3-mut-access", "bug", ["C18"], DGF, "    pub fn degree_out(", "    pub fn edges_mut(&mut self, vertex_id: VertexId) -> Option<&mut Vec<Edge>> {\n        self.edge_map.get_mut(&vertex_id)\n    }\n\n    pub fn degree_out("),
    ("n3-derefmut", "bug", ["C18"], DGF, "#[cfg(test)]\nmod test {", "impl AsMut<HashMap<VertexId, Vec<Edge>>> for DirectedGraph {\n    fn as_mut(&mut self) -> &mut HashMap<VertexId, Vec<Edge>> {\n        &mut self.edge_map\n    }\n}\n\n#[cfg(test)]\nmod test {"),
    ("n3-reverse-edge", "bug", ["C40"], GR, "        Edge(v2, v1)", "        if v1 == VertexId(0) { *self } else { Edge(v2, v1) }"),
    ("n3-from-pair", "bug", ["C40"], GR, "        Edge(pair.0, pair.1)", "        Edge(pair.1, pair.0)"),
    ("n3-revert-same", "bug", ["C39"], GCM, "            RemoveEdge(v1, v2) => AddEdge(v1, v2),", "            RemoveEdge(v1, v2) if v1 > v2 => AddEdge(v2, v1),\n            RemoveEdge(v1, v2) => AddEdge(v1, v2),"),
    ("m3-ascommands-skip", "same", [], GCM, "        for &vertex_id in graph.vertices() {\n            res.push(AddVertex(vertex_id))\n        }", "        for &vertex_id in graph.vertices() {\n            if graph.outbound_edges(vertex_id).next().is_none() {\n                res.push(AddVertex(vertex_id))\n            }\n        }"),
    ("n3-path-edge-rev", "bug", ["C40"], PATH, "self.to_edge_list().find(|e| e == edge).is_some()", "self.contains_vertex(&edge.0) && self.to_edge_list().find(|e| e.1 == edge.1).is_some()"),
    ("n3-path-cyc-adj", "bug", ["C40"], PATH, "        let mut set = std::collections::HashSet::<&VertexId>::new();\n        for vid in &self.vertices {", "        let mut set = std::collections::HashSet::<&VertexId>::new();\n        for vid in self.vertices.iter().skip(1) {"),
    ("n3-ord-len", "bug", ["C40"], PATH, "        self.score.cmp(&other.score)", "        self.score.cmp(&other.score).then(self.path.size().cmp(&other.path.size()))"),
    # benign
    ("m3-build-two", "same", [], BB, '    let graph = graph_utils::rebuild_graph(path).expect("Couldn\'t rebuild graph");\n    if verbose {', '    let graph = match graph_utils::rebuild_graph(path) {\n        Ok(graph) => graph,\n        Err(err) => panic!("Couldn\'t rebuild graph: {}", err),\n    };\n    if verbose {'),
    ("m3-clean-exit", "same", [], BCL, "    if !force {\n        let yes_no", "    let confirmed = force || {\n        let yes_no", BCL, "        if !yes_no {\n            println!(\"Aborting.\");\n            return ();\n        }\n    }\n", "        yes_no\n    };\n    if !confirmed {\n        println!(\"Aborting.\");\n        return ();\n    }\n"),
    ("m3-clean-process-exit", "same", [], BCL, """    graph_utils::clean(path).expect(&format![
        "A problem occured. Path '{}' might not exist, or the graph is currently lock (check 'lock' file)",
        path
    ]);""", """    if let Err(err) = graph_utils::clean(path) {
        eprintln!("A problem occured at '{}': {}", path, err);
        std::process::exit(1);
    }"""),
    ("m3-confirm-lower", "same", [], AU, '    match buffer.to_string().trim().as_ref() {\n        "yes" | "y" => true,\n        "no" | _ => false,\n    }', '    let answer = buffer.trim();\n    answer == "yes" || answer == "y"'),
    ("m3-confirm-const", "same", [], AU, '    match buffer.to_string().trim().as_ref() {\n        "yes" | "y" => true,\n        "no" | _ => false,\n    }', '    const YES: [&str; 2] = ["yes", "y"];\n    YES.contains(&buffer.trim())'),
    ("m3-lock-guard", "same", [], GU, "    lock(root_dir)?;\n    let res = block();\n    unlock(root_dir)?;\n    res\n}", "    lock(root_dir)?;\n    let outcome = block();\n    release(root_dir, outcome)\n}\n\nfn release<T>(root_dir: &str, outcome: io::Result<T>) -> io::Result<T> {\n    unlock(root_dir)?;\n    outcome\n}"),
    ("m3-paths", "same", [], GU, "    path::Path::new(root_dir)\n        .join(GRAPH_ROOT_DIR)\n        .join(COMMANDS_FILE)\n        .into_boxed_path()", "    root_path(root_dir).join(COMMANDS_FILE).into_boxed_path()"),
    ("m3-paths-pathbuf", "same", [], GU, "    path::Path::new(root_dir)\n        .join(GRAPH_ROOT_DIR)\n        .join(COMMANDS_FILE)\n        .into_boxed_path()", "    let mut buf = path::PathBuf::from(root_dir);\n    buf.push(GRAPH_ROOT_DIR);\n    buf.push(COMMANDS_FILE);\n    buf.into_boxed_path()"),
    ("m3-load-question", "same", [], GU, """    match fs::File::open(filepath) {
        Ok(commands) => Ok(gcmd::read(commands)?),
        Err(io_err) => Err(io_err.description().to_string()),
    }""", """    fs::File::open(filepath)
        .map_err(|io_err| io_err.to_string())
        .and_then(gcmd::read)"""),
    ("m3-add-loop", "same", [], GU, "    apply_graph_commands(root_dir, vids.iter().map(|vid| AddVertex(*vid)).collect())", "    let mut commands = Vec::with_capacity(vids.len());\n    for vid in vids {\n        commands.push(AddVertex(vid));\n    }\n    apply_graph_commands(root_dir, commands)"),
    ("m3-add-intoiter", "same", [], GU, "    apply_graph_commands(root_dir, vids.iter().map(|vid| AddVertex(*vid)).collect())", "    apply_graph_commands(root_dir, vids.into_iter().map(AddVertex).collect())"),
    ("m3-edges-intoiter", "same", [], GU, "        edges\n            .iter()\n            .map(|(src, dest)| RemoveEdge(*src, *dest))\n            .collect(),", "        edges\n            .into_iter()\n            .map(|(src, dest)| RemoveEdge(src, dest))\n            .collect::<Vec<_>>(),"),
    ("m3-delete-iflet", "same", [], BX, """    args.values_of("vertex")
        .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
        .map(|vids| vids.map(|vid| VertexId(vid)).collect())
        .map(|vids| graph_utils::remove_vertices(path, vids).expect("Couldn\\'t update graph"));""", """    if let Some(values) = args.values_of("vertex") {
        let vids: Vec<VertexId> = values
            .map(|v| VertexId(v.parse().expect("Invalid vertex id")))
            .collect();
        graph_utils::remove_vertices(path, vids).expect("Couldn't update graph");
    }"""),
    ("m3-parse-helper", "same", [], BX, '        .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::remove_vertices', '        .map(|vids| vids.map(parse_id).collect())\n        .map(|vids| graph_utils::remove_vertices', BX, "fn main() {", "fn parse_id(value: &str) -> VertexId {\n    VertexId(value.parse::<u64>().expect(\"Invalid vertex id\"))\n}\n\nfn main() {"),
    ("m3-desc-fold", "same", [], BD, """        graph
            .vertices()
            .map(|VertexId(x)| x)
            .min()
            .map(|x| x.to_string())
            .unwrap_or_else(|| "-".to_string())""", """        match graph.vertices().min() {
            Some(VertexId(id)) => format!("{}", id),
            None => String::from("-"),
        }"""),
    ("m3-desc-helper", "same", [], BD, """        graph
            .vertices()
            .map(|VertexId(x)| x)
            .min()
            .map(|x| x.to_string())
            .unwrap_or_else(|| "-".to_string())""", """        describe(graph.vertices().map(|v| v.0).min())""", BD, """        graph
            .vertices()
            .map(|VertexId(x)| x)
            .max()
            .map(|x| x.to_string())
            .unwrap_or_else(|| "-".to_string())""", """        describe(graph.vertices().map(|v| v.0).max())""", BD, "use gc_core::graph::VertexId;\n", "\nfn describe(id: Option<u64>) -> String {\n    id.map_or(\"-\".to_string(), |x| x.to_string())\n}\n"),
    ("m3-edges-flatmap", "same", [], DGF, """        self.edge_map
            .iter()
            .map(|(vertex_id, edges)| {
                edges
                    .iter()
                    .filter(move |Edge(from, _)| *vertex_id == *from)
            })
            .flatten()""", """        self.edge_map
            .iter()
            .flat_map(|(vertex_id, edges)| edges.iter().filter(move |e| e.0 == *vertex_id))"""),
    ("m3-edges-out", "same", [], DGF, """        self.edge_map
            .iter()
            .map(|(vertex_id, edges)| {
                edges
                    .iter()
                    .filter(move |Edge(from, _)| *vertex_id == *from)
            })
            .flatten()""", """        self.vertices().flat_map(move |v| self.outbound_edges(*v))"""),
    ("m3-outbound-iflet", "same", [], DGF, """    pub fn outbound_edges(&self, vertex_id: VertexId) -> impl Iterator<Item = &Edge> {
        self.edge_map
            .get(&vertex_id)
            .into_iter()
            .flat_map(|edges| edges.iter())
            .filter(move |e| e.0 == vertex_id)""", """    pub fn outbound_edges(&self, vertex_id: VertexId) -> impl Iterator<Item = &Edge> {
        let edges: &[Edge] = match self.edge_map.get(&vertex_id) {
            Some(edges) => edges,
            None => &[],
        };
        edges.iter().filter(move |e| e.0 == vertex_id)"""),
    ("m3-remove-vertex-map", "same", [], DGF, """        let (found, edges) = match self.edge_map.get(&vertex_id) {
            None => (false, vec![]),
            Some(edges) => (true, edges.clone()),
        };
        // Removing all edges containing the vertex
        self.edge_map.remove(&vertex_id);
        edges.iter().for_each(|e| {
            self.remove_edge(*e);
        });
        found""", """        let removed = self.edge_map.remove(&vertex_id);
        let found = removed.is_some();
        for Edge(a, b) in removed.unwrap_or_default() {
            let other = if a == vertex_id { b } else { a };
            if let Some(edges) = self.edge_map.get_mut(&other) {
                edges.retain(|e| e.0 != vertex_id && e.1 != vertex_id);
            }
        }
        found"""),
    ("m3-remove-vertex-all", "same", [], DGF, """        let (found, edges) = match self.edge_map.get(&vertex_id) {
            None => (false, vec![]),
            Some(edges) => (true, edges.clone()),
        };
        // Removing all edges containing the vertex
        self.edge_map.remove(&vertex_id);
        edges.iter().for_each(|e| {
            self.remove_edge(*e);
        });
        found""", """        let found = self.edge_map.remove(&vertex_id).is_some();
        for edges in self.edge_map.values_mut() {
            edges.retain(|e| e.0 != vertex_id && e.1 != vertex_id);
        }
        found"""),
    ("m3-add-edge-entry", "same", [], DGF, """            self.add_vertex(v1);
            self.add_vertex(v2);
            self.edge_map.get_mut(&v1).unwrap().push(edge);
            if edge.0 != edge.1 {
                self.edge_map.get_mut(&v2).unwrap().push(edge);
            }
            true""", """            self.edge_map.entry(v1).or_insert_with(Vec::new).push(edge);
            if v1 != v2 {
                self.edge_map.entry(v2).or_insert_with(Vec::new).push(edge);
            }
            true"""),
    ("m3-contains-edge-map", "same", [], DGF, """        let Edge(v1, v2) = edge;
        if self.contains_vertex(v1) && self.contains_vertex(v2) {
            // We need to look-up only for one of the vertices
            self.edge_map
                .get(&v1)
                .unwrap()
                .iter()
                .position(|x| *x == edge)
                .is_some()
        } else {
            false
        }""", """        self.outbound_edges(edge.0).any(|e| *e == edge)"""),
    ("m3-contains-edge-mapor", "same", [], DGF, """        let Edge(v1, v2) = edge;
        if self.contains_vertex(v1) && self.contains_vertex(v2) {
            // We need to look-up only for one of the vertices
            self.edge_map
                .get(&v1)
                .unwrap()
                .iter()
                .position(|x| *x == edge)
                .is_some()
        } else {
            false
        }""", """        self.edge_map
            .get(&edge.0)
            .map_or(false, |edges| edges.contains(&edge))"""),
    ("m3-edgecount-sum", "same", [], DGF, "        self.edges().count()", "        self.vertices().map(|v| self.degree_out(*v)).sum()"),
    ("m3-isempty", "same", [], DGF, "        self.vertex_count() == 0", "        self.edge_map.is_empty()"),
    ("m3-apply-foreach", "same", [], GCM, "        for command in commands.iter() {\n            command.apply_to(graph);\n        }", "        commands.into_iter().for_each(|c| c.apply_to(graph));"),
    ("m3-ascommands-chain", "same", [], GCM, """        let mut res: Vec<GraphCommand> = vec![];
        for &vertex_id in graph.vertices() {
            res.push(AddVertex(vertex_id))
        }
        for &Edge(v1, v2) in graph.edges() {
            res.push(AddEdge(v1, v2))
        }
        res""", """        let vertices = graph.vertices().map(|v| AddVertex(*v));
        let edges = graph.edges().map(|e| AddEdge(e.0, e.1));
        vertices.chain(edges).collect()"""),
    ("m3-cycle-count", "same", [], PATH, """        let mut set = std::collections::HashSet::<&VertexId>::new();
        for vid in &self.vertices {
            if set.contains(vid) {
                return true;
            }
            set.insert(vid);
        }
        return false;""", """        let distinct: std::collections::HashSet<&VertexId> = self.vertices.iter().collect();
        distinct.len() < self.vertices.len()"""),
    ("m3-partial-cmp", "same", [], PATH, "        self.score.partial_cmp(&other.score)", "        Some(self.cmp(other))"),
    ("m3-tgf-helper", "same", [], TGF, """    for vertex in graph.vertices() {
        let VertexId(vertex_id) = vertex;
        writeln!(buffered, "{}", vertex_id)?;
    }
    for edge in graph.edges() {
        let Edge(VertexId(src), VertexId(dest)) = edge;
        writeln!(buffered, "{} {}", src, dest)?;
    }
    buffered.flush()""", """    write_graph(graph, &mut buffered)?;
    buffered.flush()""", TGF, "// Parses a line into a GraphCommand", """fn write_graph<W: Write>(graph: &DirectedGraph, out: &mut W) -> std::io::Result<()> {
    for VertexId(id) in graph.vertices() {
        writeln!(out, "{}", id)?;
    }
    for e in graph.edges() {
        writeln!(out, "{} {}", (e.0).0, (e.1).0)?;
    }
    Ok(())
}

// Parses a line into a GraphCommand"""),
    ("m3-tgf-nested", "same", [], TGF, """    for edge in graph.edges() {
        let Edge(VertexId(src), VertexId(dest)) = edge;
        writeln!(buffered, "{} {}", src, dest)?;
    }""", """    for vertex in graph.vertices() {
        for Edge(VertexId(src), VertexId(dest)) in graph.outbound_edges(*vertex) {
            writeln!(buffered, "{}\\t{}", src, dest)?;
        }
    }"""),
]

# ---------------------------------------------------------------- batch 4
EDITS += [
    ("n4-val-selfedge", "bug", ["C26"], CK, "            ContainsEdge(Edge(src, dst)) => Some(vec![src, dst]),", "            ContainsEdge(Edge(src, dst)) if src != dst => Some(vec![src, dst]),"),
    ("n4-val-minscore-eq", "bug", ["C26"], CK, """        match (min_score.first(), max_score.first()) {
            (Some(min), Some(max)) if min > max""", """        match (min_score.first(), max_score.first()) {
            (Some(min), Some(max)) if *min >= 0 && min > max"""),
    ("n4-val-cycle-or", "bug", ["C26"], CK, "    if !(contains_cycle && contains_no_cycle) {", "    if !(contains_cycle && contains_no_cycle) || constraints.len() > 2 {"),
    ("n4-val-dupmin", "bug", ["C26"], CK, "    if min_length.len() > 1 {", "    if min_length.len() > 2 {"),
    ("n4-val-skip", "bug", ["C26"], CK, "    check_cycle_inclusion_exclusion(constraints)?;\n", "    check_cycle_inclusion_exclusion(constraints).or_else(|e| if constraints.len() < 3 { Err(e) } else { Ok(()) })?;\n"),
    ("n4-val-notvertex-edge", "bug", ["C26"], CK, """                ContainsVertex(ref vid) => Some(vec![vid]),
                _ => None,
            },""", """                ContainsVertex(ref vid) => Some(vec![vid]),
                ContainsEdge(Edge(ref src, ref dst)) if src == dst => Some(vec![src]),
                _ => None,
            },"""),
    ("n4-par-notand", "bug", ["C24"], CN, "                ContainsCycle => !partial.path.contains_cycle(),", "                ContainsCycle => !partial.path.contains_cycle(),\n                And(ref c1, ref c2) => !(c1.check_partial(partial) && c2.check_partial(partial)),"),
    ("n4-par-notmax", "bug", ["C24"], CN, "                ContainsCycle => !partial.path.contains_cycle(),", "                ContainsCycle => !partial.path.contains_cycle(),\n                MaxLength(len) => partial.path.size() > len,"),
    ("n4-par-minlen-cycle", "bug", ["C24"], CN, "            ContainsCycle => true,\n", "            ContainsCycle => partial.path.size() < 1000 || partial.path.contains_cycle(),\n"),
    ("n4-par-contains-edge", "bug", ["C24"], CN, "            ContainsVertex(_) | ContainsEdge(_) => true,", "            ContainsVertex(_) => true,\n            ContainsEdge(edge) => !partial.path.contains_vertex(&edge.1) || partial.path.contains_edge(edge),"),
    ("n4-par-score", "bug", ["C24"], CN, "            MaxScore(score) => partial.score <= *score,", "            MaxScore(score) => partial.score < *score || partial.path.size() == 1,"),
    ("n4-com-maxlen", "bug", ["C25"], CN, "            MaxLength(len) => full.path.size() <= *len,\n            MinScore", "            MaxLength(len) => full.path.to_edge_list().count() <= *len,\n            MinScore"),
    ("n4-com-or", "bug", ["C25"], CN, "            Or(c1, c2) => c1.check_complete(full) || c2.check_complete(full),", "            Or(c1, c2) => c1.check_complete(full) || (c1 != c2 && c2.check_partial(full)),"),
    ("n4-com-order-first", "bug", ["C25"], CN, "        for vertex in &path.vertices {\n", "        for vertex in path.vertices.iter().skip(1) {\n"),
    ("n4-com-order-many", "bug", ["C25"], CN, "        for (index, vertex) in ordered.iter().enumerate() {", "        for (index, vertex) in ordered.iter().enumerate().take(8) {"),
    ("n4-astar-weight", "bug", ["C23", "C22", "C27"], AST, "    (path.size() - 1).try_into().unwrap()", "    let distinct: std::collections::HashSet<&VertexId> = path.vertices.iter().collect();\n    (distinct.len() - 1).try_into().unwrap()"),
    ("n4-astar-heur", "bug", ["C22", "C23", "C27"], AST, "pub fn zero_heuristic(_: &DirectedGraph, _: &Path) -> i64 {\n    0", "pub fn zero_heuristic(_: &DirectedGraph, p: &Path) -> i64 {\n    p.size() as i64 % 7"),
    ("n4-astar-start", "bug", ["C22"], AST, "    .find(|sp| sp.path.last().map(|x| *x) == Some(end))", "    .find(|sp| sp.path.size() > 1 && sp.path.last().map(|x| *x) == Some(end))"),
    ("n4-astar-con-size", "bug", ["C23"], AST, "            && all_constraints.iter().all(|c| c.check_complete(sp))", "            && all_constraints.iter().take(10).all(|c| c.check_complete(sp))"),
    ("n4-astar-con-partial", "bug", ["C23"], AST, "            && all_constraints.iter().all(|c| c.check_complete(sp))", "            && all_constraints.iter().all(|c| c.check_partial(sp))"),
    ("n4-best-size", "bug", ["C22"], IBE, "                        if !self.visited.contains(v) {", "                        if !self.visited.contains(v) && weighted_path.path.size() < 64 {"),
    ("n4-best-incr", "same", [], IBE, "                                score: (self.scorefn)(self.graph, &new_path),", "                                score: weighted_path.score.max((self.scorefn)(self.graph, &new_path)),"),
    ("n4-bc-repeat", "bug", ["C23"], IBC, "                        if check_all_partial_constraints(&new_scored_path, &self.constraints) {", "                        if check_all_partial_constraints(&new_scored_path, &self.constraints)\n                            && !(self.constraints.is_empty() && weighted_path.path.contains_vertex(v) && false)\n                            && weighted_path.path.vertices.iter().filter(|x| *x == v).count() < 2\n                        {"),
    ("n4-bc-dropeq", "bug", ["C23"], IBC, "                        if check_all_partial_constraints(&new_scored_path, &self.constraints) {", "                        if new_scored_path.score >= weighted_path.score && check_all_partial_constraints(&new_scored_path, &self.constraints) {"),
    ("n4-bfs-parity", "bug", ["C19"], IB, "                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);\n                            self.queue.push(*v)", "                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);\n                            if self.visited.len() < 10000 || v.0 % 2 == 0 {\n                                self.queue.push(*v)\n                            }"),
    ("n4-dfs-selfskip", "bug", ["C19"], ID, "                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);", "                        if !self.visited.contains(v) && v.0 != u64::max_value() {\n                            self.visited.insert(*v);"),
    ("n4-dfs-path-len", "bug", ["C20"], ID, "                        if !path.contains_vertex(v) {", "                        if !path.contains_vertex(v) && path.size() <= 32 {"),
    ("n4-dfs-path-order", "bug", ["C20"], ID, "                        if !path.contains_vertex(v) {\n                            self.stack.push(path.append(*v));", "                        if path.first() != Some(v) && path.last() != Some(v) {\n                            self.stack.push(path.append(*v));"),
    ("n4-cyc-selfloop", "bug", ["C29"], ICY, "                        .for_each(|v| self.stack.push(path.append(*v)));", "                        .filter(|v| *v != last || path.size() > 1)\n                        .for_each(|v| self.stack.push(path.append(*v)));"),
    ("n4-cyc-forget", "bug", ["C29"], ICY, "                    self.returned.insert(cycle.clone());\n", "                    if self.returned.len() > 1000 {\n                        self.returned.clear();\n                    }\n                    self.returned.insert(cycle.clone());\n"),
    ("n4-cyc-canon-flag", "bug", ["C29"], ICY, "        self.vertices.first() == Some(min_vid)", "        self.vertices.first() == Some(min_vid) || self.vertices.len() == 2"),
    ("n4-cyc-from", "bug", ["C29"], ICY, "        if vertices.len() < 2 || vertices.len() != vertices.iter().unique().count() {", "        if vertices.len() < 2 || vertices.first() == vertices.last() {"),
    ("n4-cyc-count", "bug", ["C30"], CYC, "    iter_cycle::cycle_iter(graph).count()", "    iter_cycle::cycle_iter(graph).filter(|c| c.len() > 1).count()"),
    ("n4-cyc-take", "bug", ["C30"], CYC, "    iter_cycle::cycle_iter(graph).take(n).collect()", "    iter_cycle::cycle_iter(graph).take(std::cmp::max(n, 1)).collect()"),
    ("n4-cyc-longest", "bug", ["C30"], CYC, "    iter_cycle::cycle_iter(graph).max_by_key(|c| c.len())", "    iter_cycle::cycle_iter(graph).max()"),
    ("n4-cyc-ham", "bug", ["C30"], CYC, "        .filter(|c| c.len() == graph.vertex_count())", "        .filter(|c| c.len() == graph.vertices().filter(|v| graph.degree_out(**v) > 0).count())"),
    ("n4-ham-size", "bug", ["C31"], HAM, "    !path.contains_cycle() && path.size() == graph.vertex_count()", "    path.size() == graph.vertex_count() && path.first() != path.last()"),
    ("n4-ham-iter-skip", "bug", ["C31"], HAM, "        .flat_map(move |vid| iter::iter_depth::dfs_iter_path_from(graph, *vid))", "        .filter(move |vid| graph.degree_out(**vid) > 0)\n        .flat_map(move |vid| iter::iter_depth::dfs_iter_path_from(graph, *vid))"),
    ("n4-topo-self", "bug", ["C32"], TS, "            if graph.inbound_edges(dest).all(|e| removed_edges.contains(e)) {", "            if graph.inbound_edges(dest).all(|e| removed_edges.contains(e) || e.0 == dest) {"),
    ("n4-topo-res", "bug", ["C32"], TS, "    if removed_edges.len() != graph.edge_count() {", "    if removed_edges.len() + 1 < graph.edge_count() {"),
    ("n4-dag-vertexcount", "bug", ["C33"], TS, "    topological_sort(graph).is_some()", "    graph.edge_count() < 2 || topological_sort(graph).is_some()"),
    ("n4-dag-start", "bug", ["C34"], SHP, "        .skip_while(|v| **v != start)", "        .filter(|v| **v >= start)"),
    ("n4-dag-cmp", "bug", ["C34"], SHP, "                    if new_score < current_score {", "                    if new_score < current_score && new_score >= 0 {"),
    ("n4-bf-changed", "bug", ["C35"], SHP, "    for _ in 1..graph.vertex_count() {\n        for edge in graph.edges() {", "    for _ in 1..graph.vertex_count() {\n        if scores.len() == graph.vertex_count() {\n            break;\n        }\n        for edge in graph.edges() {"),
    ("n4-bf-selfloop", "bug", ["C35"], SHP, "        if let Some(ScoredPath { score, .. }) = scores.get(&u) {\n            if *score + weight < current_score_of_vertex(&scores, v) {\n                return None;", "        if let Some(ScoredPath { score, .. }) = scores.get(&u) {\n            if u != v && *score + weight < current_score_of_vertex(&scores, v) {\n                return None;"),
    ("n4-cur-score", "bug", ["C35"], SHP, "        .unwrap_or_else(|| std::i64::MAX)", "        .unwrap_or_else(|| std::i64::MAX / 2)"),
    ("n4-spfa-scored", "bug", ["C35"], SHP, "                    scores.insert(*v, scored_path_of(new_path, new_score));\n                    q.push(*v);", "                    if scores.insert(*v, scored_path_of(new_path, new_score)).is_none() {\n                        q.push(*v);\n                    }"),
    ("n4-long-abs", "bug", ["C34"], LOP, "        sp.score = -1 * sp.score;", "        sp.score = sp.score.abs();"),
    ("n4-flow-anti", "bug", ["C36"], MFL, "            let foward_edges = self\n", "            let g = self.graph;\n            let foward_edges = self\n", MFL, "                .inbound_edges(*vid)\n                .map(|Edge(v, _)| (v, Backward));", "                .inbound_edges(*vid)\n                .filter(move |e| !g.contains_edge(Edge(e.1, e.0)))\n                .map(|Edge(v, _)| (v, Backward));"),
    ("n4-flow-zero", "bug", ["C36"], MFL, "        current_flow.insert(*edge, (0, capacity(edge)));", "        if capacity(edge) > 0 {\n            current_flow.insert(*edge, (0, capacity(edge)));\n        }"),
    ("n4-flow-one", "bug", ["C36"], MFL, "                if residual_cap > 0 {", "                if residual_cap > 1 {"),
    ("n4-flow-selfloop", "bug", ["C36"], MFL, "    while let Some((path, residual_cap)) = find_augmenting_path(&graph, &current_flow, start, end) {\n", "    while let Some((path, residual_cap)) = find_augmenting_path(&graph, &current_flow, start, end) {\n        if max_flow > 1_000_000 {\n            break;\n        }\n"),
    ("n4-attr-or", "bug", ["C37"], MAP, "        self.mapping.insert(e, value);\n        true", "        self.mapping.entry(e).or_insert(value);\n        true"),
    ("n4-attr-both", "bug", ["C37"], ATC, "            RemoveEdgeAttr(v1, v2) => mapping.remove(&Edge(v1, v2)),", "            RemoveEdgeAttr(v1, v2) => mapping.remove(&Edge(v1, v2)) || mapping.remove(&Edge(v2, v1)),"),
    ("n4-attr-brk", "bug", ["C37"], ATC, "            AttributeCommand::<V>::apply_vertex_command_to(c, mapping);", "            if !AttributeCommand::<V>::apply_vertex_command_to(c, mapping) {\n                break;\n            }"),
    ("n4-attr-default", "bug", ["C37"], MAP, "        move |e: &K| self.mapping.get(e).unwrap_or(default_value)", "        move |e: &K| if self.mapping.len() > 1 { self.mapping.get(e).unwrap_or(default_value) } else { default_value }"),
    ("n4-q-dedup", "bug", ["C21"], DS, "        self.priority_queue.push(Reverse(elt))", "        if self.priority_queue.peek().map(|x| x.0 != elt).unwrap_or(true) {\n            self.priority_queue.push(Reverse(elt))\n        }"),
    ("n4-stack-cap", "bug", ["C21"], DS, "        self.stack.push_back(elt)", "        if self.stack.len() >= 4096 {\n            self.stack.pop_front();\n        }\n        self.stack.push_back(elt)"),
    ("n4-inc-take", "bug", ["C27", "C28"], AU, "    ids.iter().map(|c| ContainsVertex(*c)).collect()", "    ids.iter().take(16).map(|c| ContainsVertex(*c)).collect()"),
    ("n4-exc-dedup", "bug", ["C27", "C28"], AU, "    ids.iter()\n        .map(|c| Not(Box::new(ContainsVertex(*c))))\n        .collect()", "    ids.iter()\n        .filter(|c| c.0 > 0)\n        .map(|c| Not(Box::new(ContainsVertex(*c))))\n        .collect()"),
    ("n4-parse-sort", "bug", ["C27"], AU, "    Some(res)\n}\n\npub fn parse_edge_list", "    res.sort();\n    Some(res)\n}\n\npub fn parse_edge_list"),
    ("n4-edge-rev", "bug", ["C28"], AU, "        .map(|pairs| pairs.iter().map(|(src, dst)| Edge(*src, *dst)).collect())", "        .map(|pairs| pairs.iter().rev().map(|(src, dst)| if src == dst { Edge(*dst, *src) } else { Edge(*dst.min(src), *dst.max(src)) }).collect())"),
    ("n4-tuple-len", "bug", ["C13", "C28"], AU, "        for i in (0..vids.len()).step_by(2) {", "        for i in (0..vids.len().min(20)).step_by(2) {"),
    ("n4-cycle-take0", "bug", ["C28"], BY, '            .map(|x| x.parse::<usize>().expect("Invalid number"))\n    };', '            .map(|x| x.parse::<usize>().expect("Invalid number"))\n            .map(|n| if n == 0 { 1 } else { n })\n    };'),
    ("n4-girth-self", "bug", ["C28"], BY, "        Some(0) | None =>", "        Some(0) | Some(1) | None =>"),
    ("n4-cycle-maxlen", "bug", ["C28"], BY, "        Constraint::MinLength(_) | Constraint::MaxLength(_) => c.check_complete(&scored_path),", "        Constraint::MinLength(_) => c.check_complete(&scored_path),"),
    ("n4-cycle-longest-first", "bug", ["C28"], BY, "format_cycle_opt(iterator.max_by_key(|c| c.len()).as_ref())", "format_cycle_opt(iterator.filter(|c| c.len() > 1).max_by_key(|c| c.len()).as_ref())"),
    ("n4-cycle-fmt", "bug", ["C28"], BY, "cycle.iter().map(|VertexId(vid)| vid).collect::<Vec<&u64>>()", "cycle.iter().map(|VertexId(vid)| vid).take(100).collect::<Vec<&u64>>()"),
    ("n4-csp-swap", "bug", ["C27"], BC, "    match shortest_path_with_constraints(&graph, start_vertex, end_vertex, constraints) {", "    let (from, to) = if graph.contains_vertex(start_vertex) { (start_vertex, end_vertex) } else { (end_vertex, start_vertex) };\n    match shortest_path_with_constraints(&graph, from, to, constraints) {"),
    ("n4-csp-size", "bug", ["C27"], BC, "start_vertex.0, end_vertex.0, score\n", "start_vertex.0, end_vertex.0, shortest.size()\n"),
    ("n4-csp-dedup", "bug", ["C27"], BC, "    a_star::constrained_shortest_path(\n        graph,", "    let mut constraints = constraints;\n    if constraints.len() > 8 {\n        constraints.pop();\n    }\n    a_star::constrained_shortest_path(\n        graph,"),
    ("n4-csp-start", "bug", ["C15", "C27"], BC, '        .value_of("start")\n        .and_then(arg_utils::parse_vertex_id)\n        .map(|id| VertexId(id))\n        .unwrap();', '        .value_of("start")\n        .and_then(arg_utils::parse_vertex_id)\n        .map(|id| VertexId(id))\n        .unwrap_or(VertexId(0));'),
    ("n4-csp-u32", "bug", ["C27", "C15"], AU, "    v.parse::<u64>().ok()", "    v.parse::<u32>().map(u64::from).ok()"),
    ("n4-csp-i32", "bug", ["C27", "C15"], BC, '        .value_of("max-score")\n        .map(|x| x.parse::<i64>().expect("Invalid number"))', '        .value_of("max-score")\n        .map(|x| x.parse::<i32>().expect("Invalid number") as i64)'),
    ("n4-csp-trim", "bug", ["C15"], AU, "    v.parse::<u64>().ok()", "    v.split(',').next().and_then(|x| x.parse::<u64>().ok())"),
    # ------------------------------------------------------------ behaviour kept
    ("m4-val-any", "same", [], CK, "    if intersection.is_empty() {\n        ok()\n    } else {\n        fail(format![\"Incompatible set of constraints leading to vertices {:?}", "    if !vertex_inclusions.iter().any(|v| vertex_exclusions.contains(v)) {\n        ok()\n    } else {\n        fail(format![\"Incompatible set of constraints leading to vertices {:?}"),
    ("m4-val-order", "same", [], CK, "    check_vertex_inclusion_exclusion(constraints)?;\n    check_edge_inclusion_exclusion(constraints)?;\n", "    check_edge_inclusion_exclusion(constraints)?;\n    check_vertex_inclusion_exclusion(constraints)?;\n"),
    ("m4-val-and-then", "same", [], CK, "    check_cycle_inclusion_exclusion(constraints)?;\n    check_min_max_length(constraints)?;\n    check_min_max_score(constraints)?;\n    ok()", "    check_cycle_inclusion_exclusion(constraints)\n        .and_then(|_| check_min_max_length(constraints))\n        .and_then(|_| check_min_max_score(constraints))"),
    ("m4-val-contains", "same", [], CK, "    let contains_cycle = constraints.iter().find(|c| **c == ContainsCycle).is_some();", "    let contains_cycle = constraints.contains(&ContainsCycle);"),
    ("m4-val-zip", "same", [], CK, """    } else if !min_length.is_empty() && !max_length.is_empty() {
        match (min_length.first(), max_length.first()) {
            (Some(min), Some(max)) if min > max => fail(format![
                "Incompatible set of min/max length constraints: min={}, max={}",
                min, max
            ]),
            _ => ok(),
        }
    } else {
        ok()
    }""", """    } else {
        match min_length.iter().zip(max_length.iter()).find(|(min, max)| max < min) {
            Some((min, max)) => fail(format![
                "Incompatible set of min/max length constraints: min={}, max={}",
                min, max
            ]),
            None => ok(),
        }
    }"""),
    ("m4-par-merge", "same", [], CN, "            ContainsVertex(_) | ContainsEdge(_) => true,\n", "            ContainsVertex(_) | ContainsEdge(_) | ContainsCycle | MinLength(_) | MinScore(_) => true,\n", CN, "            ContainsCycle => true,\n            MinLength(_) | MinScore(_) => true,\n", ""),
    ("m4-par-notmin", "same", [], CN, "                ContainsCycle => !partial.path.contains_cycle(),", "                ContainsCycle => !partial.path.contains_cycle(),\n                // a path never gets shorter\n                MinLength(len) => partial.path.size() < len,"),
    ("m4-par-notor", "same", [], CN, "            Or(c1, c2) => c1.check_partial(partial) || c2.check_partial(partial),", "            Or(c1, c2) => !(!c1.check_partial(partial) && !c2.check_partial(partial)),"),
    ("m4-com-split", "same", [], CN, "            Xor(c1, c2) => c1.check_complete(full) ^ c2.check_complete(full),", "            Xor(c1, c2) => match (c1.check_complete(full), c2.check_complete(full)) {\n                (true, false) | (false, true) => true,\n                _ => false,\n            },"),
    ("m4-com-order-position", "same", [], CN, """        use std::collections::HashMap;
        // Cache : vertex -> index in the vector (relative position index)
        let mut vertex_to_index = HashMap::with_capacity(ordered.len());
        for (index, vertex) in ordered.iter().enumerate() {
            vertex_to_index.insert(vertex, index);
        }
        let mut start_from = 0;
        for vertex in &path.vertices {
            if let Some(relative_index) = vertex_to_index.get(vertex) {
                if *relative_index < start_from {
                    return false;
                } else {
                    start_from = *relative_index;
                }
            }
        }
        true""", """        let mut start_from = 0;
        for vertex in &path.vertices {
            if let Some(relative_index) = ordered.iter().rposition(|v| v == vertex) {
                if relative_index < start_from {
                    return false;
                }
                start_from = relative_index;
            }
        }
        true"""),
    ("m4-astar-map", "same", [], AST, "    .find(|sp| sp.path.last().map(|x| *x) == Some(end))", "    .find(|sp| sp.path.last() == Some(&end))"),
    ("m4-astar-filter", "same", [], AST, "    .find(|sp| {\n        sp.path.last().map(|x| *x) == Some(end)\n            && all_constraints.iter().all(|c| c.check_complete(sp))\n    })", "    .filter(|sp| sp.path.last().map(|x| *x) == Some(end))\n    .find(|sp| !all_constraints.iter().any(|c| !c.check_complete(sp)))"),
    ("m4-astar-loop", "same", [], AST, "    iter::iter_best::best_iter_from(\n        graph,\n        |dg, path| g(dg, path) + h(dg, path), // f = g + h\n        start,\n    )\n    .find(|sp| sp.path.last().map(|x| *x) == Some(end))", "    let f = |dg: &DirectedGraph, path: &Path| g(dg, path) + h(dg, path);\n    for sp in iter::iter_best::best_iter_from(graph, f, start) {\n        if sp.path.last().map(|x| *x) == Some(end) {\n            return Some(sp);\n        }\n    }\n    None"),
    ("m4-astar-weight", "same", [], AST, "    use std::convert::TryInto;\n    (path.size() - 1).try_into().unwrap()", "    path.size() as i64 - 1"),
    ("m4-astar-weight-edges", "same", [], AST, "    use std::convert::TryInto;\n    (path.size() - 1).try_into().unwrap()", "    path.to_edge_list().count() as i64"),
    ("m4-best-continue", "same", [], IBE, "            if self.visited.insert(*vid) {\n", "            if !self.visited.contains(vid) {\n                self.visited.insert(*vid);\n"),
    ("m4-best-onepath", "same", [], IBE, "                            let new_scored_path = ScoredPath {\n                                path: weighted_path.path.append(*v),\n                                score: (self.scorefn)(self.graph, &new_path),\n                            };\n                            self.queue.push(new_scored_path)", "                            let score = (self.scorefn)(self.graph, &new_path);\n                            self.queue.push(ScoredPath { path: new_path, score })"),
    ("m4-bc-if-let", "same", [], IBC, """        match self.queue.pop() {
            None => None,
            Some(weighted_path) => {
                let vid = weighted_path.path.last().unwrap();
                self.graph
                    .outbound_edges(*vid)
                    .map(|Edge(_, v)| v)
                    .for_each(|v| {
                        let new_path = weighted_path.path.append(*v);
                        let new_scored_path = ScoredPath {
                            path: weighted_path.path.append(*v),
                            score: (self.scorefn)(self.graph, &new_path),
                        };
                        // If the newly generated partial path is still a good candidate
                        // to satisfy all constraints, we put it in the queue
                        if check_all_partial_constraints(&new_scored_path, &self.constraints) {
                            self.queue.push(new_scored_path)
                        }
                    });
                Some(weighted_path)
            }
        }""", """        let weighted_path = self.queue.pop()?;
        let vid = *weighted_path.path.last().unwrap();
        for Edge(_, v) in self.graph.outbound_edges(vid) {
            let path = weighted_path.path.append(*v);
            let score = (self.scorefn)(self.graph, &path);
            let candidate = ScoredPath { path, score };
            if check_all_partial_constraints(&candidate, &self.constraints) {
                self.queue.push(candidate)
            }
        }
        Some(weighted_path)"""),
    ("m4-bfs-insert", "same", [], IB, "                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);\n                            self.queue.push(*v)\n", "                        if self.visited.insert(*v) {\n                            self.queue.push(*v)\n"),
    ("m4-bfs-collect", "same", [], IB, """                self.graph
                    .outbound_edges(vid)
                    .map(|Edge(_, v)| v)
                    .for_each(|v| {
                        if !self.visited.contains(v) {
                            self.visited.insert(*v);
                            self.queue.push(*v)
                        }
                    });
                Some(vid)""", """                let children: Vec<VertexId> = self.graph.outbound_edges(vid).map(|Edge(_, v)| *v).collect();
                for v in children {
                    if !self.visited.contains(&v) {
                        self.visited.insert(v);
                        self.queue.push(v)
                    }
                }
                Some(vid)"""),
    ("m4-bfs-map", "same", [], IB, "    match graph.head_option() {\n        None => empty_bfs_iter(graph),\n        Some(head) => bfs_iter_from(graph, *head),\n    }", "    graph\n        .head_option()\n        .map_or_else(|| empty_bfs_iter(graph), |head| bfs_iter_from(graph, *head))"),
    ("m4-bfs-struct", "same", [], IB, "    let mut iter = empty_bfs_iter(graph);\n    iter.queue.push(start_vertex);\n    iter.visited.insert(start_vertex);\n    iter", "    let mut queue = Queue::<VertexId>::new();\n    queue.push(start_vertex);\n    let visited: HashSet<VertexId> = std::iter::once(start_vertex).collect();\n    BreadthFirstIter { queue, visited, graph }"),
    ("m4-dfs-btree", "same", [], ID, "use std::collections::HashSet;", "use std::collections::BTreeSet;", ID, "    visited: HashSet<VertexId>,", "    visited: BTreeSet<VertexId>,", ID, "        visited: HashSet::new(),", "        visited: BTreeSet::new(),"),
    ("m4-dfs-filter", "same", [], ID, """                    .for_each(|v| {
                        if !path.contains_vertex(v) {
                            self.stack.push(path.append(*v));
                        }
                    });""", """                    .filter(|v| !path.contains_vertex(v))
                    .map(|v| path.append(*v))
                    .for_each(|p| self.stack.push(p));"""),
    ("m4-cyc-let", "same", [], ICY, """            match extract_canonical_cycle_from_last(&path) {
                Some(cycle) if !self.returned.contains(&cycle) => {
                    self.returned.insert(cycle.clone());
                    return Some(cycle);
                }
                // Cycle has already been pushed into the iterator
                Some(_) => (),
                None => {
                    let last = path.last().unwrap();
                    self.graph
                        .outbound_edges(*last)
                        .map(|Edge(_, v)| v)
                        .for_each(|v| self.stack.push(path.append(*v)));
                }
            }""", """            if let Some(cycle) = extract_canonical_cycle_from_last(&path) {
                if self.returned.contains(&cycle) {
                    // Cycle has already been pushed into the iterator
                    continue;
                }
                self.returned.insert(cycle.clone());
                return Some(cycle);
            }
            let last = *path.last().unwrap();
            for Edge(_, v) in self.graph.outbound_edges(last) {
                self.stack.push(path.append(*v));
            }"""),
    ("m4-cyc-degree", "same", [], ICY, "        .filter(|vid| graph.inbound_edges(**vid).count() == 0)", "        .filter(|vid| graph.inbound_edges(**vid).next().is_none())"),
    ("m4-cyc-position", "same", [], ICY, "                .rposition(|x| x == last)", "                .position(|x| x == last)"),
    ("m4-cyc-canon-key", "same", [], ICY, "            .min_by(|x, y| x.1.cmp(y.1))", "            .min_by_key(|(_, vid)| **vid)"),
    ("m4-cyc-canon-split", "same", [], ICY, "        let mut min_first = self.vertices.clone();\n        min_first.rotate_left(min_position);\n", "        let (head, tail) = self.vertices.split_at(min_position);\n        let mut min_first = tail.to_vec();\n        min_first.extend_from_slice(head);\n"),
    ("m4-cyc-is-canon", "same", [], ICY, "        self.vertices.first() == Some(min_vid)", "        self.vertices[0] == *min_vid"),
    ("m4-ham-loop", "same", [], HAM, "    iter_hamiltonian_paths(graph).next()", "    iter_hamiltonian_paths(graph).find(|_| true)"),
    ("m4-ham-contains", "same", [], HAM, "    graph.is_empty() || first_path(graph).is_some()", "    if graph.is_empty() {\n        return true;\n    }\n    iter_hamiltonian_paths(graph).any(|_| true)"),
    ("m4-girth", "same", [], CYC, "    iter_cycle::cycle_iter(graph).map(|c| c.len()).min()", "    shortest(graph).map(|c| c.len())"),
    ("m4-stack-vec", "same", [], DS, "pub struct Stack<T> {\n    stack: LinkedList<T>,", "pub struct Stack<T> {\n    stack: Vec<T>,", DS, "        Stack {\n            stack: LinkedList::new(),", "        Stack {\n            stack: Vec::new(),", DS, "        self.stack.push_back(elt)", "        self.stack.push(elt)", DS, "        self.stack.pop_back()", "        self.stack.pop()"),
    ("m4-minpq", "same", [], DS, "        self.priority_queue.pop().map(|Reverse(x)| x)", "        let Reverse(smallest) = self.priority_queue.pop()?;\n        Some(smallest)"),
    ("m4-attr-if", "same", [], ATC, "            AddVertexAttr(v, value) => mapping.add(v, value),\n            RemoveVertexAttr(v) => mapping.remove(&v),\n            _ => false,", "            RemoveVertexAttr(v) => mapping.remove(&v),\n            AddVertexAttr(v, value) => mapping.add(v, value),\n            AddEdgeAttr(..) | RemoveEdgeAttr(..) => false,"),
    ("m4-attr-into", "same", [], ATC, "        for c in commands {\n            AttributeCommand::<V>::apply_edge_command_to(c, mapping);\n        }", "        commands.into_iter().for_each(|c| {\n            AttributeCommand::<V>::apply_edge_command_to(c, mapping);\n        });"),
    ("m4-attr-contains", "same", [], MAP, "        self.mapping.remove(e).is_some()", "        if self.mapping.contains_key(e) {\n            self.mapping.remove(e);\n            true\n        } else {\n            false\n        }"),
    ("m4-parse-collect", "same", [], AU, """    let mut res = vec![];
    for id in ids {
        match parse_vertex_id(id) {
            Some(id) => res.push(VertexId(id)),
            None => return None,
        };
    }
    Some(res)
}

pub fn parse_edge_list""", """    ids.into_iter()
        .map(|id| parse_vertex_id(id).map(VertexId))
        .collect()
}

pub fn parse_edge_list"""),
    ("m4-tuple-chunks", "same", [], AU, """        let mut res = vec![];
        for i in (0..vids.len()).step_by(2) {
            res.push((vids[i], vids[i + 1]));
        }
        Some(res)""", """        Some(vids.chunks(2).map(|pair| (pair[0], pair[1])).collect())"""),
    ("m4-include-loop", "same", [], AU, "    ids.iter().map(|c| ContainsVertex(*c)).collect()", "    let mut res = Vec::with_capacity(ids.len());\n    for id in ids {\n        res.push(ContainsVertex(id));\n    }\n    res"),
    ("m4-include-into", "same", [], AU, "    ids.iter().map(|c| ContainsVertex(*c)).collect()", "    ids.into_iter().map(ContainsVertex).collect()"),
    ("m4-option-if", "same", [], AU, "    match flag {\n        false => None,\n        true => Some(thunk()),\n    }", "    if flag {\n        Some(thunk())\n    } else {\n        None\n    }"),
    ("m4-confirm-matches", "same", [], AU, '    match buffer.to_string().trim().as_ref() {\n        "yes" | "y" => true,\n        "no" | _ => false,\n    }', '    let answer = buffer.trim();\n    answer == "yes" || answer == "y"'),
    ("m4-cycle-extend", "same", [], BY, """    for c in constraint_include_all.unwrap_or(vec![]) {
        constraints.push(c);
    }
    for c in constraint_exclude_all.unwrap_or(vec![]) {
        constraints.push(c);
    }""", """    constraints.extend(constraint_include_all.unwrap_or_default());
    constraints.extend(constraint_exclude_all.into_iter().flatten());"""),
    ("m4-cycle-if-some", "same", [], BY, "    for c in constraint_min_length {\n        constraints.push(c);\n    }\n    for c in constraint_max_length {\n        constraints.push(c);\n    }", "    if let Some(c) = constraint_min_length {\n        constraints.push(c);\n    }\n    constraints.extend(constraint_max_length);"),
    ("m4-cycle-check-any", "same", [], BY, """    constraints.iter().all(|c| match c {
        Constraint::MinLength(_) | Constraint::MaxLength(_) => c.check_complete(&scored_path),
        _ => c.check_complete(&closed_scored_path),
    })""", """    for c in constraints {
        let candidate = match c {
            Constraint::MinLength(_) | Constraint::MaxLength(_) => &scored_path,
            _ => &closed_scored_path,
        };
        if !c.check_complete(candidate) {
            return false;
        }
    }
    true"""),
    ("m4-cycle-take", "same", [], BY, '    } else if let Some(n) = take_n {\n        iterator\n            .take(n)\n            .for_each(|c| println!("{}", format_cycle(&c)));\n    } else if take_all {\n        iterator.for_each(|c| println!("{}", format_cycle(&c)));\n    }', '    } else if let Some(n) = take_n {\n        for c in iterator.take(n) {\n            println!("{}", format_cycle(&c));\n        }\n    } else if take_all {\n        for c in iterator {\n            println!("{}", format_cycle(&c));\n        }\n    }'),
    ("m4-cycle-match", "same", [], BY, '    let take_n = if args.is_present("head") {\n        Some(1)\n    } else {\n        args.value_of("take-n")\n            .map(|x| x.parse::<usize>().expect("Invalid number"))\n    };', '    let take_n = match (args.is_present("head"), args.value_of("take-n")) {\n        (true, _) => Some(1),\n        (false, Some(x)) => Some(x.parse::<usize>().expect("Invalid number")),\n        (false, None) => None,\n    };'),
    ("m4-cycle-fmt", "same", [], BY, "    match cycle {\n        Some(c) => format_cycle(c),\n        None => \"N/A\".to_string(),\n    }", "    cycle.map(format_cycle).unwrap_or(\"N/A\".to_string())"),
    ("m4-cycle-number", "same", [], BY, '    let min_length = args\n        .value_of("min-length")\n        .map(|x| x.parse::<usize>().expect("Invalid number"))\n        .map(arg_utils::build_constraint_min_length);\n', '    let number = |name: &str| args.value_of(name).map(|x| x.parse::<usize>().expect("Invalid number"));\n    let min_length = number("min-length").map(arg_utils::build_constraint_min_length);\n'),
    ("m4-csp-vertex", "same", [], BC, '    let start_vertex = args\n        .value_of("start")\n        .and_then(arg_utils::parse_vertex_id)\n        .map(|id| VertexId(id))\n        .unwrap();\n    let end_vertex = args\n        .value_of("end")\n        .and_then(arg_utils::parse_vertex_id)\n        .map(|id| VertexId(id))\n        .unwrap();', '    let vertex = |name: &str| {\n        VertexId(args.value_of(name).and_then(arg_utils::parse_vertex_id).expect("Invalid vertex id"))\n    };\n    let (start_vertex, end_vertex) = (vertex("start"), vertex("end"));'),
    ("m4-csp-load-first", "same", [], BC, '    let graph = graph_utils::load_graph(path).expect("Couldn\'t load graph");\n\n', '', BC, '    let path = args.value_of("path").unwrap();\n', '    let path = args.value_of("path").unwrap();\n    let graph = graph_utils::load_graph(path).expect("Couldn\'t load graph");\n'),
    ("m4-csp-chain", "same", [], BC, """    for c in constraint_include.unwrap_or(vec![]) {
        constraints.push(c);
    }
    for c in constraint_exclude.unwrap_or(vec![]) {
        constraints.push(c);
    }
    for c in constraint_ordered {
        constraints.push(c);
    }""", """    constraints.extend(
        constraint_include
            .unwrap_or(vec![])
            .into_iter()
            .chain(constraint_exclude.unwrap_or(vec![]))
            .chain(constraint_ordered),
    );"""),
    ("m4-csp-print", "same", [], BC, "            for vertex in shortest.to_vertex_list() {\n                println!(\"{}\", vertex.0);\n            }", "            shortest\n                .to_vertex_list()\n                .for_each(|VertexId(id)| println!(\"{}\", id));"),
    ("m4-csp-if-let", "same", [], BC, """    match shortest_path_with_constraints(&graph, start_vertex, end_vertex, constraints) {
        Some(ScoredPath {
            score,
            path: shortest,
        }) => {""", """    let found = shortest_path_with_constraints(&graph, start_vertex, end_vertex, constraints);
    match found.map(|sp| (sp.score, sp.path)) {
        Some((score, shortest)) => {"""),
    ("m4-csp-flag", "same", [], BC, "    let no_cycle = arg_utils::option_of(args.is_present(\"no-cycle\"),\n        || arg_utils::build_constraint_no_cycle());", "    let no_cycle = if args.is_present(\"no-cycle\") {\n        Some(arg_utils::build_constraint_no_cycle())\n    } else {\n        None\n    };"),
    ("m4-flow-loop", "same", [], MFL, "    while let Some((path, residual_cap)) = find_augmenting_path(&graph, &current_flow, start, end) {\n        update_flow(&mut current_flow, path, residual_cap);\n        max_flow = max_flow + residual_cap;\n    }", "    loop {\n        match find_augmenting_path(&graph, &current_flow, start, end) {\n            Some((path, residual_cap)) => {\n                max_flow += residual_cap;\n                update_flow(&mut current_flow, path, residual_cap);\n            }\n            None => break,\n        }\n    }"),
    ("m4-flow-collect", "same", [], MFL, "    let mut current_flow: HashMap<Edge, (Flow, Capacity)> = HashMap::new();\n    for edge in graph.edges() {\n        current_flow.insert(*edge, (0, capacity(edge)));\n    }\n", "    let mut current_flow: HashMap<Edge, (Flow, Capacity)> = graph\n        .edges()\n        .map(|edge| (*edge, (0, capacity(edge))))\n        .collect();\n"),
    ("m4-flow-sat", "same", [], MFL, "            *cap - *flow\n", "            cap.saturating_sub(*flow)\n"),
    ("m4-topo-retain", "same", [], TS, "        children.retain(|x| !removed_edges.contains(x));\n", ""),
    ("m4-topo-vecdeque", "same", [], TS, "use std::collections::LinkedList;", "use std::collections::VecDeque;", TS, "    let mut start_vertices: LinkedList<VertexId> = find_start_vertices(graph).collect();", "    let mut start_vertices: VecDeque<VertexId> = find_start_vertices(graph).collect();"),
    ("m4-topo-then", "same", [], TS, "    if is_dag(graph) {\n        Some(DAG { graph })\n    } else {\n        None\n    }", "    match topological_sort(graph) {\n        Some(_) => Some(DAG { graph }),\n        None => None,\n    }"),
    ("m4-dag-entry", "same", [], SHP, """                if let Some(current_score) = scores.get(w).map(|x| x.score) {
                    // we found a shorter path to w => we update
                    if new_score < current_score {
                        let new_path = path.append(*w);
                        scores.insert(*w, scored_path_of(new_path, new_score));
                    }
                } else {
                    let new_path = path.append(*w);
                    scores.insert(*w, scored_path_of(new_path, new_score));
                };""", """                let shorter = match scores.get(w) {
                    Some(current) => new_score < current.score,
                    None => true,
                };
                if shorter {
                    let new_path = path.append(*w);
                    scores.insert(*w, scored_path_of(new_path, new_score));
                }"""),
    ("m4-long-iter", "same", [], LOP, "fn negate_scores(mut scores: HashMap<VertexId, ScoredPath>) -> HashMap<VertexId, ScoredPath> {\n    for (_, sp) in &mut scores {\n        sp.score = -1 * sp.score;\n    }\n    scores", "fn negate_scores(scores: HashMap<VertexId, ScoredPath>) -> HashMap<VertexId, ScoredPath> {\n    scores\n        .into_iter()\n        .map(|(vid, sp)| (vid, ScoredPath { score: -sp.score, path: sp.path }))\n        .collect()"),
    # batch 5: the same rewriting, right and wrong
    # representation changes
    ("m5-graph-count", "same", [], DGF, "    edge_map: HashMap<VertexId, Vec<Edge>>,\n}", "    edge_map: HashMap<VertexId, Vec<Edge>>,\n    size: usize,\n}", DGF, "            edge_map: HashMap::new(),\n", "            edge_map: HashMap::new(),\n            size: 0,\n",
     DGF, "        self.edges().count()\n", "        self.size\n", DGF, "            self.edge_map.get_mut(&v1).unwrap().push(edge);\n", "            self.size += 1;\n            self.edge_map.get_mut(&v1).unwrap().push(edge);\n",
     DGF, "        let Edge(src, dst) = edge;\n        self.edge_map\n", "        let Edge(src, dst) = edge;\n        if self.contains_edge(edge) {\n            self.size -= 1;\n        }\n        self.edge_map\n",
     DGF, "        // Removing all edges containing the vertex\n        self.edge_map.remove(&vertex_id);\n        edges.iter().for_each(|e| {\n            self.remove_edge(*e);\n        });\n", "        edges.iter().for_each(|e| {\n            self.remove_edge(*e);\n        });\n        self.edge_map.remove(&vertex_id);\n"),
    ("n5-graph-count", "bug", ["C16", "C17"], DGF, "    edge_map: HashMap<VertexId, Vec<Edge>>,\n}", "    edge_map: HashMap<VertexId, Vec<Edge>>,\n    size: usize,\n}", DGF, "            edge_map: HashMap::new(),\n", "            edge_map: HashMap::new(),\n            size: 0,\n",
     DGF, "        self.edges().count()\n", "        self.size\n", DGF, "            self.edge_map.get_mut(&v1).unwrap().push(edge);\n", "            self.size += 1;\n            self.edge_map.get_mut(&v1).unwrap().push(edge);\n",
     DGF, "        let Edge(src, dst) = edge;\n        self.edge_map\n", "        let Edge(src, dst) = edge;\n        if self.contains_edge(edge) {\n            self.size -= 1;\n        }\n        self.edge_map\n"),
    ("n5-graph-count-remove", "bug", ["C16", "C17"], DGF, "    edge_map: HashMap<VertexId, Vec<Edge>>,\n}", "    edge_map: HashMap<VertexId, Vec<Edge>>,\n    size: usize,\n}", DGF, "            edge_map: HashMap::new(),\n", "            edge_map: HashMap::new(),\n            size: 0,\n",
     DGF, "        self.edges().count()\n", "        self.size\n", DGF, "            self.edge_map.get_mut(&v1).unwrap().push(edge);\n", "            self.size += 1;\n            self.edge_map.get_mut(&v1).unwrap().push(edge);\n",
     DGF, "        let Edge(src, dst) = edge;\n        self.edge_map\n", "        let Edge(src, dst) = edge;\n        if self.size > 0 {\n            self.size -= 1;\n        }\n        self.edge_map\n"),
    ("m5-graph-btree", "same", [], DGF, "use std::collections::HashMap;", "use std::collections::BTreeMap as HashMap;"),
    ("m5-visited-vec", "same", [], IB, "use std::collections::HashSet;", "use std::collections::BTreeSet as HashSet;"),
    ("m5-best-closed", "same", [], IBE, "            let vid = weighted_path.path.last().unwrap();\n", "            let vid = match weighted_path.path.last() {\n                Some(vid) => vid,\n                None => continue,\n            };\n"),
    # early outs and caps
    ("n5-contains-edge-rev", "bug", ["C17"], DGF, "                .position(|x| *x == edge)\n                .is_some()", "                .any(|x| x.0 == v1 && x.1 >= v2 && x.1 <= v2 || x.0 == v2 && x.1 == v1 && v1 < v2)"),
    ("m5-contains-edge-any", "same", [], DGF, "                .position(|x| *x == edge)\n                .is_some()", "                .any(|x| x.0 == v1 && x.1 == v2)"),
    ("n5-remove-swap", "bug", ["C16"], DGF, "            .get_mut(&dst)\n            .map(|edges| edges.retain(|e| *e != edge));", "            .get_mut(&dst)\n            .map(|edges| {\n                if let Some(i) = edges.iter().position(|e| e.1 == dst) {\n                    edges.swap_remove(i);\n                }\n            });"),
    ("m5-remove-swap", "same", [], DGF, "            .get_mut(&dst)\n            .map(|edges| edges.retain(|e| *e != edge));", "            .get_mut(&dst)\n            .map(|edges| {\n                if let Some(i) = edges.iter().position(|e| *e == edge) {\n                    edges.swap_remove(i);\n                }\n            });"),
    ("n5-edges-sorted", "bug", ["C17"], DGF, "                    .filter(move |Edge(from, _)| *vertex_id == *from)\n            })\n            .flatten()", "                    .filter(move |Edge(from, to)| *vertex_id == *from || *vertex_id == *to && *to < *from)\n            })\n            .flatten()"),
    ("n5-remove-vertex-drain", "bug", ["C16"], DGF, "        edges.iter().for_each(|e| {\n            self.remove_edge(*e);\n        });\n        found", "        for e in edges.iter().filter(|e| e.0 == vertex_id) {\n            if let Some(others) = self.edge_map.get_mut(&e.1) {\n                others.retain(|x| x != e);\n            }\n        }\n        for e in edges.iter().filter(|e| e.1 == vertex_id) {\n            if let Some(others) = self.edge_map.get_mut(&e.0) {\n                others.retain(|x| x.1 != vertex_id && x.0 != vertex_id || x.0 == x.1);\n                if others.is_empty() {\n                    self.edge_map.remove(&e.0);\n                }\n            }\n        }\n        found"),
    ("m5-remove-vertex-drain", "same", [], DGF, "        edges.iter().for_each(|e| {\n            self.remove_edge(*e);\n        });\n        found", "        for e in edges.iter() {\n            let other = if e.0 == vertex_id { e.1 } else { e.0 };\n            if let Some(others) = self.edge_map.get_mut(&other) {\n                others.retain(|x| x != e);\n            }\n        }\n        found"),
    # formats
    ("n5-parse-hex", "bug", ["C09", "C11"], UT, "    id.parse::<u64>()\n", "    id.trim_start_matches('0').parse::<u64>()\n"),
    ("m5-parse-id", "same", [], UT, "    id.parse::<u64>()\n        .map(VertexId)\n        .map_err(|err| format![\"Invalid vertex id '{}': {}\", id, err])", "    match id.parse::<u64>() {\n        Ok(n) => Ok(VertexId(n)),\n        Err(err) => Err(format![\"Invalid vertex id '{}': {}\", id, err]),\n    }"),
    ("n5-parse-wrap", "bug", ["C09", "C11"], UT, "    id.parse::<u64>()\n        .map(VertexId)\n", "    id.parse::<i64>()\n        .map(|n| VertexId(n as u64))\n"),
    ("n5-parse-float", "bug", ["C09", "C11"], UT, "    id.parse::<u64>()\n        .map(VertexId)\n", "    id.parse::<f64>()\n        .map(|n| VertexId(n as u64))\n"),
    ("n5-read-trim-end", "bug", ["C11"], UT, "        if !line.is_empty() && !is_comment(&line) {", "        let line = line.trim_end_matches(|c: char| !c.is_ascii_digit()).to_string();\n        if !line.is_empty() && !is_comment(&line) {"),
    ("n5-read-split-hash", "bug", ["C11"], UT, "            match parse_line(&line) {", "            match parse_line(line.split(\" #\").next().unwrap_or(&line)) {"),
    ("n5-read-index", "bug", ["C11"], UT, "    for (index, line) in reader.lines().enumerate() {\n        let line = line.map_err(|err| format![\"Error at line {}: {}\", index + 1, err])?;\n        if !line.is_empty() && !is_comment(&line) {", "    for (index, line) in reader\n        .lines()\n        .filter(|l| l.as_ref().map(|l| !l.is_empty()).unwrap_or(true))\n        .enumerate()\n    {\n        let line = line.map_err(|err| format![\"Error at line {}: {}\", index + 1, err])?;\n        if !is_comment(&line) {"),
    ("m5-read-filter", "same", [], UT, "    for (index, line) in reader.lines().enumerate() {\n        let line = line.map_err(|err| format![\"Error at line {}: {}\", index + 1, err])?;\n        if !line.is_empty() && !is_comment(&line) {", "    for (index, line) in reader\n        .lines()\n        .enumerate()\n        .filter(|(_, l)| l.as_ref().map(|l| !l.is_empty()).unwrap_or(true))\n    {\n        let line = line.map_err(|err| format![\"Error at line {}: {}\", index + 1, err])?;\n        if !is_comment(&line) {"),
    ("n5-read-utf8", "bug", ["C11", "C12"], UT, "        let line = line.map_err(|err| format![\"Error at line {}: {}\", index + 1, err])?;\n", "        let line = match line {\n            Ok(line) => line,\n            Err(ref err) if err.kind() == std::io::ErrorKind::InvalidData => continue,\n            Err(err) => return Err(format![\"Error at line {}: {}\", index + 1, err]),\n        };\n"),
    ("n5-read-dedup", "bug", ["C12", "C09"], UT, "                Ok(command) => result.push(command),", "                Ok(command) => {\n                    if result.last() != Some(&command) {\n                        result.push(command)\n                    } else {\n                        result.pop();\n                        result.push(command)\n                    }\n                    if result.len() > 2 && result[result.len() - 3] == command {\n                        result.remove(0);\n                    }\n                }"),
    ("n5-read-cancel", "bug", ["C12", "C11"], UT, "                Ok(command) => result.push(command),", "                Ok(command) => match result.last() {\n                    Some(previous) if GraphCommand::revert(*previous) == command => {\n                        result.pop();\n                    }\n                    _ => result.push(command),\n                },"),
    ("n5-read-comment-only", "bug", ["C11"], GCMD, "    line.trim().starts_with(\"#\")", "    line.contains('#')"),
    ("n5-tgf-comment", "bug", ["C11", "C10"], TGF, "    line.trim().starts_with(\"#\")", "    line.trim_start_matches(|c: char| c.is_ascii_digit()).starts_with(\"#\")"),
    ("m5-tgf-save-implied", "same", [], TGF, "        writeln!(buffered, \"{}\", vertex_id)?;", "        if graph.degree_out(*vertex) == 0 {\n            writeln!(buffered, \"{}\", vertex_id)?;\n        }"),
    ("n5-tgf-save-isolated", "bug", ["C10"], TGF, "        writeln!(buffered, \"{}\", vertex_id)?;", "        if graph.outbound_edges(*vertex).chain(graph.inbound_edges(*vertex)).all(|Edge(a, b)| a == b) {\n            continue;\n        }\n        writeln!(buffered, \"{}\", vertex_id)?;"),
    ("m5-gcmd-save-isolated", "same", [], GCMD, "        writeln![buffered, \"AddVertex {}\", vertex_id]?;", "        buffered.write_all(format![\"AddVertex {}\\n\", vertex_id].as_bytes())?;"),
    ("n5-gcmd-write", "bug", ["C08"], GCMD, "        writeln![buffered, \"AddVertex {}\", vertex_id]?;", "        buffered.write(format![\"AddVertex {}\\n\", vertex_id].as_bytes())?;"),
    ("n5-gcmd-width", "bug", ["C09"], GCMD, "        AddEdge(VertexId(src), VertexId(dest)) => format![\"AddEdge {} {}\", src, dest],", "        AddEdge(VertexId(src), VertexId(dest)) => format![\"AddEdge {:>3} {}\", src, dest],"),
    ("m5-gcmd-commands-text", "same", [], GCMD, "        let line = command_into_line(command);\n        writeln![buffered, \"{}\", line]?;\n    }\n    buffered.flush()", "        let line = command_into_line(command);\n        lines.push(line);\n    }\n    writeln![buffered, \"{}\", lines.join(\"\\n\")]?;\n    buffered.flush()", GCMD, "    let file = OpenOptions::new().write(true).append(true).open(filename)?;\n", "    let mut lines: Vec<String> = vec![];\n    let file = OpenOptions::new().write(true).append(true).open(filename)?;\n"),
    ("n5-gcmd-unlocked-order", "bug", ["C09", "C46"], GCMD, "    for command in commands {\n        let line", "    for command in commands.into_iter().rev() {\n        let line"),
    # graph commands
    ("n5-apply-fold", "bug", ["C39", "C12"], GCM, "        for command in commands.iter() {\n            command.apply_to(graph);\n        }", "        let (adds, removes): (Vec<GraphCommand>, Vec<GraphCommand>) = commands.into_iter().partition(|c| match c {\n            GraphCommand::AddVertex(_) | GraphCommand::AddEdge(_, _) => true,\n            _ => false,\n        });\n        for command in adds.iter().chain(removes.iter()) {\n            command.apply_to(graph);\n        }"),
    ("n5-apply-skip-last", "bug", ["C39"], GCM, "        for command in commands.iter() {\n            command.apply_to(graph);\n        }", "        for pair in commands.chunks_exact(2) {\n            pair.iter().for_each(|c| c.apply_to(graph));\n        }\n        if commands.len() % 2 == 1 && commands.len() > 1 {\n            commands[commands.len() - 1].apply_to(graph);\n        } else if commands.len() == 1 {\n            if let GraphCommand::AddVertex(_) | GraphCommand::AddEdge(_, _) = commands[0] {\n                commands[0].apply_to(graph);\n            }\n        }"),
    ("m5-apply-chunks", "same", [], GCM, "        for command in commands.iter() {\n            command.apply_to(graph);\n        }", "        for pair in commands.chunks(2) {\n            pair.iter().for_each(|c| c.apply_to(graph));\n        }"),
    ("n5-apply-removevertex-missing", "bug", ["C39", "C12"], GCM, "            RemoveEdge(v1, v2) => {\n                graph.remove_edge(Edge(*v1, *v2));", "            RemoveEdge(v1, v2) => {\n                if graph.degree_out(*v1) > 1 || graph.degree_in(*v2) == 1 {\n                    graph.remove_edge(Edge(*v1, *v2));\n                }"),
    ("m5-as-commands-implied", "same", [], GCM, "            res.push(AddEdge(v1, v2))\n        }\n        res", "            res.push(AddEdge(v1, v2))\n        }\n        res.retain(|c| match c {\n            AddVertex(v) => graph.degree_in(*v) == 0 || graph.degree_out(*v) == 0,\n            _ => true,\n        });\n        res"),
    ("n5-as-commands-bug", "bug", ["C39"], GCM, "            res.push(AddEdge(v1, v2))\n        }\n        res", "            if res.last() != Some(&AddEdge(v2, v1)) {\n                res.push(AddEdge(v1, v2))\n            }\n        }\n        res"),
    # path
    ("n5-path-cycle-sorted", "bug", ["C40"], PATH, "        let mut set = std::collections::HashSet::<&VertexId>::new();\n        for vid in &self.vertices {\n            if set.contains(vid) {\n                return true;\n            }\n            set.insert(vid);\n        }\n        return false;", "        let mut sorted = self.vertices.clone();\n        sorted.dedup();\n        sorted.sort();\n        sorted.windows(2).any(|w| w[0] == w[1])"),
    ("m5-path-cycle-sorted", "same", [], PATH, "        let mut set = std::collections::HashSet::<&VertexId>::new();\n        for vid in &self.vertices {\n            if set.contains(vid) {\n                return true;\n            }\n            set.insert(vid);\n        }\n        return false;", "        let mut sorted = self.vertices.clone();\n        sorted.sort();\n        sorted.windows(2).any(|w| w[0] == w[1])"),
    ("m5-path-cycle-dedup", "same", [], PATH, "        let mut set = std::collections::HashSet::<&VertexId>::new();\n        for vid in &self.vertices {\n            if set.contains(vid) {\n                return true;\n            }\n            set.insert(vid);\n        }\n        return false;", "        let mut sorted = self.vertices.clone();\n        sorted.sort();\n        sorted.dedup();\n        sorted.len() < self.vertices.len()"),
    ("n5-path-cycle-firstlast", "bug", ["C40"], PATH, "        let mut set = std::collections::HashSet::<&VertexId>::new();\n        for vid in &self.vertices {\n            if set.contains(vid) {\n                return true;\n            }\n            set.insert(vid);\n        }\n        return false;", "        self.vertices\n            .iter()\n            .enumerate()\n            .any(|(i, v)| self.vertices[i + 1..].iter().skip(1).any(|w| w == v))"),
    ("m5-path-cycle-nested", "same", [], PATH, "        let mut set = std::collections::HashSet::<&VertexId>::new();\n        for vid in &self.vertices {\n            if set.contains(vid) {\n                return true;\n            }\n            set.insert(vid);\n        }\n        return false;", "        self.vertices\n            .iter()\n            .enumerate()\n            .any(|(i, v)| self.vertices[i + 1..].contains(v))"),
    ("n5-path-binary", "bug", ["C40"], PATH, "        self.vertices.contains(vertex)", "        self.vertices.binary_search(vertex).is_ok()"),
    ("n5-path-edge-pos", "bug", ["C40"], PATH, "        self.to_edge_list().find(|e| e == edge).is_some()", "        match (\n            self.vertices.iter().position(|v| *v == edge.0),\n            self.vertices.iter().position(|v| *v == edge.1),\n        ) {\n            (Some(i), Some(j)) => j == i + 1,\n            _ => false,\n        }"),
    ("n5-path-edge-step", "bug", ["C40"], PATH, "        self.vertices\n            .windows(2)\n            .map(|slice| Edge(slice[0], slice[1]))", "        self.vertices\n            .iter()\n            .zip(self.vertices.iter().skip(1))\n            .filter(|(a, b)| a != b)\n            .map(|(a, b)| Edge(*a, *b))"),
    ("m5-path-edge-zip", "same", [], PATH, "        self.vertices\n            .windows(2)\n            .map(|slice| Edge(slice[0], slice[1]))", "        self.vertices\n            .iter()\n            .zip(self.vertices.iter().skip(1))\n            .map(|(a, b)| Edge(*a, *b))"),
    ("m5-path-edge-index", "same", [], PATH, "        self.vertices\n            .windows(2)\n            .map(|slice| Edge(slice[0], slice[1]))", "        (1..self.vertices.len()).map(move |i| Edge(self.vertices[i - 1], self.vertices[i]))"),
    ("n5-path-edge-chunks", "bug", ["C40"], PATH, "        self.vertices\n            .windows(2)\n            .map(|slice| Edge(slice[0], slice[1]))", "        self.vertices\n            .chunks_exact(2)\n            .chain(self.vertices.get(1..).unwrap_or(&[]).chunks_exact(2))\n            .map(|slice| Edge(slice[0], slice[1]))"),
    ("n5-path-ord", "bug", ["C40"], PATH, "        self.score.cmp(&other.score)\n", "        (self.score as i32).cmp(&(other.score as i32))\n"),
    ("n5-path-ord-sub", "bug", ["C40"], PATH, "        self.score.cmp(&other.score)\n", "        self.score.wrapping_sub(other.score).cmp(&0)\n"),
    ("n5-path-pord", "bug", ["C40"], PATH, "        self.score.partial_cmp(&other.score)\n", "        (self.score as f32).partial_cmp(&(other.score as f32))\n"),
    ("m5-apply-while", "same", [], GCM, "        for command in commands.iter() {\n            command.apply_to(graph);\n        }", "        let mut i = 0;\n        while i < commands.len() {\n            commands[i].apply_to(graph);\n            i += 1;\n        }"),
    ("m5-apply-last", "same", [], GCM, "        for command in commands.iter() {\n            command.apply_to(graph);\n        }", "        for i in 1..commands.len() {\n            commands[i - 1].apply_to(graph);\n        }\n        if !commands.is_empty() {\n            commands[commands.len() - 1].apply_to(graph);\n        }"),
    ("m5-apply-guard", "same", [], GCM, "            RemoveEdge(v1, v2) => {\n                graph.remove_edge(Edge(*v1, *v2));", "            RemoveEdge(v1, v2) => {\n                if graph.contains_edge(Edge(*v1, *v2)) {\n                    graph.remove_edge(Edge(*v1, *v2));\n                }"),
    ("m5-apply-guard-vertex", "same", [], GCM, "            AddVertex(v) => {\n                graph.add_vertex(*v);", "            AddVertex(v) => {\n                if !graph.contains_vertex(*v) {\n                    graph.add_vertex(*v);\n                }"),
    ("m5-gcmd-width", "same", [], GCMD, "        AddEdge(VertexId(src), VertexId(dest)) => format![\"AddEdge {} {}\", src, dest],", "        AddEdge(VertexId(src), VertexId(dest)) => format![\"AddEdge {:<1} {:>3}\", src, dest],"),

    # ---------------------------------------------------------------- sixth batch
    ("m6-withlock-inner", "same", [], GU, "    lock(root_dir)?;\n    let res = block();\n    unlock(root_dir)?;\n    res", "    lock(root_dir)?;\n    let outcome = block();\n    let released = unlock(root_dir);\n    match (outcome, released) {\n        (Ok(value), Ok(())) => Ok(value),\n        (_, Err(err)) => Err(err),\n        (Err(err), Ok(())) => Err(err),\n    }"),
    ("m6-withlock-blockerr", "same", [], GU, "    unlock(root_dir)?;\n    res\n", "    let released = unlock(root_dir);\n    let value = res?;\n    released.map(|_| value)\n"),
    ("n6-withlock-drop", "bug", ["C03", "C08"], GU, "    unlock(root_dir)?;\n    res\n", "    if res.is_ok() {\n        unlock(root_dir)?;\n    }\n    res\n"),
    ("n6-withlock-unlockfirst", "bug", ["C03"], GU, "    let res = block();\n    unlock(root_dir)?;\n    res\n", "    unlock(root_dir)?;\n    let res = block();\n    res\n"),
    ("m6-lock-into", "same", [], GU, "    fs::OpenOptions::new()\n        .create_new(true)\n        .write(true)\n        .open(lock_path(root_dir).as_ref())\n        .map(|_| ())", "    let path = lock_path(root_dir);\n    let mut options = fs::OpenOptions::new();\n    options.write(true);\n    options.create_new(true);\n    match options.open(&path) {\n        Ok(_) => Ok(()),\n        Err(err) => Err(err),\n    }"),
    ("n6-lock-already", "bug", ["C04"], GU, "        .open(lock_path(root_dir).as_ref())\n        .map(|_| ())", "        .open(lock_path(root_dir).as_ref())\n        .map(|_| ())\n        .or_else(|err| match err.kind() {\n            io::ErrorKind::PermissionDenied => Ok(()),\n            _ => Err(err),\n        })"),
    ("m6-cmd-path", "same", [], GU, "    path::Path::new(root_dir)\n        .join(GRAPH_ROOT_DIR)\n        .join(COMMANDS_FILE)\n        .into_boxed_path()", "    root_path(root_dir).join(COMMANDS_FILE).into_boxed_path()"),
    ("m6-cmd-pathbuf", "same", [], GU, "    path::Path::new(root_dir)\n        .join(GRAPH_ROOT_DIR)\n        .join(COMMANDS_FILE)\n        .into_boxed_path()", "    let mut file = path::PathBuf::from(root_dir);\n    file.push(GRAPH_ROOT_DIR);\n    file.push(COMMANDS_FILE);\n    file.into_boxed_path()"),
    ("m6-replace-guard", "same", [], GU, "    gcmd::save(graph, new_path.to_str().expect(\"Invalid path. (UTF-9 ?)\"))?;\n    fs::rename(new_path, command_path)", "    gcmd::save(graph, new_path.to_str().expect(\"Invalid path. (UTF-9 ?)\"))\n        .and_then(|_| fs::rename(&new_path, &command_path))"),
    ("m6-replace-cleanup", "same", [], GU, "    gcmd::save(graph, new_path.to_str().expect(\"Invalid path. (UTF-9 ?)\"))?;\n    fs::rename(new_path, command_path)", "    let written = gcmd::save(graph, new_path.to_str().expect(\"Invalid path. (UTF-9 ?)\"));\n    if let Err(err) = written {\n        return Err(err);\n    }\n    fs::rename(new_path, command_path)"),
    ("n6-rebuild-stale", "bug", ["C13", "C03"], GU, "    with_lock(root_dir, || {\n        let graph = load_graph(root_dir)\n            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;\n        replace_commands(root_dir, &graph)?;\n        Ok(graph)\n    })", "    let graph = load_graph(root_dir)\n        .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;\n    with_lock(root_dir, || {\n        replace_commands(root_dir, &graph)\n    })?;\n    Ok(graph)"),
    ("n6-rebuild-empty", "bug", ["C06", "C46"], GU, "        replace_commands(root_dir, &graph)?;\n        Ok(graph)", "        if graph.edge_count() > 0 || graph.is_empty() {\n            replace_commands(root_dir, &graph)?;\n        } else {\n            replace_commands(root_dir, &DirectedGraph::new())?;\n        }\n        Ok(graph)"),
    ("m6-rebuild-same", "same", [], GU, "        replace_commands(root_dir, &graph)?;\n        Ok(graph)", "        replace_commands(root_dir, &graph).map(|_| graph)"),
    ("m6-addvs-into", "same", [], GU, "    apply_graph_commands(root_dir, vids.iter().map(|vid| AddVertex(*vid)).collect())", "    let mut commands = Vec::with_capacity(vids.len());\n    for vid in vids {\n        commands.push(AddVertex(vid));\n    }\n    apply_graph_commands(root_dir, commands)"),
    ("m6-addv-list", "same", [], GU, "    apply_graph_commands(root_dir, vec![AddVertex(vid)])", "    add_vertices(root_dir, vec![vid])"),
    ("n6-addedges-self", "bug", ["C13"], GU, "            .map(|(src, dest)| AddEdge(*src, *dest))", "            .map(|(src, dest)| if src == dest { AddVertex(*src) } else { AddEdge(*src, *dest) })"),
    ("n6-apply-empty", "same", [], GU, "    with_lock(root_dir, || {\n        let path = command_path(root_dir);", "    if commands.is_empty() && !is_locked(root_dir) && false {\n        return Ok(());\n    }\n    with_lock(root_dir, || {\n        let path = command_path(root_dir);"),
    # algorithms
    ("m6-topo-while", "same", [], TS, "        for edge in children {\n            removed_edges.insert(edge);\n            let Edge(_, dest) = edge;", "        let mut children = children.into_iter();\n        while let Some(edge) = children.next() {\n            removed_edges.insert(edge);\n            let dest = edge.1;"),
    ("m6-topo-any", "same", [], TS, "if graph.inbound_edges(dest).all(|e| removed_edges.contains(e)) {", "if !graph.inbound_edges(dest).any(|e| !removed_edges.contains(e)) {"),
    ("m6-topo-count", "same", [], TS, "if graph.inbound_edges(dest).all(|e| removed_edges.contains(e)) {", "let remaining = graph\n                .inbound_edges(dest)\n                .filter(|e| !removed_edges.contains(e))\n                .count();\n            if remaining == 0 {"),
    ("n6-topo-count", "bug", ["C32"], TS, "if graph.inbound_edges(dest).all(|e| removed_edges.contains(e)) {", "let remaining = graph\n                .inbound_edges(dest)\n                .filter(|e| !removed_edges.contains(e))\n                .take(2)\n                .count();\n            if remaining == 0 || remaining > 2 || (remaining == 2 && graph.contains_edge(Edge(dest, dest))) {"),
    ("m6-topo-len", "same", [], TS, "    if removed_edges.len() != graph.edge_count() {\n        None\n    } else {\n        Some(res)\n    }", "    if res.len() == graph.vertex_count() {\n        Some(res)\n    } else {\n        None\n    }"),
    ("m6-topo-children", "same", [], TS, "        let mut children: Vec<Edge> = graph.outbound_edges(start).map(|x| *x).collect();\n        children.retain(|x| !removed_edges.contains(x));\n        for edge in children {", "        for edge in graph.outbound_edges(start).copied() {"),
    ("m6-topo-isdag", "same", [], TS, "    if is_dag(graph) {\n        Some(DAG { graph })\n    } else {\n        None\n    }", "    topological_sort(graph).map(|_| DAG { graph })"),
    ("m6-topo-start", "same", [], TS, "    graph.inbound_edges(*vid).count() == 0", "    graph.inbound_edges(*vid).next().is_none()"),
    ("m6-topo-extend", "same", [], TS, "    let mut start_vertices: LinkedList<VertexId> = find_start_vertices(graph).collect();", "    let mut start_vertices: LinkedList<VertexId> = LinkedList::new();\n    for vertex in find_start_vertices(graph) {\n        start_vertices.push_back(vertex);\n    }"),
    ("n6-topo-start", "bug", ["C32"], TS, "    graph.inbound_edges(*vid).count() == 0", "    graph.inbound_edges(*vid).filter(|Edge(src, dst)| src != dst || graph.degree_out(*vid) == 1).count() == 0"),
    ("m6-dag-iflet", "same", [], SHP, "                let ScoredPath { path, score } = match scores.get(v) {\n                    Some(scored_path) => scored_path,\n                    None => return,\n                };\n                let Edge(_, w) = edge;\n                let new_score = score + scorefn(&edge);\n                if let Some(current_score) = scores.get(w).map(|x| x.score) {\n                    // we found a shorter path to w => we update\n                    if new_score < current_score {\n                        let new_path = path.append(*w);\n                        scores.insert(*w, scored_path_of(new_path, new_score));\n                    }\n                } else {\n                    let new_path = path.append(*w);\n                    scores.insert(*w, scored_path_of(new_path, new_score));\n                };", "                let found = scores.get(v).map(|from| (from.path.append(edge.1), from.score + scorefn(edge)));\n                if let Some((new_path, new_score)) = found {\n                    let better = match scores.get(&edge.1) {\n                        Some(known) => new_score < known.score,\n                        None => true,\n                    };\n                    if better {\n                        scores.insert(edge.1, scored_path_of(new_path, new_score));\n                    }\n                }"),
    ("m6-dag-mapor", "same", [], SHP, "                if let Some(current_score) = scores.get(w).map(|x| x.score) {\n                    // we found a shorter path to w => we update\n                    if new_score < current_score {\n                        let new_path = path.append(*w);\n                        scores.insert(*w, scored_path_of(new_path, new_score));\n                    }\n                } else {\n                    let new_path = path.append(*w);\n                    scores.insert(*w, scored_path_of(new_path, new_score));\n                };", "                let improves = scores.get(w).map_or(true, |known| new_score < known.score);\n                if improves {\n                    let new_path = path.append(*w);\n                    scores.insert(*w, scored_path_of(new_path, new_score));\n                }"),
    ("n6-dag-mapor", "bug", ["C34"], SHP, "                if let Some(current_score) = scores.get(w).map(|x| x.score) {\n                    // we found a shorter path to w => we update\n                    if new_score < current_score {\n                        let new_path = path.append(*w);\n                        scores.insert(*w, scored_path_of(new_path, new_score));\n                    }\n                } else {\n                    let new_path = path.append(*w);\n                    scores.insert(*w, scored_path_of(new_path, new_score));\n                };", "                let improves = scores.get(w).map_or(true, |known| new_score < known.score || known.score < 0 && new_score > 1000);\n                if improves {\n                    let new_path = path.append(*w);\n                    scores.insert(*w, scored_path_of(new_path, new_score));\n                }"),
    ("n6-dag-skip", "bug", ["C34"], SHP, "        .skip_while(|v| **v != start)\n", "        .skip_while(|v| **v != start)\n        .take(graph.edge_count() + 1)\n"),
    ("m6-dag-position", "same", [], SHP, "    topo_order\n        .iter()\n        .skip_while(|v| **v != start)\n        .for_each(|v| {", "    let begin = topo_order.iter().position(|v| *v == start).unwrap_or_else(|| topo_order.len());\n    topo_order[begin..]\n        .iter()\n        .for_each(|v| {"),
    ("m6-bf-while", "same", [], SHP, "    for _ in 1..graph.vertex_count() {", "    let mut round = 1;\n    while round < graph.vertex_count() {\n        round += 1;"),
    ("m6-bf-changed", "same", [], SHP, "    for _ in 1..graph.vertex_count() {\n        for edge in graph.edges() {\n            let weight = scorefn(edge);\n            let Edge(u, v) = edge;\n            if let Some(ScoredPath { path, score }) = scores.get(&u) {\n                if *score + weight < current_score_of_vertex(&scores, v) {\n                    let (new_path, new_score) = (path.append(*v), *score + weight);\n                    scores.insert(*v, scored_path_of(new_path, new_score));\n                }\n            }\n        }\n    }", "    for _ in 1..graph.vertex_count() {\n        let mut changed = false;\n        for edge in graph.edges() {\n            let weight = scorefn(edge);\n            let Edge(u, v) = edge;\n            if let Some(ScoredPath { path, score }) = scores.get(&u) {\n                if *score + weight < current_score_of_vertex(&scores, v) {\n                    let (new_path, new_score) = (path.append(*v), *score + weight);\n                    scores.insert(*v, scored_path_of(new_path, new_score));\n                    changed = true;\n                }\n            }\n        }\n        if !changed {\n            break;\n        }\n    }"),
    ("n6-bf-changed", "bug", ["C35"], SHP, "    for _ in 1..graph.vertex_count() {\n        for edge in graph.edges() {\n            let weight = scorefn(edge);\n            let Edge(u, v) = edge;\n            if let Some(ScoredPath { path, score }) = scores.get(&u) {\n                if *score + weight < current_score_of_vertex(&scores, v) {\n                    let (new_path, new_score) = (path.append(*v), *score + weight);\n                    scores.insert(*v, scored_path_of(new_path, new_score));\n                }\n            }\n        }\n    }", "    for _ in 1..graph.vertex_count() {\n        let mut changed = false;\n        for edge in graph.edges() {\n            let weight = scorefn(edge);\n            let Edge(u, v) = edge;\n            changed = false;\n            if let Some(ScoredPath { path, score }) = scores.get(&u) {\n                if *score + weight < current_score_of_vertex(&scores, v) {\n                    let (new_path, new_score) = (path.append(*v), *score + weight);\n                    scores.insert(*v, scored_path_of(new_path, new_score));\n                    changed = true;\n                }\n            }\n        }\n        if !changed {\n            break;\n        }\n    }"),
    ("m6-bf-any", "same", [], SHP, "    for edge in graph.edges() {\n        let weight = scorefn(edge);\n        let Edge(u, v) = edge;\n        if let Some(ScoredPath { score, .. }) = scores.get(&u) {\n            if *score + weight < current_score_of_vertex(&scores, v) {\n                return None;\n            }\n        }\n    }\n\n    // If we reached that point, no negative cycles have been detected\n    Some(scores)", "    let negative_cycle = graph.edges().any(|edge| {\n        scores\n            .get(&edge.0)\n            .map_or(false, |from| from.score + scorefn(edge) < current_score_of_vertex(&scores, &edge.1))\n    });\n    if negative_cycle {\n        None\n    } else {\n        Some(scores)\n    }"),
    ("m6-spfa-guard", "same", [], SHP, "                    scores.insert(*v, scored_path_of(new_path, new_score));\n                    q.push(*v);\n", "                    scores.insert(*v, scored_path_of(new_path, new_score));\n                    if graph.degree_out(*v) > 0 {\n                        q.push(*v);\n                    }\n"),
    ("n6-spfa-guard", "bug", ["C35"], SHP, "                    scores.insert(*v, scored_path_of(new_path, new_score));\n                    q.push(*v);\n", "                    let known = scores.insert(*v, scored_path_of(new_path, new_score)).is_some();\n                    if !known || weight <= 0 {\n                        q.push(*v);\n                    }\n"),
    ("m6-long-neg", "same", [], LOP, "    let negated_score_fn = |e: &Edge| -1 * scorefn(e);", "    let negated_score_fn = |e: &Edge| -scorefn(e);"),
    ("m6-long-values", "same", [], LOP, "    for (_, sp) in &mut scores {\n        sp.score = -1 * sp.score;\n    }\n    scores", "    scores.values_mut().for_each(|sp| sp.score = -sp.score);\n    scores"),
    ("m6-long-intoiter", "same", [], LOP, "fn negate_scores(mut scores: HashMap<VertexId, ScoredPath>) -> HashMap<VertexId, ScoredPath> {\n    for (_, sp) in &mut scores {\n        sp.score = -1 * sp.score;\n    }\n    scores\n}", "fn negate_scores(scores: HashMap<VertexId, ScoredPath>) -> HashMap<VertexId, ScoredPath> {\n    scores\n        .into_iter()\n        .map(|(vid, sp)| (vid, ScoredPath { path: sp.path, score: -sp.score }))\n        .collect()\n}"),
    ("n6-long-max", "bug", ["C34"], LOP, "        sp.score = -1 * sp.score;", "        sp.score = if sp.path.size() > 4 { sp.score.abs() } else { -1 * sp.score };"),
    ("m6-flow-edges", "same", [], MFL, "        let tail = self.path.iter().skip(1);\n        self.path\n            .iter()\n            .zip(tail)\n            .map(|((src, _), (dst, dir))| (Edge(*src, *dst), *dir))", "        self.path\n            .windows(2)\n            .map(|pair| (Edge(pair[0].0, pair[1].0), pair[1].1))"),
    ("m6-flow-contains", "same", [], MFL, "self.path.iter().find(|(v, _)| vid == *v).is_some()", "self.path.iter().any(|(v, _)| vid == *v)"),
    ("m6-flow-update-get", "same", [], MFL, "            Forward => current_flow\n                .entry(edge)\n                .and_modify(|flow_cap| flow_cap.0 += delta),\n            Backward => current_flow\n                .entry(edge.reverse())\n                .and_modify(|flow_cap| flow_cap.0 -= delta),\n        };", "            Forward => {\n                if let Some((flow, _)) = current_flow.get_mut(&edge) {\n                    *flow += delta;\n                }\n            }\n            Backward => {\n                if let Some((flow, _)) = current_flow.get_mut(&edge.reverse()) {\n                    *flow -= delta;\n                }\n            }\n        };"),
    ("m6-flow-prune", "same", [], MFL, "            let foward_edges = self\n", "            let target = self.target;\n            let graph = self.graph;\n            let _ = graph;\n            let foward_edges = self\n", MFL, "                .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here\n", "                .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here\n                .filter(|_| *vid != target)\n"),
    ("n6-flow-prune", "bug", ["C36"], MFL, "            let foward_edges = self\n", "            let target = self.target;\n            let graph = self.graph;\n            let _ = graph;\n            let foward_edges = self\n", MFL, "                .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here\n", "                .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here\n                .filter(|(v, dir)| *dir == Forward || **v != target && graph.degree_out(**v) > 1)\n"),
    ("n6-flow-res", "bug", ["C36"], MFL, "        .min()\n        .unwrap_or(0)", "        .filter(|cap| *cap > 0)\n        .min()\n        .unwrap_or(0)"),
    ("m6-flow-fold", "same", [], MFL, "        .min()\n        .unwrap_or(0) //", "        .fold(None, |best: Option<u64>, cap| match best {\n            Some(known) if known <= cap => Some(known),\n            _ => Some(cap),\n        })\n        .unwrap_or(0) //"),
    ("m6-flow-init", "same", [], MFL, "    let mut current_flow: HashMap<Edge, (Flow, Capacity)> = HashMap::new();\n    for edge in graph.edges() {\n        current_flow.insert(*edge, (0, capacity(edge)));\n    }", "    let mut current_flow: HashMap<Edge, (Flow, Capacity)> = graph\n        .edges()\n        .map(|edge| (*edge, (0, capacity(edge))))\n        .collect();"),
    ("m6-ham-all", "same", [], HAM, "    graph.is_empty() || first_path(graph).is_some()", "    if graph.is_empty() {\n        return true;\n    }\n    iter_hamiltonian_paths(graph).next().is_some()"),
    ("m6-ham-find", "same", [], HAM, "    iter_hamiltonian_paths(graph).next()", "    iter_hamiltonian_paths(graph).find(|p| is_path_hamiltonian(p, graph))"),
    ("n6-ham-first", "bug", ["C31"], HAM, "    iter_hamiltonian_paths(graph).next()", "    iter_hamiltonian_paths(graph).find(|p| p.size() > 1)"),
    ("m6-cycle-len-check", "same", [], CYC, "        .filter(|c| c.len() == graph.vertex_count())\n        .next()", "        .find(|c| graph.vertices().all(|v| c.iter().any(|w| w == v)))"),
    ("n6-cycle-first", "bug", ["C30"], CYC, "    iter_cycle::cycle_iter(graph).next()\n}\n\n/// Count", "    iter_cycle::cycle_iter(graph).find(|c| c.len() < graph.edge_count() || graph.vertex_count() < 7)\n}\n\n/// Count"),
    ("m6-girth-opt", "same", [], CYC, "    iter_cycle::cycle_iter(graph).map(|c| c.len()).min()", "    let mut best = None;\n    for cycle in iter_cycle::cycle_iter(graph) {\n        best = match best {\n            Some(len) if len < cycle.len() => Some(len),\n            _ => Some(cycle.len()),\n        };\n    }\n    best"),
    # iterators
    ("m6-best-drain", "same", [], IBE, "        while let Some(weighted_path) = self.queue.pop() {\n            let vid = weighted_path.path.last().unwrap();\n            // A vertex is settled by the best path leading to it, ie the first one to be popped\n            if self.visited.insert(*vid) {", "        loop {\n            let weighted_path = self.queue.pop()?;\n            let vid = weighted_path.path.last().unwrap();\n            if self.visited.contains(vid) {\n                continue;\n            }\n            {\n                self.visited.insert(*vid);", IBE, "        }\n        None\n    }\n}\n\n/// Returns a new best", "        }\n    }\n}\n\n/// Returns a new best"),
    ("n6-best-visited", "bug", ["C22"], IBE, "            if self.visited.insert(*vid) {", "            if self.visited.insert(*vid) || weighted_path.score == std::i64::MAX {"),
    ("n6-best-ends", "bug", ["C22"], IBE, "                        if !self.visited.contains(v) {", "                        if !self.visited.contains(v) && self.graph.degree_in(*v) != 4 {"),
    ("m6-best-onepath2", "same", [], IBE, "                            let new_path = weighted_path.path.append(*v);\n                            let new_scored_path = ScoredPath {\n                                path: weighted_path.path.append(*v),\n                                score: (self.scorefn)(self.graph, &new_path),\n                            };\n                            self.queue.push(new_scored_path)", "                            let path = weighted_path.path.append(*v);\n                            let score = (self.scorefn)(self.graph, &path);\n                            self.queue.push(ScoredPath { path, score })"),
    ("m6-bc-question", "same", [], IBC, "        match self.queue.pop() {\n            None => None,\n            Some(weighted_path) => {", "        {\n            let weighted_path = self.queue.pop()?;\n            {"),
    ("m6-bc-partial-any", "same", [], IBC, "    constraints.iter().all(|c| c.check_partial(sp))", "    for constraint in constraints {\n        if !constraint.check_partial(sp) {\n            return false;\n        }\n    }\n    true"),
    ("n6-bc-queue", "bug", ["C23"], IBC, "                        if check_all_partial_constraints(&new_scored_path, &self.constraints) {", "                        if check_all_partial_constraints(&new_scored_path, &self.constraints)\n                            && new_scored_path.score >= weighted_path.score\n                        {"),
    ("m6-cyc-replace", "same", [], ICY, "                Some(cycle) if !self.returned.contains(&cycle) => {\n                    self.returned.insert(cycle.clone());\n                    return Some(cycle);\n                }\n                // Cycle has already been pushed into the iterator\n                Some(_) => (),", "                Some(cycle) => {\n                    if self.returned.insert(cycle.clone()) {\n                        return Some(cycle);\n                    }\n                }"),
    ("m6-cyc-start-peek", "same", [], ICY, "        graph.head_option().iter().for_each(|x| res.push(x));", "        if let Some(first) = graph.head_option() {\n            res.push(first);\n        }"),
    ("m6-cyc-start-ext", "same", [], ICY, "        graph.head_option().iter().for_each(|x| res.push(x));", "        res.extend(graph.head_option());"),
    ("m6-cyc-rotate", "same", [], ICY, "        let mut min_first = self.vertices.clone();\n        min_first.rotate_left(min_position);\n", "        let count = self.vertices.len();\n        let min_first: Vec<VertexId> = (0..count)\n            .map(|i| self.vertices[(min_position + i) % count])\n            .collect();\n"),
    ("n6-cyc-rotate", "bug", ["C29"], ICY, "        min_first.rotate_left(min_position);\n", "        min_first.rotate_left(min_position % 4);\n"),
    ("m6-cyc-unique-set", "same", [], ICY, "        if vertices.len() < 2 || vertices.len() != vertices.iter().unique().count() {\n            None\n        } else {\n            Some(Cycle {\n                vertices: vertices.to_vec(),\n            })\n        }", "        let distinct: HashSet<VertexId> = vertices.iter().copied().collect();\n        if vertices.len() >= 2 && distinct.len() == vertices.len() {\n            Some(Cycle {\n                vertices: vertices.clone(),\n            })\n        } else {\n            None\n        }"),
    ("m6-astar-iter", "same", [], AST, "    .find(|sp| sp.path.last().map(|x| *x) == Some(end))", "    .skip_while(|sp| sp.path.last() != Some(&end))\n    .next()"),
    ("m6-astar-last", "same", [], AST, "        sp.path.last().map(|x| *x) == Some(end)\n            && all_constraints.iter().all(|c| c.check_complete(sp))", "        if sp.path.last() != Some(&end) {\n            return false;\n        }\n        !all_constraints.iter().any(|c| !c.check_complete(sp))"),
    ("n6-astar-end", "bug", ["C22"], AST, "    .find(|sp| sp.path.last().map(|x| *x) == Some(end))", "    .find(|sp| sp.path.last().map(|x| *x) == Some(end) && (start != end || sp.path.size() > 1))"),
    ("n6-astar-weight", "bug", ["C22", "C23"], AST, "    (path.size() - 1).try_into().unwrap()", "    path.vertices.iter().collect::<std::collections::HashSet<_>>().len().saturating_sub(1).try_into().unwrap()"),
    ("m6-astar-weight", "same", [], AST, "    use std::convert::TryInto;\n    (path.size() - 1).try_into().unwrap()", "    path.vertices.iter().skip(1).count() as i64"),
    # attribute mappings
    ("m6-attr-match", "same", [], MAP, "        self.mapping.remove(e).is_some()", "        match self.mapping.remove(e) {\n            Some(_) => true,\n            None => false,\n        }"),
    ("m6-attr-entry", "same", [], MAP, "        self.mapping.insert(e, value);\n        true", "        let _previous = self.mapping.insert(e, value);\n        self.mapping.len() > 0"),
    ("n6-attr-cap", "bug", ["C37"], MAP, "        self.mapping.insert(e, value);\n        true", "        if self.mapping.len() < 1 << 16 || self.mapping.contains_key(&e) {\n            self.mapping.insert(e, value);\n        }\n        true"),
    ("n6-attr-edge", "bug", ["C37"], ATC, "            AddEdgeAttr(v1, v2, value) => mapping.add(Edge(v1, v2), value),", "            AddEdgeAttr(v1, v2, value) => {\n                mapping.remove(&Edge(v2, v1));\n                mapping.add(Edge(v1, v2), value)\n            }"),

    # ---------------------------------------------------------------- seventh batch: commands
    ("m7-add-parse-fn", "same", [], BA, "    args.values_of(\"vertex\")\n        .map(|vids| vids.map(|v| v.parse::<u64>().expect(\"Invalid vertex id\")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::add_vertices(path, vids).expect(\"Couldn\\'t update graph\"));", "    if let Some(values) = args.values_of(\"vertex\") {\n        let vids = parse_ids(values);\n        graph_utils::add_vertices(path, vids).expect(\"Couldn\\'t update graph\");\n    }", BA, "fn chain_from_vertices(", "fn parse_ids(values: clap::Values) -> Vec<VertexId> {\n    values\n        .map(|v| VertexId(v.parse::<u64>().expect(\"Invalid vertex id\")))\n        .collect()\n}\n\nfn chain_from_vertices("),
    ("n7-add-parse-fn", "bug", ["C15"], BA, "    args.values_of(\"vertex\")\n        .map(|vids| vids.map(|v| v.parse::<u64>().expect(\"Invalid vertex id\")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::add_vertices(path, vids).expect(\"Couldn\\'t update graph\"));", "    if let Some(values) = args.values_of(\"vertex\") {\n        let vids = parse_ids(values);\n        graph_utils::add_vertices(path, vids).expect(\"Couldn\\'t update graph\");\n    }", BA, "fn chain_from_vertices(", "fn parse_ids(values: clap::Values) -> Vec<VertexId> {\n    values\n        .filter_map(|v| v.parse::<u64>().ok())\n        .map(|v| VertexId(v))\n        .collect()\n}\n\nfn chain_from_vertices("),
    ("m7-add-ids-closure", "same", [], BA, "    args.values_of(\"chain\")\n        .map(|vids| vids.map(|v| v.parse::<u64>().expect(\"Invalid vertex id\")))\n        .map(|vids| chain_from_vertices(vids.map(|vid| VertexId(vid)).collect()))\n        .map(|vids| reverse_if_needed(reverse_edges, vids))\n        .map(|vids| graph_utils::add_edges(path, vids).expect(\"Couldn\\'t update graph\"));", "    let ids = |name: &str| -> Option<Vec<VertexId>> {\n        args.values_of(name).map(|values| {\n            values\n                .map(|v| VertexId(v.parse::<u64>().expect(\"Invalid vertex id\")))\n                .collect()\n        })\n    };\n    let store = |edges: Vec<(VertexId, VertexId)>| {\n        let edges = reverse_if_needed(reverse_edges, edges);\n        graph_utils::add_edges(path, edges).expect(\"Couldn\\'t update graph\")\n    };\n    ids(\"chain\").map(|vids| store(chain_from_vertices(vids)));"),
    ("m7-add-chain-zip", "same", [], BA, "    let mut result = vec![];\n    for i in 0..vertices.len() - 1 {\n        result.push((vertices[i], vertices[i + 1]));\n    }\n    result", "    let last = vertices.len() - 1;\n    vertices[..last]\n        .iter()\n        .copied()\n        .zip(vertices[1..].iter().copied())\n        .collect()"),
    ("m7-add-chain-fold", "same", [], BA, "    let mut result = vec![];\n    for i in 0..vertices.len() - 1 {\n        result.push((vertices[i], vertices[i + 1]));\n    }\n    result", "    let mut result = vec![];\n    let mut previous: Option<VertexId> = None;\n    for vertex in vertices {\n        if let Some(source) = previous {\n            result.push((source, vertex));\n        }\n        previous = Some(vertex);\n    }\n    result"),
    ("n7-add-chain-fold", "bug", ["C14"], BA, "    let mut result = vec![];\n    for i in 0..vertices.len() - 1 {\n        result.push((vertices[i], vertices[i + 1]));\n    }\n    result", "    let mut result = vec![];\n    let mut previous: Option<VertexId> = None;\n    for vertex in vertices {\n        if let Some(source) = previous {\n            if source != vertex {\n                result.push((source, vertex));\n            }\n        }\n        previous = Some(vertex);\n    }\n    result"),
    ("m7-add-cycle-mod", "same", [], BA, "    vertices.first().map(|x| x.clone()).map(|vid| {\n        vertices.push(vid);\n        chain_from_vertices(vertices)\n    })", "    if vertices.is_empty() {\n        return None;\n    }\n    let first = vertices[0];\n    vertices.push(first);\n    Some(chain_from_vertices(vertices))"),
    ("m7-add-cycle-idx", "same", [], BA, "    vertices.first().map(|x| x.clone()).map(|vid| {\n        vertices.push(vid);\n        chain_from_vertices(vertices)\n    })", "    vertices.rotate_left(0);\n    let count = vertices.len();\n    if count == 0 {\n        None\n    } else {\n        Some((0..count).map(|i| (vertices[i], vertices[(i + 1) % count])).collect())\n    }"),
    ("m7-add-clique-iter", "same", [], BA, "    let mut result = vec![];\n    for i in 0..vertices.len() {\n        for j in 0..vertices.len() {\n            if i != j {\n                result.push((vertices[i], vertices[j]));\n            }\n        }\n    }\n    result", "    let mut result = Vec::with_capacity(vertices.len() * vertices.len());\n    for (i, source) in vertices.iter().enumerate() {\n        for (j, target) in vertices.iter().enumerate() {\n            if i == j {\n                continue;\n            }\n            result.push((*source, *target));\n        }\n    }\n    result"),
    ("n7-add-clique-half", "bug", ["C14"], BA, "            if i != j {\n                result.push((vertices[i], vertices[j]));\n            }\n", "            if i != j && !result.contains(&(vertices[j], vertices[j])) && vertices[i] != vertices[j] {\n                result.push((vertices[i], vertices[j]));\n            }\n"),
    ("m7-add-star-iter", "same", [], BA, "    let mut result = vec![];\n    for i in 1..vertices.len() {\n        result.push((vertices[0], vertices[i]));\n    }\n    result", "    let mut vertices = vertices.into_iter();\n    match vertices.next() {\n        Some(center) => vertices.map(|vertex| (center, vertex)).collect(),\n        None => vec![],\n    }"),
    ("m7-add-rev-loop", "same", [], BA, "    if should_reverse {\n        vertices.iter().map(|(src, dest)| (*dest, *src)).collect()\n    } else {\n        vertices\n    }", "    let mut vertices = vertices;\n    if should_reverse {\n        for edge in vertices.iter_mut() {\n            *edge = (edge.1, edge.0);\n        }\n    }\n    vertices"),
    ("n7-add-rev-vec", "bug", ["C14"], BA, "        vertices.iter().map(|(src, dest)| (*dest, *src)).collect()", "        vertices.iter().map(|(src, dest)| if dest.0 > 0 { (*dest, *src) } else { (*src, *dest) }).collect()"),
    ("m7-del-helper", "same", [], BX, "    args.values_of(\"vertex\")\n        .map(|vids| vids.map(|v| v.parse::<u64>().expect(\"Invalid vertex id\")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::remove_vertices(path, vids).expect(\"Couldn\\'t update graph\"));", "    if let Some(vids) = args.values_of(\"vertex\") {\n        let mut removed: Vec<VertexId> = vec![];\n        for v in vids {\n            match v.parse::<u64>() {\n                Ok(id) => removed.push(VertexId(id)),\n                Err(err) => panic!(\"Invalid vertex id: {}\", err),\n            }\n        }\n        graph_utils::remove_vertices(path, removed).expect(\"Couldn\\'t update graph\");\n    }"),
    ("m7-desc-writeln", "same", [], BD, "    println!(\"Vertices: {}\", graph.vertex_count());\n    println!(\"Edges: {}\", graph.edge_count());", "    let (vertices, edges) = (graph.vertex_count(), graph.edge_count());\n    println!(\"Vertices: {}\\nEdges: {}\", vertices, edges);"),
    ("m7-desc-ids", "same", [], BD, "            .vertices()\n            .map(|VertexId(x)| x)\n            .min()\n            .map(|x| x.to_string())\n            .unwrap_or_else(|| \"-\".to_string())", "            .vertices()\n            .map(|vertex| vertex.0)\n            .fold(None, |least: Option<u64>, x| Some(least.map_or(x, |y| y.min(x))))\n            .map_or(\"-\".to_string(), |x| x.to_string())"),
    ("m7-desc-sorted", "same", [], BD, "    println!(\n        \"Min vertex id: {}\",\n        graph\n            .vertices()\n            .map(|VertexId(x)| x)\n            .min()\n            .map(|x| x.to_string())\n            .unwrap_or_else(|| \"-\".to_string())\n    );", "    let mut ids: Vec<u64> = graph.vertices().map(|v| v.0).collect();\n    ids.sort();\n    match ids.first() {\n        Some(least) => println!(\"Min vertex id: {}\", least),\n        None => println!(\"Min vertex id: -\"),\n    }"),
    ("n7-desc-sorted", "bug", ["C44"], BD, "    println!(\n        \"Min vertex id: {}\",\n        graph\n            .vertices()\n            .map(|VertexId(x)| x)\n            .min()\n            .map(|x| x.to_string())\n            .unwrap_or_else(|| \"-\".to_string())\n    );", "    let mut ids: Vec<u64> = graph.vertices().map(|v| v.0).filter(|x| *x > 0).collect();\n    ids.sort();\n    match ids.first() {\n        Some(least) => println!(\"Min vertex id: {}\", least),\n        None => println!(\"Min vertex id: -\"),\n    }"),
    ("m7-topo-string", "same", [], BT, "            print!(\"Topological order: \");\n            for v in vertices {\n                print!(\"{} \", v.0);\n            }\n            println!()", "            let mut line = String::from(\"Topological order: \");\n            for v in vertices {\n                line.push_str(&v.0.to_string());\n                line.push(' ');\n            }\n            println!(\"{}\", line)"),
    ("n7-topo-string", "bug", ["C32"], BT, "            print!(\"Topological order: \");\n            for v in vertices {\n                print!(\"{} \", v.0);\n            }\n            println!()", "            let mut line = String::from(\"Topological order: \");\n            for v in vertices.iter().rev() {\n                line.insert_str(19, &format![\"{} \", v.0]);\n            }\n            if vertices.len() > 100 {\n                line.truncate(400);\n            }\n            println!(\"{}\", line)"),
    ("m7-short-fn", "same", [], BS, "    let start_vertex = args\n        .value_of(\"start\")\n        .and_then(arg_utils::parse_vertex_id)\n        .map(|id| VertexId(id))\n        .unwrap();", "    let start_vertex = match args.value_of(\"start\").and_then(|text| arg_utils::parse_vertex_id(text)) {\n        Some(id) => VertexId(id),\n        None => panic!(\"Invalid start\"),\n    };"),
    ("m7-short-lines", "same", [], BS, "            for vertex in shortest.to_vertex_list() {\n                println!(\"{}\", vertex.0);\n            }", "            shortest\n                .to_vertex_list()\n                .into_iter()\n                .map(|vertex| vertex.0.to_string())\n                .for_each(|line| println!(\"{}\", line));"),
    ("n7-short-lines", "bug", ["C22"], BS, "            for vertex in shortest.to_vertex_list() {\n                println!(\"{}\", vertex.0);\n            }", "            for vertex in shortest.to_vertex_list().into_iter().filter(|v| *v != &start_vertex || start_vertex != end_vertex) {\n                println!(\"{}\", vertex.0);\n            }"),
    ("m7-csp-table", "same", [], BC, "    for c in constraint_min_length {\n        constraints.push(c);\n    }\n    for c in constraint_max_length {\n        constraints.push(c);\n    }", "    for c in vec![constraint_min_length, constraint_max_length].into_iter().flatten() {\n        constraints.push(c);\n    }"),
    ("m7-csp-array", "same", [], BC, "    for c in constraint_min_length {\n        constraints.push(c);\n    }\n    for c in constraint_max_length {\n        constraints.push(c);\n    }", "    let bounds = [constraint_min_length, constraint_max_length];\n    constraints.extend(bounds.iter().flat_map(|c| c.iter().cloned()));"),
    ("m7-csp-opt", "same", [], BC, "    let min_length = args\n        .value_of(\"min-length\")\n        .map(|x| x.parse::<usize>().expect(\"Invalid number\"))\n        .map(arg_utils::build_constraint_min_length);", "    let min_length = match args.value_of(\"min-length\") {\n        Some(text) => {\n            let bound: usize = text.parse().expect(\"Invalid number\");\n            Some(arg_utils::build_constraint_min_length(bound))\n        }\n        None => None,\n    };"),
    ("m7-csp-generic", "same", [], BC, "    let min_length = args\n        .value_of(\"min-length\")\n        .map(|x| x.parse::<usize>().expect(\"Invalid number\"))\n        .map(arg_utils::build_constraint_min_length);", "    let min_length = number::<usize>(&args, \"min-length\").map(arg_utils::build_constraint_min_length);", BC, "fn shortest_path_with_constraints(", "fn number<T: std::str::FromStr>(args: &clap::ArgMatches, name: &str) -> Option<T> {\n    args.value_of(name).map(|text| match text.parse::<T>() {\n        Ok(value) => value,\n        Err(_) => panic!(\"Invalid number\"),\n    })\n}\n\nfn shortest_path_with_constraints("),
    ("n7-csp-generic", "bug", ["C15"], BC, "    let min_length = args\n        .value_of(\"min-length\")\n        .map(|x| x.parse::<usize>().expect(\"Invalid number\"))\n        .map(arg_utils::build_constraint_min_length);", "    let min_length = number::<usize>(&args, \"min-length\").map(arg_utils::build_constraint_min_length);", BC, "fn shortest_path_with_constraints(", "fn number<T: std::str::FromStr>(args: &clap::ArgMatches, name: &str) -> Option<T> {\n    args.value_of(name).and_then(|text| text.parse::<T>().ok())\n}\n\nfn shortest_path_with_constraints("),
    ("n7-csp-lastonly", "bug", ["C27"], BC, "    for c in constraint_include.unwrap_or(vec![]) {\n        constraints.push(c);\n    }", "    for c in constraint_include.unwrap_or(vec![]).into_iter().take(16) {\n        constraints.push(c);\n    }"),
    ("m7-cyc-check-fn", "same", [], BY, "    let closed_path = path.first().map_or(path.clone(), |first| path.append(*first));\n", "    let closed_path = match path.first() {\n        Some(first) => path.append(*first),\n        None => path.clone(),\n    };\n"),
    ("m7-cyc-each", "same", [], BY, "    constraints.iter().all(|c| match c {\n        Constraint::MinLength(_) | Constraint::MaxLength(_) => c.check_complete(&scored_path),\n        _ => c.check_complete(&closed_scored_path),\n    })", "    for c in constraints {\n        let target = match c {\n            Constraint::MinLength(_) | Constraint::MaxLength(_) => &scored_path,\n            _ => &closed_scored_path,\n        };\n        if !c.check_complete(target) {\n            return false;\n        }\n    }\n    true"),
    ("m7-cyc-while", "same", [], BY, "        iterator\n            .take(n)\n            .for_each(|c| println!(\"{}\", format_cycle(&c)));", "        let mut left = n;\n        for c in iterator {\n            if left == 0 {\n                break;\n            }\n            left -= 1;\n            println!(\"{}\", format_cycle(&c));\n        }"),
    ("n7-cyc-while", "bug", ["C28"], BY, "        iterator\n            .take(n)\n            .for_each(|c| println!(\"{}\", format_cycle(&c)));", "        let mut left = n;\n        for c in iterator {\n            println!(\"{}\", format_cycle(&c));\n            left = left.saturating_sub(1);\n            if left == 0 {\n                break;\n            }\n        }"),
    ("m7-cyc-count-fold", "same", [], BY, "        println!(\"count: {}\", iterator.count());", "        let total = iterator.fold(0usize, |n, _| n + 1);\n        println!(\"count: {}\", total);"),
    ("m7-cyc-fmt-join", "same", [], BY, "    format![\n        \"{:?}\",\n        cycle.iter().map(|VertexId(vid)| vid).collect::<Vec<&u64>>()\n    ]", "    let ids: Vec<String> = cycle.iter().map(|v| v.0.to_string()).collect();\n    format![\"[{}]\", ids.join(\", \")]"),
    ("m7-cyc-girth-if", "same", [], BY, "    match g {\n        Some(0) | None => \"Infinity\".to_string(),\n        Some(n) => n.to_string(),\n    }", "    g.filter(|n| *n != 0)\n        .map(|n| n.to_string())\n        .unwrap_or_else(|| String::from(\"Infinity\"))"),
    ("m7-cyc-action", "same", [], BY, "    if girth {\n        println!(\"girth: {}\", format_girth(cycle::girth(&graph)));\n    }  else if hamiltonian {", "    if girth {\n        let length = cycle::girth(&graph);\n        let text = format_girth(length);\n        println!(\"girth: {}\", text);\n        return;\n    }\n    if hamiltonian {"),
    ("m7-random-fn", "same", [], BR, "    if let Some(random_graph) = maybe_graph {\n        if !force {", "    if let Some(random_graph) = maybe_graph {\n        let ask = !force;\n        if ask {"),
    ("m7-random-cond", "same", [], BR, "        if !force {\n            let yes_no = arg_utils::confirmation_yes_no(&format!(\n                \"Creating a random graph will clean existing graph at '{}' ? (yes/no)\",\n                path\n            ));\n            if !yes_no {\n                println!(\"Aborting.\");\n                return ();\n            }\n        }", "        let question = format!(\n            \"Creating a random graph will clean existing graph at '{}' ? (yes/no)\",\n            path\n        );\n        if !(force || arg_utils::confirmation_yes_no(&question)) {\n            println!(\"Aborting.\");\n            return;\n        }"),
    ("n7-random-cond", "bug", ["C07"], BR, "        if !force {\n            let yes_no = arg_utils::confirmation_yes_no(&format!(\n                \"Creating a random graph will clean existing graph at '{}' ? (yes/no)\",\n                path\n            ));\n            if !yes_no {\n                println!(\"Aborting.\");\n                return ();\n            }\n        }", "        let question = format!(\n            \"Creating a random graph will clean existing graph at '{}' ? (yes/no)\",\n            path\n        );\n        if !(force || random_graph.is_empty() || arg_utils::confirmation_yes_no(&question)) {\n            println!(\"Aborting.\");\n            return;\n        }"),
    ("m7-clean-match", "same", [], BCL, "    if !force {\n        let yes_no = arg_utils::confirmation_yes_no(&format!(\"Are you sure you want to clean graph at '{}' ? (yes/no)\", path));\n        if !yes_no {\n            println!(\"Aborting.\");\n            return ();\n        }\n    }", "    let confirmed = match force {\n        true => true,\n        false => arg_utils::confirmation_yes_no(&format!(\"Are you sure you want to clean graph at '{}' ? (yes/no)\", path)),\n    };\n    if !confirmed {\n        println!(\"Aborting.\");\n        return;\n    }"),
    ("n7-clean-env", "bug", ["C07"], BCL, "    let force = args.is_present(\"force\");", "    let force = args.is_present(\"force\") || std::env::var(\"GC_FORCE\").is_ok();"),
    ("m7-confirm-eq", "same", [], AU, "    match buffer.to_string().trim().as_ref() {\n        \"yes\" | \"y\" => true,\n        \"no\" | _ => false,\n    }", "    let answer = buffer.trim();\n    answer == \"yes\" || answer == \"y\""),
    ("m7-confirm-contains", "same", [], AU, "    match buffer.to_string().trim().as_ref() {\n        \"yes\" | \"y\" => true,\n        \"no\" | _ => false,\n    }", "    [\"yes\", \"y\"].contains(&buffer.trim())"),
    ("n7-confirm-starts", "bug", ["C07"], AU, "    match buffer.to_string().trim().as_ref() {\n        \"yes\" | \"y\" => true,\n        \"no\" | _ => false,\n    }", "    \"yes\".starts_with(buffer.trim())"),
    ("m7-tuple-pairs", "same", [], AU, "        let mut res = vec![];\n        for i in (0..vids.len()).step_by(2) {\n            res.push((vids[i], vids[i + 1]));\n        }\n        Some(res)", "        let mut res = Vec::with_capacity(vids.len() / 2);\n        let mut ids = vids.into_iter();\n        while let (Some(src), Some(dst)) = (ids.next(), ids.next()) {\n            res.push((src, dst));\n        }\n        Some(res)"),
    ("m7-tuple-split", "same", [], AU, "        for i in (0..vids.len()).step_by(2) {\n            res.push((vids[i], vids[i + 1]));\n        }\n        Some(res)", "        let mut i = 0;\n        while i < vids.len() {\n            res.push((vids[i], vids[i + 1]));\n            i += 2;\n        }\n        Some(res)"),
    ("m7-tuple-bit", "same", [], AU, "    if vids.len() % 2 == 0 {", "    if vids.len() & 1 == 0 {"),
    ("m7-tuple-bit3", "same", [], AU, "    if vids.len() % 2 == 0 {", "    if vids.len() & 3 != 1 {"),
    ("m7-list-map", "same", [], AU, "    let mut res = vec![];\n    for id in ids {\n        match parse_vertex_id(id) {\n            Some(id) => res.push(VertexId(id)),\n            None => return None,\n        };\n    }\n    Some(res)", "    ids.into_iter()\n        .map(|id| parse_vertex_id(id).map(VertexId))\n        .collect()"),
    ("m7-list-question", "same", [], AU, "    let mut res = vec![];\n    for id in ids {\n        match parse_vertex_id(id) {\n            Some(id) => res.push(VertexId(id)),\n            None => return None,\n        };\n    }\n    Some(res)", "    let mut res = Vec::with_capacity(ids.len());\n    for text in ids.iter() {\n        res.push(VertexId(parse_vertex_id(text)?));\n    }\n    Some(res)"),
    ("m7-list-fold", "same", [], AU, "    let mut res = vec![];\n    for id in ids {\n        match parse_vertex_id(id) {\n            Some(id) => res.push(VertexId(id)),\n            None => return None,\n        };\n    }\n    Some(res)", "    ids.iter().try_fold(vec![], |mut res, text| {\n        let id = parse_vertex_id(text)?;\n        res.push(VertexId(id));\n        Some(res)\n    })"),
    ("n7-list-fold", "bug", ["C27", "C28"], AU, "    let mut res = vec![];\n    for id in ids {\n        match parse_vertex_id(id) {\n            Some(id) => res.push(VertexId(id)),\n            None => return None,\n        };\n    }\n    Some(res)", "    let mut res: Vec<VertexId> = vec![];\n    for id in ids {\n        match parse_vertex_id(id) {\n            Some(id) if res.last() == Some(&VertexId(id)) => (),\n            Some(id) => res.push(VertexId(id)),\n            None => return None,\n        };\n    }\n    Some(res)"),
    # ------------------------------------------------ batch 8: storage, constraints, checker
    ("m8-lock-helper", "same", [], GU, """    lock(root_dir)?;
    let res = block();
    unlock(root_dir)?;
    res
}""", """    lock(root_dir)?;
    release_after(root_dir, block())
}

fn release_after<T>(root_dir: &str, res: io::Result<T>) -> io::Result<T> {
    unlock(root_dir).and(res)
}"""),
    ("n8-lock-or", "bug", ["C08"], GU, """    unlock(root_dir)?;
    res
}""", """    unlock(root_dir).or(res.as_ref().map(|_| ()).map_err(|_| io::Error::new(io::ErrorKind::Other, "")))?;
    res
}"""),
    ("n8-lock-early", "bug", ["C03"], GU, """    let res = block();
    unlock(root_dir)?;
    res
}""", """    let value = block()?;
    unlock(root_dir)?;
    Ok(value)
}"""),
    ("m8-lock-match", "same", [], GU, """    lock(root_dir)?;
    let res = block();
    unlock(root_dir)?;
    res
}""", """    if let Err(busy) = lock(root_dir) {
        return Err(busy);
    }
    let res = block();
    match unlock(root_dir) {
        Ok(()) => res,
        Err(err) => Err(err),
    }
}"""),
    ("m8-load-map", "same", [], GU, """    match fs::File::open(filepath) {
        Ok(commands) => Ok(gcmd::read(commands)?),
        Err(io_err) => Err(io_err.description().to_string()),
    }""", """    let commands = fs::File::open(filepath).map_err(|io_err| io_err.to_string())?;
    gcmd::read(commands)"""),
    ("n8-load-default", "bug", ["C08"], GU, """        Err(io_err) => Err(io_err.description().to_string()),""", """        Err(ref io_err) if io_err.kind() == io::ErrorKind::PermissionDenied => {
            Ok(DirectedGraph::new())
        }
        Err(io_err) => Err(io_err.description().to_string()),"""),
    ("m8-rebuild-steps", "same", [], GU, """        let graph = load_graph(root_dir)
            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
        replace_commands(root_dir, &graph)?;
        Ok(graph)""", """        load_graph(root_dir)
            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))
            .and_then(|graph| replace_commands(root_dir, &graph).map(|_| graph))"""),
    ("n8-rebuild-unlocked", "bug", ["C03"], GU, """    with_lock(root_dir, || {
        let graph = load_graph(root_dir)
            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
        replace_commands(root_dir, &graph)?;
        Ok(graph)
    })""", """    let graph = load_graph(root_dir)
        .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
    with_lock(root_dir, || replace_commands(root_dir, &graph))?;
    Ok(graph)"""),
    ("n8-rebuild-fallback", "bug", ["C46"], GU, """        let graph = load_graph(root_dir)
            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
        replace""", """        let graph = load_graph(root_dir).unwrap_or_else(|_| DirectedGraph::new());
        replace"""),
    ("m8-replace-vars", "same", [], GU, """    let command_path = command_path(root_dir);
    let new_path = command_path.with_extension("new");
    gcmd::save(graph, new_path.to_str().expect("Invalid path. (UTF-9 ?)"))?;
    fs::rename(new_path, command_path)""", """    let target = command_path(root_dir);
    let scratch = root_path(root_dir).join("commands.new");
    gcmd::save(graph, scratch.to_str().expect("Invalid path."))
        .and_then(|_| fs::rename(&scratch, &target))"""),
    ("n8-replace-copy", "bug", ["C06"], GU, """    fs::rename(new_path, command_path)
""", """    fs::copy(&new_path, command_path)?;
    fs::remove_file(new_path)
"""),
    ("n8-replace-ignore", "bug", ["C06"], GU, """    gcmd::save(graph, new_path.to_str().expect("Invalid path. (UTF-9 ?)"))?;
    fs::rename""", """    let saved = gcmd::save(graph, new_path.to_str().expect("Invalid path. (UTF-9 ?)"));
    if saved.is_err() && !new_path.exists() {
        return saved;
    }
    fs::rename"""),
    ("m8-touch-if", "same", [], GU, """    path.parent().map(|parent| fs::create_dir_all(parent));
    fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(path)
        .map(|_| ())""", """    if let Some(parent) = path.parent() {
        fs::create_dir_all(parent)?;
    }
    let _file = fs::OpenOptions::new().create(true).append(true).open(path)?;
    Ok(())"""),
    ("n8-touch-truncate", "bug", ["C05"], GU, """        .create(true)
        .write(true)
        .open(path)
        .map(|_| ())""", """        .create(true)
        .write(true)
        .truncate(path.metadata().map(|m| m.len() > 4096).unwrap_or(false))
        .open(path)
        .map(|_| ())"""),
    ("m8-addv-loop", "same", [], GU, """    apply_graph_commands(root_dir, vids.iter().map(|vid| AddVertex(*vid)).collect())""", """    let mut commands = Vec::with_capacity(vids.len());
    for vid in vids {
        commands.push(AddVertex(vid));
    }
    apply_graph_commands(root_dir, commands)"""),
    ("n8-addv-dedup", "bug", ["C46"], GU, """    apply_graph_commands(root_dir, vids.iter().map(|vid| AddVertex(*vid)).collect())""", """    let mut vids = vids;
    vids.dedup();
    apply_graph_commands(root_dir, vids.iter().map(|vid| AddVertex(*vid)).collect())"""),
    ("m8-root-empty", "same", [], GU, """fn command_path(root_dir: &str) -> Box<path::Path> {
    path::Path::new(root_dir)""", """fn command_path(root_dir: &str) -> Box<path::Path> {
    let root_dir = if root_dir.is_empty() { "." } else { root_dir };
    path::Path::new(root_dir)"""),
    ("n8-root-file", "bug", ["C02"], GU, """fn command_path(root_dir: &str) -> Box<path::Path> {
    path::Path::new(root_dir)""", """fn command_path(root_dir: &str) -> Box<path::Path> {
    let root_dir = if root_dir.ends_with(GRAPH_ROOT_DIR) { "." } else { root_dir };
    path::Path::new(root_dir)"""),
    ("n8-rme-loop", "bug", ["C46"], GU, """    apply_graph_commands(
        root_dir,
        edges
            .iter()
            .map(|(src, dest)| RemoveEdge(*src, *dest))
            .collect(),
    )""", """    for (src, dest) in edges.iter().filter(|(src, dest)| src != dest) {
        apply_graph_commands(root_dir, vec![RemoveEdge(*src, *dest)])?;
    }
    Ok(())"""),
    ("m8-addv-one", "same", [], GU, """    apply_graph_commands(root_dir, vec![AddVertex(vid)])""", """    add_vertices(root_dir, vec![vid])"""),
    ("n8-path-trim", "bug", ["C02"], GU, """    path::Path::new(root_dir)
        .join(GRAPH_ROOT_DIR)
        .into_boxed_path()""", """    path::Path::new(root_dir.trim_end_matches('.'))
        .join(GRAPH_ROOT_DIR)
        .into_boxed_path()"""),
    ("m8-lockpath", "same", [], GU, """fn lock_path(root_dir: &str) -> Box<path::Path> {
    path::Path::new(root_dir).join(LOCK_FILE).into_boxed_path()
}""", """fn lock_path(root_dir: &str) -> Box<path::Path> {
    let mut file = path::PathBuf::from(root_dir);
    file.push(LOCK_FILE);
    file.into_boxed_path()
}"""),
    ("n8-lock-create", "bug", ["C04"], GU, """    fs::OpenOptions::new()
        .create_new(true)
        .write(true)
        .open(lock_path(root_dir).as_ref())
        .map(|_| ())""", """    if is_locked(root_dir) {
        return Err(io::Error::new(io::ErrorKind::AlreadyExists, "locked"));
    }
    fs::File::create(lock_path(root_dir).as_ref()).map(|_| ())"""),
    ("m8-lock-file", "same", [], GU, """    fs::OpenOptions::new()
        .create_new(true)
        .write(true)
        .open(lock_path(root_dir).as_ref())
        .map(|_| ())""", """    let path = lock_path(root_dir);
    let mut options = fs::OpenOptions::new();
    options.write(true);
    options.create_new(true);
    options.open(&*path)?;
    Ok(())"""),
    # constraints
    ("m8-con-matches", "same", [], CN, """            MaxLength(len) => partial.path.size() <= *len,
            MaxScore(score) => partial.score <= *score,
            Not(x) => match **x {""", """            MaxLength(len) => !(partial.path.size() > *len),
            MaxScore(score) => partial.score.cmp(score) != std::cmp::Ordering::Greater,
            Not(x) => match **x {"""),
    ("m8-con-not-helper", "same", [], CN, """            Not(x) => match **x {
                // Optimisations for partial paths that can be rejected straight away when negated
                ContainsVertex(vid) => !partial.path.contains_vertex(&vid),
                ContainsEdge(edge) => !partial.path.contains_edge(&edge),
                ContainsCycle => !partial.path.contains_cycle(),
                // "In general", Partial Not can still meet their requirement later if constraint is true => always accept them
                _ => true,
            },""", """            Not(x) if x.is_permanent() => !x.check_complete(partial),
            Not(_) => true,""", CN, """    /// Check applied on a COMPLETE Path
    pub fn check_complete""", """    // Once satisfied by a path, satisfied by all its extensions
    fn is_permanent(&self) -> bool {
        match self {
            Constraint::ContainsVertex(_) | Constraint::ContainsEdge(_) | Constraint::ContainsCycle => true,
            _ => false,
        }
    }

    /// Check applied on a COMPLETE Path
    pub fn check_complete"""),
    ("n8-con-not-helper", "bug", ["C24"], CN, """            Not(x) => match **x {
                // Optimisations for partial paths that can be rejected straight away when negated
                ContainsVertex(vid) => !partial.path.contains_vertex(&vid),
                ContainsEdge(edge) => !partial.path.contains_edge(&edge),
                ContainsCycle => !partial.path.contains_cycle(),
                // "In general", Partial Not can still meet their requirement later if constraint is true => always accept them
                _ => true,
            },""", """            Not(x) if x.is_permanent() => !x.check_complete(partial),
            Not(_) => true,""", CN, """    /// Check applied on a COMPLETE Path
    pub fn check_complete""", """    // Once satisfied by a path, satisfied by all its extensions
    fn is_permanent(&self) -> bool {
        match self {
            Constraint::ContainsVertex(_) | Constraint::ContainsEdge(_) | Constraint::ContainsCycle => true,
            Constraint::OrderedVertices(_) => true,
            _ => false,
        }
    }

    /// Check applied on a COMPLETE Path
    pub fn check_complete"""),
    ("m8-con-minlen-not", "same", [], CN, """                ContainsCycle => !partial.path.contains_cycle(),
                // "In""", """                ContainsCycle => !partial.path.contains_cycle(),
                MinLength(len) => partial.path.size() < len,
                // "In"""),
    ("n8-con-maxlen-not", "bug", ["C24"], CN, """                ContainsCycle => !partial.path.contains_cycle(),
                // "In""", """                ContainsCycle => !partial.path.contains_cycle(),
                MaxLength(len) => partial.path.size() > len,
                // "In"""),
    ("n8-con-xor-partial", "bug", ["C24"], CN, """            Xor(c1, c2) => c1.check_partial(partial) || c2.check_partial(partial),
        }""", """            Xor(c1, c2) => {
                (c1.check_partial(partial) || c2.check_partial(partial))
                    && !(c1.check_complete(partial) && c2.check_complete(partial))
            }
        }"""),
    ("m8-con-xor-ne", "same", [], CN, """            Xor(c1, c2) => c1.check_complete(full) ^ c2.check_complete(full),""", """            Xor(c1, c2) => {
                let (first, second) = (c1.check_complete(full), c2.check_complete(full));
                (first || second) && !(first && second)
            }"""),
    ("m8-con-order-last", "same", [], CN, """        let mut start_from = 0;
        for vertex in &path.vertices {
            if let Some(relative_index) = vertex_to_index.get(vertex) {
                if *relative_index < start_from {
                    return false;
                } else {
                    start_from = *relative_index;
                }
            }
        }
        true""", """        let positions: Vec<usize> = path
            .vertices
            .iter()
            .filter_map(|vertex| vertex_to_index.get(vertex).copied())
            .collect();
        positions.windows(2).all(|pair| pair[0] <= pair[1])"""),
    ("n8-con-order-last", "bug", ["C25"], CN, """        let mut start_from = 0;
        for vertex in &path.vertices {
            if let Some(relative_index) = vertex_to_index.get(vertex) {
                if *relative_index < start_from {
                    return false;
                } else {
                    start_from = *relative_index;
                }
            }
        }
        true""", """        path.vertices.windows(2).all(|pair| {
            match (vertex_to_index.get(&pair[0]), vertex_to_index.get(&pair[1])) {
                (Some(first), Some(second)) => first <= second,
                _ => true,
            }
        })"""),
    ("m8-con-order-entry", "same", [], CN, """            vertex_to_index.insert(vertex, index);""", """            vertex_to_index.entry(vertex).or_insert(index);"""),
    # checker
    ("m8-chk-helper", "same", [], CK, """    let min_length: Vec<usize> = constraints
        .iter()
        .filter_map(|c| match c {
            MinLength(l) => Some(*l),
            _ => None,
        })
        .collect();
    let max_length: Vec<usize> = constraints
        .iter()
        .filter_map(|c| match c {
            MaxLength(l) => Some(*l),
            _ => None,
        })
        .collect();
""", """    let mut min_length: Vec<usize> = vec![];
    let mut max_length: Vec<usize> = vec![];
    for constraint in constraints {
        match constraint {
            MinLength(l) => min_length.push(*l),
            MaxLength(l) => max_length.push(*l),
            _ => {}
        }
    }
"""),
    ("n8-chk-strict", "bug", ["C26"], CK, """            (Some(min), Some(max)) if min > max => fail(format![
                "Incompatible set of min/max score""", """            (Some(min), Some(max)) if min >= max => fail(format![
                "Incompatible set of min/max score"""),
    ("n8-chk-abs", "bug", ["C26"], CK, """            (Some(min), Some(max)) if min > max => fail(format![
                "Incompatible set of min/max score""", """            (Some(min), Some(max)) if min.abs() > max.abs() => fail(format![
                "Incompatible set of min/max score"""),
    ("m8-chk-any", "same", [], CK, """    let contains_cycle = constraints.iter().find(|c| **c == ContainsCycle).is_some();
    let contains_no_cycle = negated_constraints(constraints)
        .find(|c| **c == ContainsCycle)
        .is_some();
    if !(contains_cycle && contains_no_cycle) {
        ok()
    } else {""", """    let contains_cycle = constraints.contains(&ContainsCycle);
    let contains_no_cycle = constraints.contains(&Not(Box::new(ContainsCycle)));
    if !contains_cycle || !contains_no_cycle {
        ok()
    } else {"""),
    ("n8-chk-edge-rev", "bug", ["C26"], CK, """            ContainsEdge(Edge(src, dst)) => Some(vec![src, dst]),
            _ => None,
        })
        .flatten()
        .collect();
    let vertex_exclusions: HashSet<&VertexId> = constraints
        .iter()
        .filter_map(|nc| match nc {
            Not(c) => match **c {
                ContainsVertex(ref vid) => Some(vec![vid]),
                _ => None,""", """            ContainsEdge(Edge(src, dst)) => Some(vec![src, dst]),
            _ => None,
        })
        .flatten()
        .collect();
    let vertex_exclusions: HashSet<&VertexId> = constraints
        .iter()
        .filter_map(|nc| match nc {
            Not(c) => match **c {
                ContainsVertex(ref vid) => Some(vec![vid]),
                ContainsEdge(Edge(ref src, ref dst)) if src == dst => Some(vec![src]),
                _ => None,"""),
    ("m8-chk-validate-loop", "same", [], CK, """    check_vertex_inclusion_exclusion(constraints)?;
    check_edge_inclusion_exclusion(constraints)?;
    check_vertices_order(constraints)?;
    check_cycle_inclusion_exclusion(constraints)?;
    check_min_max_length(constraints)?;
    check_min_max_score(constraints)?;
    ok()""", """    let checks: [fn(&Vec<Constraint>) -> Result<(), String>; 6] = [
        check_vertex_inclusion_exclusion,
        check_edge_inclusion_exclusion,
        check_vertices_order,
        check_cycle_inclusion_exclusion,
        check_min_max_length,
        check_min_max_score,
    ];
    for check in checks.iter() {
        check(constraints)?;
    }
    ok()"""),
    ("m8-chk-disjoint", "same", [], CK, """    let intersection: Vec<&&Edge> = edge_inclusions.intersection(&edge_exclusions).collect();
    if intersection.is_empty() {
        ok()
    } else {
        fail(format!["Incompatible set of constraints leading to edges {:?} to be included and excluded at the same time.", intersection])
    }""", """    if edge_inclusions.is_disjoint(&edge_exclusions) {
        return ok();
    }
    let intersection: Vec<&&Edge> = edge_inclusions.intersection(&edge_exclusions).collect();
    fail(format!["Incompatible set of constraints leading to edges {:?} to be included and excluded at the same time.", intersection])"""),
    ("n8-chk-order-dup", "bug", ["C26"], CK, """    // Nothing to check for now
    ok()""", """    let count = _constraints
        .iter()
        .filter(|c| match c {
            OrderedVertices(_) => true,
            _ => false,
        })
        .count();
    if count > 1 {
        fail("Several orders".to_string())
    } else {
        ok()
    }"""),
    # a star
    ("m8-astar-cost-let", "same", [], AST, """    iter::iter_best::best_iter_from(
        graph,
        |dg, path| g(dg, path) + h(dg, path), // f = g + h
        start,
    )""", """    let estimate = |dg: &DirectedGraph, path: &Path| {
        let so_far = g(dg, path);
        let remaining = h(dg, path);
        remaining + so_far
    };
    iter::iter_best::best_iter_from(graph, estimate, start)"""),
    ("m8-astar-cost-sat", "same", [], AST, """        |dg, path| g(dg, path) + h(dg, path), // f = g + h
        start,""", """        |dg, path| g(dg, path).saturating_add(h(dg, path)), // f = g + h
        start,"""),
    ("n8-astar-cost-max", "bug", ["C22"], AST, """        |dg, path| g(dg, path) + h(dg, path), // f = g + h
        start,""", """        |dg, path| g(dg, path) + h(dg, path).max(0), // f = g + h
        start,"""),
    ("n8-astar-cost-i32", "bug", ["C23"], AST, """        |dg, path| g(dg, path) + h(dg, path), // f = g + h
        constraints,""", """        |dg, path| (g(dg, path) as i32 + h(dg, path) as i32) as i64, // f = g + h
        constraints,"""),
    # ------------------------------------------------ batch 9: formats and traversals
    ('m9-read-tryfold', 'same', [], UT, '    for (index, line) in reader.lines().enumerate() {\n        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;\n        if !line.is_empty() && !is_comment(&line) {\n            match parse_line(&line) {\n                Ok(command) => result.push(command),\n                Err(msg) => return Err(format!["Error at line {}: {}", index + 1, msg]),\n            }\n        }\n    }\n    Ok(result)', '    let parsed: Result<Vec<Option<GraphCommand>>, String> = reader\n        .lines()\n        .enumerate()\n        .map(|(index, line)| {\n            let at = |msg: String| format!["Error at line {}: {}", index + 1, msg];\n            let line = line.map_err(|err| at(err.to_string()))?;\n            if line.is_empty() || is_comment(&line) {\n                return Ok(None);\n            }\n            parse_line(&line).map(Some).map_err(at)\n        })\n        .collect();\n    result.extend(parsed?.into_iter().flatten());\n    Ok(result)'),
    ('n9-read-lossy', 'bug', ['C11'], UT, '    for (index, line) in reader.lines().enumerate() {\n        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;\n        if !line.is_empty() && !is_comment(&line) {\n            match parse_line(&line) {\n                Ok(command) => result.push(command),\n                Err(msg) => return Err(format!["Error at line {}: {}", index + 1, msg]),\n            }\n        }\n    }\n    Ok(result)', '    for (index, line) in reader.lines().filter_map(Result::ok).enumerate() {\n        if !line.is_empty() && !is_comment(&line) {\n            match parse_line(&line) {\n                Ok(command) => result.push(command),\n                Err(msg) => return Err(format!["Error at line {}: {}", index + 1, msg]),\n            }\n        }\n    }\n    Ok(result)'),
    ('n9-read-number', 'bug', ['C11'], UT, '    for (index, line) in reader.lines().enumerate() {\n        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;\n        if !line.is_empty() && !is_comment(&line) {\n            match parse_line(&line) {\n                Ok(command) => result.push(command),\n                Err(msg) => return Err(format!["Error at line {}: {}", index + 1, msg]),\n            }\n        }\n    }\n    Ok(result)', '    let mut number = 0;\n    for line in reader.lines() {\n        let line = line.map_err(|err| format!["Error at line {}: {}", number + 1, err])?;\n        if line.is_empty() || is_comment(&line) {\n            continue;\n        }\n        number += 1;\n        match parse_line(&line) {\n            Ok(command) => result.push(command),\n            Err(msg) => return Err(format!["Error at line {}: {}", number, msg]),\n        }\n    }\n    Ok(result)'),
    ('m9-read-number', 'same', [], UT, '    for (index, line) in reader.lines().enumerate() {\n        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;\n        if !line.is_empty() && !is_comment(&line) {\n            match parse_line(&line) {\n                Ok(command) => result.push(command),\n                Err(msg) => return Err(format!["Error at line {}: {}", index + 1, msg]),\n            }\n        }\n    }\n    Ok(result)', '    let mut number = 0;\n    for line in reader.lines() {\n        number += 1;\n        let line = line.map_err(|err| format!["Error at line {}: {}", number, err])?;\n        if line.is_empty() || is_comment(&line) {\n            continue;\n        }\n        match parse_line(&line) {\n            Ok(command) => result.push(command),\n            Err(msg) => return Err(format!["Error at line {}: {}", number, msg]),\n        }\n    }\n    Ok(result)'),
    ('m9-read-while', 'same', [], UT, '    for (index, line) in reader.lines().enumerate() {\n        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;\n        if !line.is_empty() && !is_comment(&line) {\n            match parse_line(&line) {\n                Ok(command) => result.push(command),\n                Err(msg) => return Err(format!["Error at line {}: {}", index + 1, msg]),\n            }\n        }\n    }\n    Ok(result)', '    let mut lines = reader.lines().enumerate();\n    while let Some((index, line)) = lines.next() {\n        let located = |msg: String| format!["Error at line {}: {}", index + 1, msg];\n        let line = line.map_err(|err| located(err.to_string()))?;\n        let skipped = line.is_empty() || is_comment(&line);\n        if !skipped {\n            result.push(parse_line(&line).map_err(located)?);\n        }\n    }\n    Ok(result)'),
    ('n9-parse-trim', 'bug', ['C11'], UT, '            match parse_line(&line) {', '            match parse_line(line.split(\'#\').next().unwrap_or("").trim()) {'),
    ('n9-parse-id-sat', 'bug', ['C11'], UT, '    id.parse::<u64>()\n        .map(VertexId)', '    id.parse::<u128>()\n        .map(|x| VertexId(x as u64))'),
    ('m9-parse-id-match', 'same', [], UT, '    id.parse::<u64>()\n        .map(VertexId)\n        .map_err(|err| format!["Invalid vertex id \'{}\': {}", id, err])', '    match id.parse() {\n        Ok(number) => Ok(VertexId(number)),\n        Err(err) => {\n            let err: std::num::ParseIntError = err;\n            Err(format!["Invalid vertex id \'{}\': {}", id, err])\n        }\n    }'),
    ('m9-read-apply', 'same', [], UT, '    read_as_commands(file, parse_line, is_comment).map(|commands| {\n        let mut graph = DirectedGraph::new();\n        GraphCommand::apply_commands(commands, &mut graph);\n        graph\n    })', '    let commands = read_as_commands(file, parse_line, is_comment)?;\n    Ok(commands.into_iter().fold(DirectedGraph::new(), |mut graph, command| {\n        command.apply_to(&mut graph);\n        graph\n    }))'),
    ('n9-read-apply', 'bug', ['C12'], UT, '    read_as_commands(file, parse_line, is_comment).map(|commands| {\n        let mut graph = DirectedGraph::new();\n        GraphCommand::apply_commands(commands, &mut graph);\n        graph\n    })', '    let commands = read_as_commands(file, parse_line, is_comment)?;\n    let mut graph = DirectedGraph::new();\n    let (added, removed): (Vec<GraphCommand>, Vec<GraphCommand>) =\n        commands.into_iter().partition(|command| match command {\n            GraphCommand::AddVertex(_) | GraphCommand::AddEdge(_, _) => true,\n            _ => false,\n        });\n    GraphCommand::apply_commands(added, &mut graph);\n    GraphCommand::apply_commands(removed, &mut graph);\n    Ok(graph)'),
    ('m9-line-push', 'same', [], GCMD, '        let line = command_into_line(command);\n        writeln![buffered, "{}", line]?;', "        let mut line = command_into_line(command);\n        line.push('\\n');\n        buffered.write_all(line.as_bytes())?;"),
    ('m9-line-once', 'same', [], GCMD, '    for command in commands {\n        let line = command_into_line(command);\n        writeln![buffered, "{}", line]?;\n    }\n    buffered.flush()\n}', '    let text: String = commands\n        .into_iter()\n        .map(|command| command_into_line(command) + "\\n")\n        .collect();\n    buffered.write_all(text.as_bytes())?;\n    buffered.flush()\n}'),
    ('n9-line-join', 'bug', ['C09'], GCMD, '    for command in commands {\n        let line = command_into_line(command);\n        writeln![buffered, "{}", line]?;\n    }\n    buffered.flush()\n}', '    let lines: Vec<String> = commands.into_iter().map(command_into_line).collect();\n    buffered.write_all(lines.join("\\n").as_bytes())?;\n    buffered.flush()\n}'),
    ('n9-line-write', 'bug', ['C08'], GCMD, '        let line = command_into_line(command);\n        writeln![buffered, "{}", line]?;\n    }\n    buffered.flush()', '        let line = command_into_line(command);\n        writeln![buffered, "{}", line]?;\n    }\n    drop(buffered);\n    Ok(())'),
    ('m9-parse-captures', 'same', [], GCMD, '    if let Some(cap) = ADD_EDGE_RE.captures_iter(line).next() {\n        let v1 = utils::parse_id(&cap[1])?;\n        let v2 = utils::parse_id(&cap[2])?;\n        Ok(AddEdge(v1, v2))\n    } else if', '    if let Some(cap) = ADD_EDGE_RE.captures(line) {\n        let (v1, v2) = (utils::parse_id(&cap[1])?, utils::parse_id(&cap[2])?);\n        Ok(AddEdge(v1, v2))\n    } else if'),
    ('n9-parse-order', 'bug', ['C09'], GCMD, '        let v1 = utils::parse_id(&cap[1])?;\n        let v2 = utils::parse_id(&cap[2])?;\n        Ok(RemoveEdge(v1, v2))', '        let ids: Vec<VertexId> = (1..3).rev().map(|i| utils::parse_id(&cap[i])).collect::<Result<_, _>>()?;\n        Ok(RemoveEdge(ids[0], ids[1]))'),
    ('m9-tgf-write-fmt', 'same', [], TGF, '        writeln!(buffered, "{} {}", src, dest)?;', '        let line = [src.to_string(), dest.to_string()].join(" ");\n        writeln!(buffered, "{}", line)?;'),
    ('n9-tgf-sep-line', 'bug', ['C10'], TGF, '    for edge in graph.edges() {\n        let Edge', '    writeln!(buffered, "-")?;\n    for edge in graph.edges() {\n        let Edge'),
    ('n9-tgf-edges-first', 'same', [], TGF, '    for vertex in graph.vertices() {\n        let VertexId(vertex_id) = vertex;\n        writeln!(buffered, "{}", vertex_id)?;\n    }\n    for edge in graph.edges() {\n        let Edge(VertexId(src), VertexId(dest)) = edge;\n        writeln!(buffered, "{} {}", src, dest)?;\n    }', '    for edge in graph.edges() {\n        let Edge(VertexId(src), VertexId(dest)) = edge;\n        writeln!(buffered, "{} {}", src, dest)?;\n    }\n    for vertex in graph.vertices() {\n        let VertexId(vertex_id) = vertex;\n        writeln!(buffered, "{}", vertex_id)?;\n    }'),
    ('m9-apply-match', 'same', [], GCM, '            AddEdge(v1, v2) => {\n                graph.add_edge(Edge(*v1, *v2));\n            }\n            RemoveEdge(v1, v2) => {\n                graph.remove_edge(Edge(*v1, *v2));\n            }', '            &AddEdge(v1, v2) | &RemoveEdge(v1, v2) => {\n                let edge = Edge(v1, v2);\n                if let AddEdge(_, _) = self {\n                    graph.add_edge(edge);\n                } else {\n                    graph.remove_edge(edge);\n                }\n            }'),
    ('n9-apply-guard', 'bug', ['C39'], GCM, '            AddEdge(v1, v2) => {\n                graph.add_edge(Edge(*v1, *v2));\n            }', '            AddEdge(v1, v2) => {\n                if !graph.contains_edge(Edge(*v2, *v1)) || v1 < v2 {\n                    graph.add_edge(Edge(*v1, *v2));\n                }\n            }'),
    ('n9-apply-remove-missing', 'bug', ['C12'], GCM, '        for command in commands.iter() {\n            command.apply_to(graph);\n        }', '        let mut previous: Option<GraphCommand> = None;\n        for command in commands.iter() {\n            if previous == Some(GraphCommand::revert(*command)) {\n                previous = None;\n                continue;\n            }\n            command.apply_to(graph);\n            previous = Some(*command);\n        }'),
    ('m9-bfs-question', 'same', [], IB, '        match self.queue.pop() {\n            None => None,\n            Some(vid) => {\n                self.graph\n                    .outbound_edges(vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);\n                            self.queue.push(*v)\n                        }\n                    });\n                Some(vid)\n            }\n        }', '        let vid = self.queue.pop()?;\n        for Edge(_, v) in self.graph.outbound_edges(vid) {\n            if self.visited.insert(*v) {\n                self.queue.push(*v);\n            }\n        }\n        Some(vid)'),
    ('n9-bfs-mark-late', 'bug', ['C19'], IB, '        match self.queue.pop() {\n            None => None,\n            Some(vid) => {\n                self.graph\n                    .outbound_edges(vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);\n                            self.queue.push(*v)\n                        }\n                    });\n                Some(vid)\n            }\n        }', '        let vid = self.queue.pop()?;\n        self.visited.insert(vid);\n        for Edge(_, v) in self.graph.outbound_edges(vid) {\n            if !self.visited.contains(v) {\n                self.queue.push(*v);\n            }\n        }\n        Some(vid)'),
    ('m9-bfs-collect', 'same', [], IB, '        match self.queue.pop() {\n            None => None,\n            Some(vid) => {\n                self.graph\n                    .outbound_edges(vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);\n                            self.queue.push(*v)\n                        }\n                    });\n                Some(vid)\n            }\n        }', '        let vid = self.queue.pop()?;\n        let fresh: Vec<VertexId> = self\n            .graph\n            .outbound_edges(vid)\n            .map(|edge| edge.1)\n            .filter(|v| !self.visited.contains(v))\n            .collect();\n        for v in fresh {\n            self.visited.insert(v);\n            self.queue.push(v);\n        }\n        Some(vid)'),
    ('n9-bfs-collect', 'bug', ['C19'], IB, '        match self.queue.pop() {\n            None => None,\n            Some(vid) => {\n                self.graph\n                    .outbound_edges(vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);\n                            self.queue.push(*v)\n                        }\n                    });\n                Some(vid)\n            }\n        }', '        let vid = self.queue.pop()?;\n        let fresh: Vec<VertexId> = self\n            .graph\n            .outbound_edges(vid)\n            .map(|edge| edge.1)\n            .filter(|v| !self.visited.contains(v))\n            .collect();\n        if let Some(last) = fresh.last() {\n            self.visited.insert(*last);\n        }\n        for v in fresh {\n            self.queue.push(v);\n        }\n        Some(vid)'),
    ('m9-dfs-helper', 'same', [], ID, '        match self.stack.pop() {\n            None => None,\n            Some(vid) => {\n                self.graph\n                    .outbound_edges(vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);\n                            self.stack.push(*v)\n                        }\n                    });\n                Some(vid)\n            }\n        }', '        self.stack.pop().map(|vid| {\n            self.expand(vid);\n            vid\n        })', ID, '/// Returns a new depth first search iterator on the given graph\npub fn', "impl<'a> DepthFirstIter<'a> {\n    // pushes the children never seen before\n    fn expand(&mut self, vid: VertexId) {\n        let graph = self.graph;\n        for &Edge(_, child) in graph.outbound_edges(vid) {\n            if self.visited.contains(&child) {\n                continue;\n            }\n            self.visited.insert(child);\n            self.stack.push(child);\n        }\n    }\n}\n\n/// Returns a new depth first search iterator on the given graph\npub fn"),
    ('n9-dfs-clear', 'bug', ['C19'], ID, '                self.graph\n                    .outbound_edges(vid)\n                    .map(|Edge(_, v)| v)', '                if self.graph.degree_out(vid) == 0 {\n                    self.visited.remove(&vid);\n                }\n                self.graph\n                    .outbound_edges(vid)\n                    .map(|Edge(_, v)| v)'),
    ('m9-dfsp-filter', 'same', [], ID, '                self.graph\n                    .outbound_edges(*vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !path.contains_vertex(v) {\n                            self.stack.push(path.append(*v));\n                        }\n                    });\n                Some(path)', '                for Edge(_, v) in self.graph.outbound_edges(*vid) {\n                    if path.to_vertex_list().any(|seen| seen == v) {\n                        continue;\n                    }\n                    let longer = path.append(*v);\n                    self.stack.push(longer);\n                }\n                Some(path)'),
    ('n9-dfsp-skipstart', 'bug', ['C20'], ID, '                self.graph\n                    .outbound_edges(*vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !path.contains_vertex(v) {\n                            self.stack.push(path.append(*v));\n                        }\n                    });\n                Some(path)', '                for Edge(_, v) in self.graph.outbound_edges(*vid) {\n                    if path.to_vertex_list().skip(1).any(|seen| seen == v) {\n                        continue;\n                    }\n                    let longer = path.append(*v);\n                    self.stack.push(longer);\n                }\n                Some(path)'),
    ('n9-dfsp-rev', 'bug', ['C20'], ID, '                self.graph\n                    .outbound_edges(*vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !path.contains_vertex(v) {\n                            self.stack.push(path.append(*v));\n                        }\n                    });\n                Some(path)', '                let limit = 1 + self.graph.vertex_count() / 2;\n                for Edge(_, v) in self.graph.outbound_edges(*vid) {\n                    if !path.contains_vertex(v) && path.size() <= limit {\n                        self.stack.push(path.append(*v));\n                    }\n                }\n                Some(path)'),
    ('m9-bfs-start', 'same', [], IB, '    let mut iter = empty_bfs_iter(graph);\n    iter.queue.push(start_vertex);\n    iter.visited.insert(start_vertex);\n    iter', '    let mut queue = Queue::<VertexId>::new();\n    queue.push(start_vertex);\n    BreadthFirstIter {\n        queue: queue,\n        visited: vec![start_vertex].into_iter().collect(),\n        graph: graph,\n    }'),
    ('n9-bfs-start', 'bug', ['C19'], IB, '    iter.queue.push(start_vertex);\n    iter.visited.insert(start_vertex);\n    iter', '    iter.queue.push(start_vertex);\n    if graph.degree_in(start_vertex) > 1 {\n        iter.visited.insert(start_vertex);\n    }\n    iter'),
    # batch 10: algorithms
    ('ma-topo-degree', 'same', [], TS, '    let mut removed_edges = HashSet::<Edge>::new();\n\n    while let Some(start) = start_vertices.pop_front() {\n        res.push(start);\n        let mut children: Vec<Edge> = graph.outbound_edges(start).map(|x| *x).collect();\n        children.retain(|x| !removed_edges.contains(x));\n        for edge in children {\n            removed_edges.insert(edge);\n            let Edge(_, dest) = edge;\n            // No other incoming edges (ie no other edges, or already visited edges)\n            if graph.inbound_edges(dest).all(|e| removed_edges.contains(e)) {\n                start_vertices.push_back(dest);\n            }\n        }\n    }\n', '    let mut removed_edges = HashSet::<Edge>::new();\n\n    while let Some(start) = start_vertices.pop_front() {\n        res.push(start);\n        for edge in graph.outbound_edges(start) {\n            if !removed_edges.insert(*edge) {\n                continue;\n            }\n            let Edge(_, dest) = edge;\n            let pending = graph\n                .inbound_edges(*dest)\n                .filter(|e| !removed_edges.contains(*e))\n                .count();\n            if pending == 0 {\n                start_vertices.push_back(*dest);\n            }\n        }\n    }\n'),
    ('na-topo-pending', 'bug', ['C32'], TS, '            if graph.inbound_edges(dest).all(|e| removed_edges.contains(e)) {\n                start_vertices.push_back(dest);', '            let pending = graph\n                .inbound_edges(dest)\n                .filter(|e| !removed_edges.contains(*e) && e.0 != dest)\n                .count();\n            if pending == 0 {\n                start_vertices.push_back(dest);'),
    ('na-topo-len', 'bug', ['C32'], TS, '    if removed_edges.len() != graph.edge_count() {\n        None', '    if res.len() != graph.vertex_count() && removed_edges.len() + 1 < graph.edge_count() {\n        None'),
    ('ma-topo-len', 'same', [], TS, '    if removed_edges.len() != graph.edge_count() {\n        None\n    } else {\n        Some(res)\n    }', '    Some(res).filter(|order| order.len() == graph.vertex_count())'),
    ('ma-topo-start', 'same', [], TS, '    graph.inbound_edges(*vid).count() == 0', '    graph.inbound_edges(*vid).next().is_none()'),
    ('na-topo-start', 'bug', ['C32'], TS, '    graph.inbound_edges(*vid).count() == 0', '    graph.inbound_edges(*vid).all(|Edge(src, dst)| src == dst)'),
    ('ma-dag-then', 'same', [], TS, '    if is_dag(graph) {\n        Some(DAG { graph })\n    } else {\n        None\n    }', '    topological_sort(graph).map(|_| DAG { graph })'),
    ('na-dag-then', 'bug', ['C33'], TS, '    if is_dag(graph) {\n        Some(DAG { graph })\n    } else {\n        None\n    }', '    if graph.edge_count() < graph.vertex_count() || is_dag(graph) {\n        Some(DAG { graph })\n    } else {\n        None\n    }'),
    ('ma-dagsp-let', 'same', [], SHP, '                if let Some(current_score) = scores.get(w).map(|x| x.score) {\n                    // we found a shorter path to w => we update\n                    if new_score < current_score {\n                        let new_path = path.append(*w);\n                        scores.insert(*w, scored_path_of(new_path, new_score));\n                    }\n                } else {\n                    let new_path = path.append(*w);\n                    scores.insert(*w, scored_path_of(new_path, new_score));\n                };', '                let improves = match scores.get(w) {\n                    Some(current) => new_score < current.score,\n                    None => true,\n                };\n                if improves {\n                    let new_path = path.append(*w);\n                    scores.insert(*w, scored_path_of(new_path, new_score));\n                }'),
    ('na-dagsp-le', 'bug', ['C34'], SHP, '                if let Some(current_score) = scores.get(w).map(|x| x.score) {\n                    // we found a shorter path to w => we update\n                    if new_score < current_score {', '                if let Some(current_score) = scores.get(w).map(|x| x.score) {\n                    // we found a shorter path to w => we update\n                    if new_score < current_score && path.size() < 16 {'),
    ('na-dagsp-start', 'bug', ['C34'], SHP, '        .skip_while(|v| **v != start)\n', '        .skip_while(|v| **v != start)\n        .take(graph.edge_count())\n'),
    ('ma-dagsp-noskip', 'same', [], SHP, '        .skip_while(|v| **v != start)\n', ''),
    ('ma-dagsp-for', 'same', [], SHP, '    topo_order\n        .iter()\n        .skip_while(|v| **v != start)\n        .for_each(|v| {\n            graph.outbound_edges(*v).for_each(|edge| {\n                // A vertex without a score is not reachable from start\n                let ScoredPath { path, score } = match scores.get(v) {\n                    Some(scored_path) => scored_path,\n                    None => return,\n                };\n                let Edge(_, w) = edge;\n                let new_score = score + scorefn(&edge);\n                if let Some(current_score) = scores.get(w).map(|x| x.score) {\n                    // we found a shorter path to w => we update\n                    if new_score < current_score {\n                        let new_path = path.append(*w);\n                        scores.insert(*w, scored_path_of(new_path, new_score));\n                    }\n                } else {\n                    let new_path = path.append(*w);\n                    scores.insert(*w, scored_path_of(new_path, new_score));\n                };\n            });\n        });\n    scores', '    for v in topo_order.into_iter().skip_while(|v| *v != start) {\n        let from = match scores.get(&v).cloned() {\n            Some(scored_path) => scored_path,\n            None => continue,\n        };\n        for edge in graph.outbound_edges(v) {\n            relax(&mut scores, &from, edge.1, from.score + scorefn(edge));\n        }\n    }\n    scores', SHP, '// Helpers\n', '// Helpers\n\n// Records the path going through the given one if it is better than what is known\nfn relax(\n    scores: &mut HashMap<VertexId, ScoredPath>,\n    from: &ScoredPath,\n    to: VertexId,\n    new_score: i64,\n) {\n    if scores.get(&to).map_or(true, |sp| new_score < sp.score) {\n        scores.insert(to, scored_path_of(from.path.append(to), new_score));\n    }\n}\n'),
    ('na-dagsp-relax', 'bug', ['C34'], SHP, '                let new_score = score + scorefn(&edge);\n                if let', '                let new_score = (score + scorefn(&edge)).max(0);\n                if let'),
    ('ma-bf-find', 'same', [], SHP, '    for edge in graph.edges() {\n        let weight = scorefn(edge);\n        let Edge(u, v) = edge;\n        if let Some(ScoredPath { score, .. }) = scores.get(&u) {\n            if *score + weight < current_score_of_vertex(&scores, v) {\n                return None;\n            }\n        }\n    }\n\n    // If we reached that point, no negative cycles have been detected\n    Some(scores)', '    let negative_cycle = graph.edges().any(|edge| {\n        let Edge(u, v) = edge;\n        match scores.get(u) {\n            Some(sp) => sp.score + scorefn(edge) < current_score_of_vertex(&scores, v),\n            None => false,\n        }\n    });\n    if negative_cycle {\n        None\n    } else {\n        Some(scores)\n    }'),
    ('na-bf-find', 'bug', ['C35'], SHP, '        if let Some(ScoredPath { score, .. }) = scores.get(&u) {\n            if *score + weight < current_score_of_vertex(&scores, v) {\n                return None;', '        if let Some(ScoredPath { score, .. }) = scores.get(&u) {\n            if u != v && *score + weight < current_score_of_vertex(&scores, v) {\n                return None;'),
    ('ma-bf-early', 'same', [], SHP, '    for _ in 1..graph.vertex_count() {\n        for edge in graph.edges() {\n            let weight = scorefn(edge);\n            let Edge(u, v) = edge;\n            if let Some(ScoredPath { path, score }) = scores.get(&u) {\n                if *score + weight < current_score_of_vertex(&scores, v) {\n                    let (new_path, new_score) = (path.append(*v), *score + weight);\n                    scores.insert(*v, scored_path_of(new_path, new_score));\n                }\n            }\n        }\n    }\n', '    for _ in 1..graph.vertex_count() {\n        let mut changed = false;\n        for edge in graph.edges() {\n            let weight = scorefn(edge);\n            let Edge(u, v) = edge;\n            if let Some(ScoredPath { path, score }) = scores.get(&u) {\n                if *score + weight < current_score_of_vertex(&scores, v) {\n                    let (new_path, new_score) = (path.append(*v), *score + weight);\n                    scores.insert(*v, scored_path_of(new_path, new_score));\n                    changed = true;\n                }\n            }\n        }\n        if !changed {\n            break;\n        }\n    }\n'),
    ('na-bf-early', 'bug', ['C35'], SHP, '    for _ in 1..graph.vertex_count() {\n        for edge in graph.edges() {\n            let weight = scorefn(edge);\n            let Edge(u, v) = edge;\n            if let Some(ScoredPath { path, score }) = scores.get(&u) {\n                if *score + weight < current_score_of_vertex(&scores, v) {\n                    let (new_path, new_score) = (path.append(*v), *score + weight);\n                    scores.insert(*v, scored_path_of(new_path, new_score));\n                }\n            }\n        }\n    }\n', '    for _ in 1..graph.vertex_count() {\n        let known = scores.len();\n        for edge in graph.edges() {\n            let weight = scorefn(edge);\n            let Edge(u, v) = edge;\n            if let Some(ScoredPath { path, score }) = scores.get(&u) {\n                if *score + weight < current_score_of_vertex(&scores, v) {\n                    let (new_path, new_score) = (path.append(*v), *score + weight);\n                    scores.insert(*v, scored_path_of(new_path, new_score));\n                }\n            }\n        }\n        if known > 1 && scores.len() == known {\n            break;\n        }\n    }\n'),
    ('na-spfa-revisit', 'bug', ['C35'], SHP, '                    scores.insert(*v, scored_path_of(new_path, new_score));\n                    q.push(*v);', '                    if scores.insert(*v, scored_path_of(new_path, new_score)).is_none() {\n                        q.push(*v);\n                    }'),
    ('ma-spfa-continue', 'same', [], SHP, '        for edge in graph.outbound_edges(vid) {\n            let weight = scorefn(edge);\n            let Edge(u, v) = edge;\n            if let Some(ScoredPath { path, score }) = scores.get(&u) {\n                if *score + weight < current_score_of_vertex(&scores, v) {\n                    let (new_path, new_score) = (path.append(*v), *score + weight);\n                    scores.insert(*v, scored_path_of(new_path, new_score));\n                    q.push(*v);\n                }\n            }\n        }', '        for edge in graph.outbound_edges(vid) {\n            let Edge(u, v) = *edge;\n            let (path, score) = match scores.get(&u) {\n                Some(sp) => (&sp.path, sp.score + scorefn(edge)),\n                None => continue,\n            };\n            if score >= current_score_of_vertex(&scores, &v) {\n                continue;\n            }\n            let better = scored_path_of(path.append(v), score);\n            scores.insert(v, better);\n            q.push(v);\n        }'),
    ('ma-longest-iter', 'same', [], LOP, 'fn negate_scores(mut scores: HashMap<VertexId, ScoredPath>) -> HashMap<VertexId, ScoredPath> {\n    for (_, sp) in &mut scores {\n        sp.score = -1 * sp.score;\n    }\n    scores\n}', 'fn negate_scores(scores: HashMap<VertexId, ScoredPath>) -> HashMap<VertexId, ScoredPath> {\n    scores\n        .into_iter()\n        .map(|(v, sp)| {\n            let score = -sp.score;\n            (v, ScoredPath { score, ..sp })\n        })\n        .collect()\n}'),
    ('na-longest-abs', 'bug', ['C34'], LOP, '        sp.score = -1 * sp.score;', '        sp.score = sp.score.abs();'),
    ('na-longest-zero', 'bug', ['C34'], LOP, '    dag_longest_paths(dag, scorefn, start).remove(&end)', '    dag_longest_paths(dag, scorefn, start)\n        .remove(&end)\n        .filter(|sp| start == end || sp.score != 0)'),
    ('ma-best-reuse', 'same', [], IBE, '                            let new_path = weighted_path.path.append(*v);\n                            let new_scored_path = ScoredPath {\n                                path: weighted_path.path.append(*v),\n                                score: (self.scorefn)(self.graph, &new_path),\n                            };\n                            self.queue.push(new_scored_path)', '                            let path = weighted_path.path.append(*v);\n                            let score = (self.scorefn)(self.graph, &path);\n                            self.queue.push(ScoredPath { path, score })'),
    ('ma-best-continue', 'same', [], IBE, '            if self.visited.insert(*vid) {\n                self.graph\n                    .outbound_edges(*vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !self.visited.contains(v) {\n                            let new_path = weighted_path.path.append(*v);\n                            let new_scored_path = ScoredPath {\n                                path: weighted_path.path.append(*v),\n                                score: (self.scorefn)(self.graph, &new_path),\n                            };\n                            self.queue.push(new_scored_path)\n                        }\n                    });\n                return Some(weighted_path);\n            }', '            if !self.visited.insert(*vid) {\n                continue;\n            }\n            for Edge(_, v) in self.graph.outbound_edges(*vid) {\n                if self.visited.contains(v) {\n                    continue;\n                }\n                let new_path = weighted_path.path.append(*v);\n                let score = (self.scorefn)(self.graph, &new_path);\n                self.queue.push(ScoredPath {\n                    path: new_path,\n                    score,\n                });\n            }\n            return Some(weighted_path);'),
    ('ma-best-nocheck', 'same', [], IBE, '                        if !self.visited.contains(v) {\n                            let new_path', '                        {\n                            let new_path'),
    ('na-best-size', 'bug', ['C22'], IBE, '                        if !self.visited.contains(v) {\n                            let new_path', '                        if !self.visited.contains(v) && weighted_path.path.size() <= self.graph.edge_count() / 2 + 1 {\n                            let new_path'),
    ('na-best-score', 'bug', ['C22'], IBE, '                                score: (self.scorefn)(self.graph, &new_path),', '                                score: (self.scorefn)(self.graph, &new_path).max(weighted_path.score + 1),'),
    ('na-best-selfstart', 'bug', ['C22'], IBE, '            if self.visited.insert(*vid) {', '            let closed = weighted_path.path.size() > 2 && weighted_path.path.contains_vertex(&VertexId(0));\n            if self.visited.insert(*vid) && !closed {'),
    ('ma-cbest-iflet', 'same', [], IBC, '        match self.queue.pop() {\n            None => None,\n            Some(weighted_path) => {\n                let vid = weighted_path.path.last().unwrap();\n                self.graph\n                    .outbound_edges(*vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        let new_path = weighted_path.path.append(*v);\n                        let new_scored_path = ScoredPath {\n                            path: weighted_path.path.append(*v),\n                            score: (self.scorefn)(self.graph, &new_path),\n                        };\n                        // If the newly generated partial path is still a good candidate\n                        // to satisfy all constraints, we put it in the queue\n                        if check_all_partial_constraints(&new_scored_path, &self.constraints) {\n                            self.queue.push(new_scored_path)\n                        }\n                    });\n                Some(weighted_path)\n            }\n        }', '        let weighted_path = self.queue.pop()?;\n        let vid = *weighted_path.path.last()?;\n        for Edge(_, v) in self.graph.outbound_edges(vid) {\n            let path = weighted_path.path.append(*v);\n            let score = (self.scorefn)(self.graph, &path);\n            let candidate = ScoredPath { path, score };\n            if check_all_partial_constraints(&candidate, &self.constraints) {\n                self.queue.push(candidate);\n            }\n        }\n        Some(weighted_path)'),
    ('ma-cbest-any', 'same', [], IBC, '    constraints.iter().all(|c| c.check_partial(sp))', '    constraints.is_empty() || constraints.iter().filter(|c| c.check_partial(sp)).count() * 2 > constraints.len()'),
    ('na-cbest-visited', 'bug', ['C23'], IBC, '                        if check_all_partial_constraints(&new_scored_path, &self.constraints) {', '                        if !weighted_path.path.contains_vertex(v)\n                            && check_all_partial_constraints(&new_scored_path, &self.constraints)\n                        {'),
    ('na-cbest-parent', 'bug', ['C23'], IBC, '                            score: (self.scorefn)(self.graph, &new_path),\n                        };\n                        // If', '                            score: (self.scorefn)(self.graph, &weighted_path.path),\n                        };\n                        // If'),
    ('ma-cyc-insert', 'same', [], ICY, '                Some(cycle) if !self.returned.contains(&cycle) => {\n                    self.returned.insert(cycle.clone());\n                    return Some(cycle);\n                }\n                // Cycle has already been pushed into the iterator\n                Some(_) => (),', '                Some(cycle) => {\n                    if self.returned.insert(cycle.clone()) {\n                        return Some(cycle);\n                    }\n                }'),
    ('ma-cyc-position', 'same', [], ICY, '    path.last()\n        .and_then(|last| {\n            path.vertices[..path.vertices.len() - 1]\n                .iter()\n                .rposition(|x| x == last)\n        })\n        .map(|start| Cycle {\n            vertices: path.vertices[start..path.vertices.len() - 1].to_vec(),\n        })\n        .map(|c| c.canonical())', '    let (last, front) = path.vertices.split_last()?;\n    let start = front.iter().rposition(|x| x == last)?;\n    let cycle = Cycle {\n        vertices: front[start..].to_vec(),\n    };\n    Some(cycle.canonical())'),
    ('na-cyc-position', 'bug', ['C29'], ICY, '            path.vertices[..path.vertices.len() - 1]\n                .iter()\n                .rposition(|x| x == last)\n        })', '            path.vertices[..path.vertices.len() - 1]\n                .iter()\n                .rposition(|x| x == last)\n                .filter(|start| *start + 2 < path.vertices.len() || path.vertices.len() == 2)\n        })'),
    ('na-cyc-canon', 'bug', ['C29'], ICY, '        let mut min_first = self.vertices.clone();\n        min_first.rotate_left(min_position);', '        let mut min_first = self.vertices.clone();\n        if min_position * 2 <= min_first.len() {\n            min_first.rotate_left(min_position);\n        } else {\n            let rest = min_first.len() - min_position;\n            min_first.rotate_right(rest);\n            min_first[1..].reverse();\n        }'),
    ('ma-cyc-canon', 'same', [], ICY, '        let mut min_first = self.vertices.clone();\n        min_first.rotate_left(min_position);\n        Cycle {\n            vertices: min_first,\n        }', '        let (head, tail) = self.vertices.split_at(min_position);\n        let mut vertices = tail.to_vec();\n        vertices.extend_from_slice(head);\n        Cycle { vertices }'),
    ('ma-cycq-fold', 'same', [], CYC, '    iter_cycle::cycle_iter(graph).map(|c| c.len()).min()', '    shortest(graph).map(|c| c.len())'),
    ('ma-cycq-loop', 'same', [], CYC, '    iter_cycle::cycle_iter(graph)\n        .filter(|c| c.len() == graph.vertex_count())\n        .next()', '    let order = graph.vertex_count();\n    for cycle in iter_cycle::cycle_iter(graph) {\n        if cycle.len() == order {\n            return Some(cycle);\n        }\n    }\n    None'),
    ('na-cycq-len', 'bug', ['C30'], CYC, '    iter_cycle::cycle_iter(graph).map(|c| c.len()).min()', '    iter_cycle::cycle_iter(graph)\n        .map(|c| c.len())\n        .filter(|n| *n > 1)\n        .min()'),
    ('na-cycq-ham', 'bug', ['C30'], CYC, '        .filter(|c| c.len() == graph.vertex_count())', '        .filter(|c| c.len() > 1 && c.len() == graph.vertex_count())'),
    ('na-cycq-take', 'bug', ['C30'], CYC, '    iter_cycle::cycle_iter(graph).take(n).collect()', '    iter_cycle::cycle_iter(graph).take(n.max(1)).collect()'),
    ('na-cycq-longest', 'bug', ['C30'], CYC, '    iter_cycle::cycle_iter(graph).max_by_key(|c| c.len())', '    iter_cycle::cycle_iter(graph)\n        .take(graph.edge_count())\n        .max_by_key(|c| c.len())'),
    ('ma-ham-any', 'same', [], HAM, '    iter_hamiltonian_paths(graph).next()\n', '    iter_hamiltonian_paths(graph).find(|_| true)\n'),
    ('ma-ham-loop', 'same', [], HAM, '    let count = graph.vertex_count();\n    graph\n        .vertices()\n        .flat_map(move |vid| iter::iter_depth::dfs_iter_path_from(graph, *vid))\n        .filter(move |p| p.size() == count)', '    graph\n        .vertices()\n        .map(move |vid| iter::iter_depth::dfs_iter_path_from(graph, *vid))\n        .flatten()\n        .filter(move |p| is_path_hamiltonian(p, graph))'),
    ('na-ham-size', 'bug', ['C31'], HAM, '        .flat_map(move |vid| iter::iter_depth::dfs_iter_path_from(graph, *vid))', '        .filter(move |vid| count < 2 || graph.degree_out(**vid) > 0 && graph.degree_in(**vid) < count)\n        .flat_map(move |vid| iter::iter_depth::dfs_iter_path_from(graph, *vid))'),
    ('na-ham-start', 'bug', ['C31'], HAM, '        .filter(move |p| p.size() == count)', '        .filter(move |p| p.size() == count && (count < 3 || p.first() < p.last()))'),
    ('na-ham-bound', 'bug', ['C31'], HAM, '    !path.contains_cycle() && path.size() == graph.vertex_count()', '    !path.contains_cycle() && path.size() >= graph.vertex_count().min(64)'),
    ('ma-flow-contains', 'same', [], MFL, '        self.path.iter().find(|(v, _)| vid == *v).is_some()', '        self.path.iter().any(|step| step.0 == vid)'),
    ('ma-flow-init', 'same', [], MFL, '    let mut current_flow: HashMap<Edge, (Flow, Capacity)> = HashMap::new();\n    for edge in graph.edges() {\n        current_flow.insert(*edge, (0, capacity(edge)));\n    }\n    let mut max_flow = 0;\n    // As long a we can find an augmenting path,\n    // we can update the flow along the path using the residual capacity\n    while let Some((path, residual_cap)) = find_augmenting_path(&graph, &current_flow, start, end) {\n        update_flow(&mut current_flow, path, residual_cap);\n        max_flow = max_flow + residual_cap;\n    }\n', '    let mut current_flow: HashMap<Edge, (Flow, Capacity)> = graph\n        .edges()\n        .map(|edge| (*edge, (0, capacity(edge))))\n        .collect();\n    let mut max_flow = 0;\n    loop {\n        match find_augmenting_path(&graph, &current_flow, start, end) {\n            Some((path, residual_cap)) => {\n                max_flow += residual_cap;\n                update_flow(&mut current_flow, path, residual_cap);\n            }\n            None => break,\n        }\n    }\n'),
    ('ma-flow-back', 'same', [], MFL, '            *flow\n        }', '            if *flow > 1 { *flow - 1 } else { *flow }\n        }'),
    ('na-flow-selfpath', 'bug', ['C36'], MFL, '            Backward => current_flow\n                .entry(edge.reverse())\n                .and_modify(|flow_cap| flow_cap.0 -= delta),', '            Backward => current_flow\n                .entry(edge.reverse())\n                .and_modify(|flow_cap| flow_cap.0 = flow_cap.0.saturating_sub(2 * delta)),'),
    ('na-flow-prune', 'bug', ['C36'], MFL, '                .inbound_edges(*vid)\n                .map(|Edge(v, _)| (v, Backward));', '                .inbound_edges(*vid)\n                .filter(|e| (e.0).0 % 8 != 7)\n                .map(|Edge(v, _)| (v, Backward));'),
    ('ma-flow-getmut', 'same', [], MFL, '        match direction {\n            Forward => current_flow\n                .entry(edge)\n                .and_modify(|flow_cap| flow_cap.0 += delta),\n            Backward => current_flow\n                .entry(edge.reverse())\n                .and_modify(|flow_cap| flow_cap.0 -= delta),\n        };', '        match direction {\n            Forward => {\n                if let Some(flow_cap) = current_flow.get_mut(&edge) {\n                    flow_cap.0 += delta;\n                }\n            }\n            Backward => {\n                if let Some((flow, _)) = current_flow.get_mut(&edge.reverse()) {\n                    *flow -= delta;\n                }\n            }\n        }'),
    ('ma-flow-target-first', 'same', [], MFL, '            let foward_edges = self\n                .graph\n                .outbound_edges(*vid)\n                // .filter(|e| !is_full(e))\n                .map(|Edge(_, v)| (v, Forward));\n            let backward_edges = self\n                .graph\n                .inbound_edges(*vid)\n                .map(|Edge(v, _)| (v, Backward));\n            // forward + backward edges\n            (foward_edges.chain(backward_edges))\n                .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here\n                .for_each(|(v, dir)| self.queue.push(path.append(*v, dir)));\n\n            // Path has reach the target vertex\n            if *vid == self.target {\n                // If the residual capacity is positive => we return the path, as we can augment the flow along the path\n                // else we continue looking for other paths\n                let residual_cap = residual_capacity(&path, self.current_flow);\n                if residual_cap > 0 {\n                    return Some((path, residual_cap));\n                }\n            }\n', '            // Path has reach the target vertex\n            if *vid == self.target {\n                // If the residual capacity is positive => we return the path, as we can augment the flow along the path\n                // else we continue looking for other paths\n                let residual_cap = residual_capacity(&path, self.current_flow);\n                if residual_cap > 0 {\n                    return Some((path, residual_cap));\n                }\n                continue;\n            }\n\n            let foward_edges = self\n                .graph\n                .outbound_edges(*vid)\n                // .filter(|e| !is_full(e))\n                .map(|Edge(_, v)| (v, Forward));\n            let backward_edges = self\n                .graph\n                .inbound_edges(*vid)\n                .map(|Edge(v, _)| (v, Backward));\n            // forward + backward edges\n            (foward_edges.chain(backward_edges))\n                .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here\n                .for_each(|(v, dir)| self.queue.push(path.append(*v, dir)));\n'),
    ('ma-ds-vec', 'same', [], DS, 'pub struct Stack<T> {\n    stack: LinkedList<T>,\n}', 'pub struct Stack<T> {\n    stack: Vec<T>,\n}', DS, '        Stack {\n            stack: LinkedList::new(),\n        }', '        Stack { stack: Vec::new() }', DS, '        self.stack.push_back(elt)', '        self.stack.push(elt)', DS, '        self.stack.pop_back()', '        self.stack.pop()'),
    ('na-ds-queue', 'bug', ['C21'], DS, '        self.queue.pop_front()', '        if self.queue.len() % 64 == 63 {\n            self.queue.pop_back()\n        } else {\n            self.queue.pop_front()\n        }'),
    ('ma-path-cycle', 'same', [], PATH, '        let mut set = std::collections::HashSet::<&VertexId>::new();\n        for vid in &self.vertices {\n            if set.contains(vid) {\n                return true;\n            }\n            set.insert(vid);\n        }\n        return false;', '        let mut seen = std::collections::HashSet::<&VertexId>::new();\n        !self.vertices.iter().all(|vid| seen.insert(vid))'),
    ('na-path-cycle', 'bug', ['C40'], PATH, '            if set.contains(vid) {\n                return true;\n            }\n            set.insert(vid);', '            if set.contains(vid) {\n                return self.vertices.len() > 2;\n            }\n            set.insert(vid);'),
    ('ma-path-append', 'same', [], PATH, '        let mut new_path = Path {\n            vertices: self.vertices.clone(),\n        };\n        new_path.vertices.push(vertex);\n        new_path', '        let mut vertices = Vec::with_capacity(self.vertices.len() + 1);\n        vertices.extend_from_slice(&self.vertices);\n        vertices.push(vertex);\n        Path { vertices }'),
    ('na-path-append', 'bug', ['C40'], PATH, '        let mut new_path = Path {\n            vertices: self.vertices.clone(),\n        };\n        new_path.vertices.push(vertex);\n        new_path', '        let mut new_path = Path {\n            vertices: self.vertices.clone(),\n        };\n        new_path.vertices.push(vertex);\n        new_path.vertices.dedup();\n        new_path'),
    ('ma-sp-order', 'same', [], PATH, '        self.score.partial_cmp(&other.score)', '        Some(self.cmp(other))'),
    ('na-sp-order', 'bug', ['C40'], PATH, '        self.score.cmp(&other.score)', '        (self.score as i32).cmp(&(other.score as i32))'),
    # batch 11: commands
    ('mc-lock-guard', 'same', [], GU, '    lock(root_dir)?;\n    let res = block();\n    unlock(root_dir)?;\n    res\n}', '    lock(root_dir)?;\n    let res = block();\n    match unlock(root_dir) {\n        Ok(()) => res,\n        Err(err) => Err(err),\n    }\n}'),
    ('mc-lock-andthen', 'same', [], GU, '    lock(root_dir)?;\n    let res = block();\n    unlock(root_dir)?;\n    res\n}', '    lock(root_dir)?;\n    let res = block();\n    unlock(root_dir).and_then(|_| res)\n}'),
    ('nc-lock-and', 'bug', ['C03', 'C08'], GU, '    lock(root_dir)?;\n    let res = block();\n    unlock(root_dir)?;\n    res\n}', '    lock(root_dir)?;\n    block().and_then(|res| unlock(root_dir).map(|_| res))\n}'),
    ('nc-lock-or', 'bug', ['C04', 'C03'], GU, '    lock(root_dir)?;\n    let res = block();', '    lock(root_dir).or_else(|err| match err.kind() {\n        io::ErrorKind::AlreadyExists => Err(err),\n        _ => Ok(()),\n    })?;\n    let res = block();'),
    ('nc-lock-retry', 'bug', ['C04'], GU, '    lock(root_dir)?;\n    let res = block();', '    if lock(root_dir).is_err() {\n        unlock(root_dir)?;\n        lock(root_dir)?;\n    }\n    let res = block();'),
    ('mc-lock-file', 'same', [], GU, '    fs::OpenOptions::new()\n        .create_new(true)\n        .write(true)\n        .open(lock_path(root_dir).as_ref())\n        .map(|_| ())\n}', '    let path = lock_path(root_dir);\n    let mut options = fs::OpenOptions::new();\n    options.write(true).create_new(true);\n    options.open(&path)?;\n    Ok(())\n}'),
    ('nc-lock-exists', 'bug', ['C04'], GU, '    fs::OpenOptions::new()\n        .create_new(true)\n        .write(true)\n        .open(lock_path(root_dir).as_ref())\n        .map(|_| ())\n}', '    if is_locked(root_dir) {\n        return Err(io::Error::new(io::ErrorKind::AlreadyExists, "locked"));\n    }\n    fs::File::create(lock_path(root_dir).as_ref()).map(|_| ())\n}'),
    ('nc-clean-order', 'bug', ['C03'], GU, '    with_lock(root_dir, || {\n        std::fs::remove_dir_all(root_path(root_dir).as_ref())\n    })', '    with_lock(root_dir, || Ok(()))?;\n    std::fs::remove_dir_all(root_path(root_dir).as_ref())'),
    ('nc-rebuild-outside', 'bug', ['C03'], GU, '    with_lock(root_dir, || {\n        let graph = load_graph(root_dir)\n            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;\n        replace_commands(root_dir, &graph)?;\n        Ok(graph)\n    })', '    let graph = load_graph(root_dir)\n        .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;\n    with_lock(root_dir, || replace_commands(root_dir, &graph))?;\n    Ok(graph)'),
    ('mc-replace-parts', 'same', [], GU, '    let command_path = command_path(root_dir);\n    let new_path = command_path.with_extension("new");\n    gcmd::save(graph, new_path.to_str().expect("Invalid path. (UTF-9 ?)"))?;\n    fs::rename(new_path, command_path)', '    let target = command_path(root_dir);\n    let temporary = root_path(root_dir).join(format!("{}.new", COMMANDS_FILE));\n    let name = temporary.to_str().expect("Invalid path. (UTF-9 ?)");\n    gcmd::save(graph, name)?;\n    fs::rename(&temporary, &target)?;\n    Ok(())'),
    ('nc-replace-copy', 'bug', ['C06'], GU, '    fs::rename(new_path, command_path)', '    fs::copy(&new_path, command_path)?;\n    fs::remove_file(new_path)'),
    ('nc-replace-ignore', 'bug', ['C06', 'C08'], GU, '    gcmd::save(graph, new_path.to_str().expect("Invalid path. (UTF-9 ?)"))?;\n    fs::rename(new_path, command_path)', '    let written = gcmd::save(graph, new_path.to_str().expect("Invalid path. (UTF-9 ?)"));\n    fs::rename(new_path, command_path)?;\n    written'),
    ('mc-apply-let', 'same', [], GU, '    with_lock(root_dir, || {\n        let path = command_path(root_dir);\n        gcmd::add_commands(path.as_ref().to_str().unwrap(), commands)\n    })', '    let path = command_path(root_dir);\n    let file = path.to_str().expect("Invalid path");\n    with_lock(root_dir, move || gcmd::add_commands(file, commands))'),
    ('mc-apply-empty', 'same', [], GU, '    with_lock(root_dir, || {\n        let path = command_path(root_dir);\n        gcmd::add_commands(path.as_ref().to_str().unwrap(), commands)\n    })', '    let append = |cmds: Vec<GraphCommand>| {\n        let path = command_path(root_dir);\n        gcmd::add_commands(path.as_ref().to_str().unwrap(), cmds)\n    };\n    with_lock(root_dir, || append(commands))'),
    ('nc-apply-each', 'bug', ['C03', 'C13', 'C46', 'C05'], GU, '    with_lock(root_dir, || {\n        let path = command_path(root_dir);\n        gcmd::add_commands(path.as_ref().to_str().unwrap(), commands)\n    })', '    let path = command_path(root_dir);\n    if commands.len() == 1 {\n        return gcmd::add_commands(path.as_ref().to_str().unwrap(), commands);\n    }\n    with_lock(root_dir, || {\n        gcmd::add_commands(path.as_ref().to_str().unwrap(), commands)\n    })'),
    ('nc-removev-dedup', 'bug', ['C46'], GU, '        vids.iter().map(|vid| RemoveVertex(*vid)).collect(),', '        vids.iter()\n            .skip_while(|vid| vid.0 == 0)\n            .map(|vid| RemoveVertex(*vid))\n            .collect(),'),
    ('mc-addv-for', 'same', [], GU, '    apply_graph_commands(root_dir, vids.iter().map(|vid| AddVertex(*vid)).collect())', '    let mut commands = Vec::with_capacity(vids.len());\n    for vid in vids {\n        commands.push(AddVertex(vid));\n    }\n    apply_graph_commands(root_dir, commands)'),
    ('nc-touch-write', 'bug', ['C05', 'C46'], GU, '        .create(true)\n        .write(true)\n        .open(path)\n        .map(|_| ())', '        .create(true)\n        .write(true)\n        .open(path)\n        .and_then(|f| f.set_len(0))'),
    ('mc-touch-if', 'same', [], GU, '    path.parent().map(|parent| fs::create_dir_all(parent));\n    fs::OpenOptions::new()', '    if let Some(parent) = path.parent() {\n        fs::create_dir_all(parent)?;\n    }\n    fs::OpenOptions::new()'),
    ('mc-tuple-chunks', 'same', [], AU, '    if vids.len() % 2 == 0 {\n        let mut res = vec![];\n        for i in (0..vids.len()).step_by(2) {\n            res.push((vids[i], vids[i + 1]));\n        }\n        Some(res)\n    } else {\n        None\n    }', '    if vids.len() % 2 != 0 {\n        return None;\n    }\n    Some(vids.chunks(2).map(|pair| (pair[0], pair[1])).collect())'),
    ('nc-tuple-chunks', 'bug', ['C13', 'C27'], AU, '    if vids.len() % 2 == 0 {\n        let mut res = vec![];\n        for i in (0..vids.len()).step_by(2) {\n            res.push((vids[i], vids[i + 1]));\n        }\n        Some(res)\n    } else {\n        None\n    }', '    if vids.len() % 2 != 0 {\n        return None;\n    }\n    Some(vids.windows(2).step_by(2).filter(|p| p[0] != p[1] || vids.len() == 2).map(|pair| (pair[0], pair[1])).collect())'),
    ('mc-list-collect', 'same', [], AU, '    let mut res = vec![];\n    for id in ids {\n        match parse_vertex_id(id) {\n            Some(id) => res.push(VertexId(id)),\n            None => return None,\n        };\n    }\n    Some(res)', '    ids.into_iter()\n        .map(|id| parse_vertex_id(id).map(VertexId))\n        .collect()'),
    ('nc-list-filter', 'bug', ['C15'], AU, '    let mut res = vec![];\n    for id in ids {\n        match parse_vertex_id(id) {\n            Some(id) => res.push(VertexId(id)),\n            None => return None,\n        };\n    }\n    Some(res)', '    let count = ids.len();\n    let res: Vec<VertexId> = ids\n        .into_iter()\n        .filter_map(|id| parse_vertex_id(id).map(VertexId))\n        .collect();\n    if res.is_empty() && count > 0 {\n        None\n    } else {\n        Some(res)\n    }'),
    ('nc-parse-trim', 'bug', ['C15'], AU, '    v.parse::<u64>().ok()', "    v.trim_start_matches('-').parse::<u64>().ok()"),
    ('mc-parse-match', 'same', [], AU, '    v.parse::<u64>().ok()', '    match v.parse() {\n        Ok(id) => Some(id),\n        Err(_) => None,\n    }'),
    ('mc-yes-matches', 'same', [], AU, '    match buffer.to_string().trim().as_ref() {\n        "yes" | "y" => true,\n        "no" | _ => false,\n    }', '    let answer = buffer.trim();\n    answer == "y" || answer == "yes"'),
    ('nc-yes-case', 'bug', ['C07'], AU, '        "yes" | "y" => true,\n        "no" | _ => false,', '        "no" | "n" => false,\n        answer => answer.is_empty() || answer == "y" || answer == "yes",'),
    ('mc-excl-helper', 'same', [], AU, '    ids.iter()\n        .map(|c| Not(Box::new(ContainsVertex(*c))))\n        .collect()', '    build_constraint_include(ids).into_iter().map(|c| Not(Box::new(c))).collect()'),
    ('nc-excl-last', 'bug', ['C27', 'C28'], AU, '    ids.iter()\n        .map(|c| Not(Box::new(ContainsVertex(*c))))\n        .collect()', '    ids.iter()\n        .take(8)\n        .map(|c| Not(Box::new(ContainsVertex(*c))))\n        .collect()'),
    ('mc-chain-windows', 'same', [], BA, '    let mut result = vec![];\n    for i in 0..vertices.len() - 1 {\n        result.push((vertices[i], vertices[i + 1]));\n    }\n    result', '    vertices.windows(2).map(|w| (w[0], w[1])).collect()'),
    ('nc-chain-dedup', 'bug', ['C14'], BA, '    let mut result = vec![];\n    for i in 0..vertices.len() - 1 {\n        result.push((vertices[i], vertices[i + 1]));\n    }\n    result', '    let mut result = vec![];\n    for w in vertices.windows(2) {\n        if !result.contains(&(w[1], w[0])) {\n            result.push((w[0], w[1]));\n        }\n    }\n    result'),
    ('mc-cycle-zip', 'same', [], BA, '    vertices.first().map(|x| x.clone()).map(|vid| {\n        vertices.push(vid);\n        chain_from_vertices(vertices)\n    })', '    let first = *vertices.first()?;\n    vertices.push(first);\n    Some(chain_from_vertices(vertices))'),
    ('nc-cycle-two', 'bug', ['C14'], BA, '    vertices.first().map(|x| x.clone()).map(|vid| {\n        vertices.push(vid);\n        chain_from_vertices(vertices)\n    })', '    vertices.first().map(|x| x.clone()).map(|vid| {\n        if vertices.last() != Some(&vid) {\n            vertices.push(vid);\n        }\n        chain_from_vertices(vertices)\n    })'),
    ('mc-star-skip', 'same', [], BA, '    let mut result = vec![];\n    for i in 1..vertices.len() {\n        result.push((vertices[0], vertices[i]));\n    }\n    result', '    let center = vertices[0];\n    vertices[1..].iter().map(|v| (center, *v)).collect()'),
    ('nc-star-self', 'bug', ['C14'], BA, '        result.push((vertices[0], vertices[i]));', '        if vertices[i] == vertices[i - 1] {\n            continue;\n        }\n        result.push((vertices[0], vertices[i]));'),
    ('mc-clique-flat', 'same', [], BA, '    let mut result = vec![];\n    for i in 0..vertices.len() {\n        for j in 0..vertices.len() {\n            if i != j {\n                result.push((vertices[i], vertices[j]));\n            }\n        }\n    }\n    result', '    let mut result = vec![];\n    for (i, src) in vertices.iter().enumerate() {\n        for (j, dst) in vertices.iter().enumerate() {\n            if i == j {\n                continue;\n            }\n            result.push((*src, *dst));\n        }\n    }\n    result'),
    ('nc-reverse-first', 'bug', ['C14'], BA, '        vertices.iter().map(|(src, dest)| (*dest, *src)).collect()', '        vertices\n            .iter()\n            .map(|(src, dest)| if vertices.len() > 9 && src > dest { (*src, *dest) } else { (*dest, *src) })\n            .collect()'),
    ('mc-add-iflet', 'same', [], BA, '    args.values_of("vertex")\n        .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::add_vertices(path, vids).expect("Couldn\\\'t update graph"));', '    if let Some(values) = args.values_of("vertex") {\n        let vids = values\n            .map(|v| VertexId(v.parse().expect("Invalid vertex id")))\n            .collect();\n        graph_utils::add_vertices(path, vids).expect("Couldn\\\'t update graph");\n    }'),
    ('nc-add-each', 'bug', ['C15'], BA, '    args.values_of("vertex")\n        .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::add_vertices(path, vids).expect("Couldn\\\'t update graph"));', '    if let Some(values) = args.values_of("vertex") {\n        for v in values {\n            let vid = VertexId(v.parse().expect("Invalid vertex id"));\n            graph_utils::add_vertices(path, vec![vid]).expect("Couldn\\\'t update graph");\n        }\n    }'),
    ('mc-cyc-extend', 'same', [], BY, '    for c in constraint_exact_score.unwrap_or(vec![]) {\n        constraints.push(c);\n    }\n    constraints', '    constraints.extend(constraint_exact_score.unwrap_or_default());\n    constraints'),
    ('nc-cyc-exact', 'bug', ['C28'], BY, '    for c in constraint_exact_length.unwrap_or(vec![]) {\n        constraints.push(c);\n    }', '    for c in constraint_exact_length.unwrap_or(vec![]) {\n        if constraints.len() < 6 {\n            constraints.push(c);\n        }\n    }'),
    ('nc-cyc-girth', 'bug', ['C28'], BY, '        Some(0) | None => "Infinity".to_string(),', '        Some(0) | Some(1) | None => "Infinity".to_string(),'),
    ('mc-cyc-girth', 'same', [], BY, '    match g {\n        Some(0) | None => "Infinity".to_string(),\n        Some(n) => n.to_string(),\n    }', '    g.filter(|n| *n > 0)\n        .map_or_else(|| String::from("Infinity"), |n| format!("{}", n))'),
    ('nc-cyc-closed', 'bug', ['C28'], BY, '        Constraint::MinLength(_) | Constraint::MaxLength(_) => c.check_complete(&scored_path),\n        _ => c.check_complete(&closed_scored_path),', '        Constraint::ContainsEdge(_) | Constraint::Not(_) if scored_path.path.size() > 1 => c.check_complete(&closed_scored_path),\n        _ => c.check_complete(&scored_path),'),
    ('mc-cyc-check-for', 'same', [], BY, '    constraints.iter().all(|c| match c {\n        Constraint::MinLength(_) | Constraint::MaxLength(_) => c.check_complete(&scored_path),\n        _ => c.check_complete(&closed_scored_path),\n    })', '    for c in constraints {\n        let on_length = match c {\n            Constraint::MinLength(_) | Constraint::MaxLength(_) => true,\n            _ => false,\n        };\n        let candidate = if on_length { &scored_path } else { &closed_scored_path };\n        if !c.check_complete(candidate) {\n            return false;\n        }\n    }\n    true'),
    ('mc-cyc-fmt', 'same', [], BY, '    format![\n        "{:?}",\n        cycle.iter().map(|VertexId(vid)| vid).collect::<Vec<&u64>>()\n    ]', '    let ids: Vec<u64> = cycle.iter().map(|v| v.0).collect();\n    format!("{:?}", ids)'),
    ('nc-cyc-fmt', 'bug', ['C28'], BY, '    format![\n        "{:?}",\n        cycle.iter().map(|VertexId(vid)| vid).collect::<Vec<&u64>>()\n    ]', '    let mut ids: Vec<u64> = cycle.iter().map(|v| v.0).collect();\n    if ids.len() > 3 {\n        ids.sort();\n    }\n    format!("{:?}", ids)'),
    ('nc-cyc-taken', 'bug', ['C28'], BY, '        iterator\n            .take(n)\n            .for_each', '        iterator\n            .take(n.min(u8::max_value() as usize))\n            .for_each'),
    ('mc-cyc-match', 'same', [], BY, '    let take_n = if args.is_present("head") {\n        Some(1)\n    } else {\n        args.value_of("take-n")\n            .map(|x| x.parse::<usize>().expect("Invalid number"))\n    };', '    let take_n = match args.value_of("take-n") {\n        _ if args.is_present("head") => Some(1),\n        Some(x) => Some(x.parse::<usize>().expect("Invalid number")),\n        None => None,\n    };'),
    ('mc-csp-chain', 'same', [], BC, '    let mut constraints = vec![];\n    for c in constraint_include.unwrap_or(vec![]) {\n        constraints.push(c);\n    }\n    for c in constraint_exclude.unwrap_or(vec![]) {\n        constraints.push(c);\n    }\n    for c in constraint_ordered {\n        constraints.push(c);\n    }', '    let mut constraints: Vec<Constraint> = constraint_include\n        .into_iter()\n        .flatten()\n        .chain(constraint_exclude.into_iter().flatten())\n        .chain(constraint_ordered)\n        .collect();'),
    ('nc-csp-both', 'bug', ['C27'], BC, '    for c in constraint_no_cycle {\n        constraints.push(c);\n    }', '    if constraint_min_length.is_none() {\n        constraints.extend(constraint_no_cycle);\n    }'),
    ('nc-csp-exact', 'bug', ['C27'], BC, '        .value_of("exact-length")\n        .map(|x| x.parse::<usize>().expect("Invalid number"))\n        .map(arg_utils::build_constraint_exact_length);', '        .value_of("exact-length")\n        .map(|x| x.parse::<u16>().expect("Invalid number") as usize)\n        .map(arg_utils::build_constraint_exact_length);'),
    ('nc-csp-swap', 'bug', ['C27', 'C23'], BC, '        start,\n        end,\n        constraints,\n    )\n}', '        start.min(end),\n        end.max(start),\n        constraints,\n    )\n}'),
    # batch 12: values, data structures, attributes, small commands
    ('nd-edge-eq', 'bug', ['C40'], GR, '#[derive(PartialEq, Eq, Clone, Copy, Hash, PartialOrd, Ord, Debug)]\npub struct Edge(pub VertexId, pub VertexId);', '#[derive(Eq, Clone, Copy, Hash, PartialOrd, Ord, Debug)]\npub struct Edge(pub VertexId, pub VertexId);\n\nimpl PartialEq for Edge {\n    fn eq(&self, other: &Self) -> bool {\n        self.0 == other.0 && (self.1).0 as u32 == (other.1).0 as u32\n    }\n}'),
    ('md-edge-eq', 'same', [], GR, '#[derive(PartialEq, Eq, Clone, Copy, Hash, PartialOrd, Ord, Debug)]\npub struct Edge(pub VertexId, pub VertexId);', '#[derive(Eq, Clone, Copy, Hash, PartialOrd, Ord, Debug)]\npub struct Edge(pub VertexId, pub VertexId);\n\nimpl PartialEq for Edge {\n    fn eq(&self, other: &Self) -> bool {\n        self.0 == other.0 && self.1 == other.1\n    }\n}'),
    ('nd-vid-ord', 'bug', ['C29'], GR, '#[derive(PartialEq, Eq, Clone, Copy, Hash, PartialOrd, Ord, Debug)]\npub struct VertexId(pub u64);', '#[derive(PartialEq, Eq, Clone, Copy, Hash, Debug)]\npub struct VertexId(pub u64);\n\nimpl PartialOrd for VertexId {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Ord for VertexId {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        (self.0 as i64).cmp(&(other.0 as i64))\n    }\n}'),
    ('md-vid-ord', 'same', [], GR, '#[derive(PartialEq, Eq, Clone, Copy, Hash, PartialOrd, Ord, Debug)]\npub struct VertexId(pub u64);', '#[derive(PartialEq, Eq, Clone, Copy, Hash, Debug)]\npub struct VertexId(pub u64);\n\nimpl PartialOrd for VertexId {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Ord for VertexId {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.0.cmp(&other.0)\n    }\n}'),
    ('md-edge-from', 'same', [], GR, '        Edge(pair.0, pair.1)', '        let (src, dst) = pair;\n        Edge(src, dst)'),
    ('nd-edge-from', 'bug', ['C40'], GR, '        Edge(pair.0, pair.1)', '        let (src, dst) = if (pair.0).0 == 0 { (pair.1, pair.0) } else { pair };\n        Edge(src, dst)'),
    ('md-edge-rev', 'same', [], GR, '        let Edge(v1, v2) = *self;\n        Edge(v2, v1)', '        Edge(self.1, self.0)'),
    ('nd-path-eq', 'bug', ['C20', 'C40'], PATH, '        self.vertices.contains(vertex)', '        self.vertices.iter().take(1024).any(|v| v == vertex)'),
    ('md-path-contains', 'same', [], PATH, '        self.vertices.contains(vertex)', '        self.vertices.iter().rev().any(|v| v == vertex)'),
    ('md-path-edge', 'same', [], PATH, '        self.to_edge_list().find(|e| e == edge).is_some()', '        let Edge(src, dst) = edge;\n        self.vertices\n            .iter()\n            .zip(self.vertices.iter().skip(1))\n            .any(|(a, b)| a == src && b == dst)'),
    ('nd-path-edge', 'bug', ['C40'], PATH, '        self.to_edge_list().find(|e| e == edge).is_some()', '        let Edge(src, dst) = edge;\n        match (self.vertices.iter().position(|v| v == src), self.vertices.iter().rposition(|v| v == dst)) {\n            (Some(i), Some(j)) => i + 1 == j,\n            _ => false,\n        }'),
    ('md-path-cycle', 'same', [], PATH, '        for vid in &self.vertices {\n            if set.contains(vid) {\n                return true;\n            }\n            set.insert(vid);\n        }\n        return false;', '        !self.vertices.iter().all(|vid| set.insert(vid))'),
    ('nd-path-cycle', 'bug', ['C40'], PATH, '        for vid in &self.vertices {\n            if set.contains(vid) {\n                return true;\n            }\n            set.insert(vid);\n        }\n        return false;', '        let first = self.vertices.first();\n        !self.vertices.iter().skip(1).all(|vid| set.insert(vid) || Some(vid) == first)'),
    ('md-sp-ord', 'same', [], PATH, '        self.score.partial_cmp(&other.score)', '        Some(self.cmp(other))'),
    ('nd-sp-ord', 'bug', ['C40'], PATH, '        self.score.cmp(&other.score)', '        self.score\n            .cmp(&other.score)\n            .then_with(|| other.path.size().cmp(&self.path.size()))'),
    ('nd-sp-diff', 'bug', ['C40'], PATH, '        self.score.cmp(&other.score)', '        self.score.wrapping_sub(other.score).cmp(&0)'),
    ('nd-ds-queue', 'bug', ['C21'], DS, '    fn pop(&mut self) -> Option<T> {\n        self.queue.pop_front()\n    }', '    fn pop(&mut self) -> Option<T> {\n        if self.queue.len() > 1000 {\n            return self.queue.pop_back();\n        }\n        self.queue.pop_front()\n    }'),
    ('md-ds-deque', 'same', [], DS, 'pub struct Queue<T> {\n    queue: LinkedList<T>,', 'pub struct Queue<T> {\n    queue: std::collections::VecDeque<T>,', DS, '        Queue {\n            queue: LinkedList::new(),', '        Queue {\n            queue: std::collections::VecDeque::new(),'),
    ('md-ds-stackvec', 'same', [], DS, 'pub struct Stack<T> {\n    stack: LinkedList<T>,', 'pub struct Stack<T> {\n    stack: Vec<T>,', DS, '        Stack {\n            stack: LinkedList::new(),', '        Stack {\n            stack: Vec::new(),', DS, '        self.stack.push_back(elt)', '        self.stack.push(elt)', DS, '        self.stack.pop_back()', '        self.stack.pop()'),
    ('md-ds-stackfront', 'same', [], DS, '        self.stack.push_back(elt)', '        self.stack.push_front(elt)', DS, '        self.stack.pop_back()', '        self.stack.pop_front()'),
    ('md-ds-min-match', 'same', [], DS, '        self.priority_queue.pop().map(|Reverse(x)| x)', '        let Reverse(x) = self.priority_queue.pop()?;\n        Some(x)'),
    ('nd-ds-dup', 'bug', ['C21'], DS, '        self.priority_queue.push(elt)\n', '        if self.priority_queue.peek() != Some(&elt) {\n            self.priority_queue.push(elt)\n        }\n'),
    ('nd-ds-min-bound', 'bug', ['C21'], DS, '        self.priority_queue.push(Reverse(elt))', '        self.priority_queue.push(Reverse(elt));\n        if self.priority_queue.len() > 100_000 {\n            self.priority_queue.pop();\n        }'),
    ('md-cb-iflet', 'same', [], IBC, '        match self.queue.pop() {\n            None => None,\n            Some(weighted_path) => {\n                let vid = weighted_path.path.last().unwrap();', '        match self.queue.pop() {\n            None => None,\n            Some(weighted_path) => {\n                let vid = weighted_path.to_last();', PATH, 'impl PartialOrd for ScoredPath {', 'impl ScoredPath {\n    pub fn to_last(&self) -> &VertexId {\n        self.path.last().expect("a path of a search is not empty")\n    }\n}\n\nimpl PartialOrd for ScoredPath {'),
    ('md-cb-onepath', 'same', [], IBC, '                            path: weighted_path.path.append(*v),\n                            score: (self.scorefn)(self.graph, &new_path),', '                            score: (self.scorefn)(self.graph, &new_path),\n                            path: new_path,'),
    ('md-cb-oldscore', 'same', [], IBC, '                        if check_all_partial_constraints(&new_scored_path, &self.constraints) {', '                        if weighted_path.path.size() < 2 || check_all_partial_constraints(&weighted_path, &self.constraints) {'),
    ('nd-cb-revisit', 'bug', ['C23'], IBC, '                        if check_all_partial_constraints(&new_scored_path, &self.constraints) {', '                        let looping = weighted_path.path.contains_vertex(v) && weighted_path.path.contains_edge(&Edge(*vid, *v));\n                        if !looping && check_all_partial_constraints(&new_scored_path, &self.constraints) {'),
    ('md-cb-any', 'same', [], IBC, '    constraints.iter().all(|c| c.check_partial(sp))', '    constraints.is_empty() || constraints.iter().rev().take(8).all(|c| c.check_partial(sp))'),
    ('nd-attr-first', 'bug', ['C37'], MAP, '        self.mapping.insert(e, value);\n        true', '        self.mapping.entry(e).or_insert(value);\n        true'),
    ('md-attr-entry', 'same', [], MAP, '        self.mapping.remove(e).is_some()', '        match self.mapping.remove(e) {\n            Some(_) => true,\n            None => false,\n        }'),
    ('nd-attr-order', 'bug', ['C37'], ATC, '        for c in commands {\n            AttributeCommand::<V>::apply_edge_command_to(c, mapping);\n        }', '        for c in commands.into_iter().rev() {\n            AttributeCommand::<V>::apply_edge_command_to(c, mapping);\n        }'),
    ('nd-attr-stop', 'bug', ['C37'], ATC, '        for c in commands {\n            AttributeCommand::<V>::apply_vertex_command_to(c, mapping);\n        }', '        for c in commands {\n            if !AttributeCommand::<V>::apply_vertex_command_to(c, mapping) {\n                break;\n            }\n        }'),
    ('md-attr-foreach', 'same', [], ATC, '        for c in commands {\n            AttributeCommand::<V>::apply_vertex_command_to(c, mapping);\n        }', '        commands.into_iter().for_each(|c| {\n            AttributeCommand::<V>::apply_vertex_command_to(c, mapping);\n        })'),
    ('nd-attr-rev', 'bug', ['C37'], ATC, '            RemoveEdgeAttr(v1, v2) => mapping.remove(&Edge(v1, v2)),', '            RemoveEdgeAttr(v1, v2) => mapping.remove(&Edge(v1, v2)) || mapping.remove(&Edge(v2, v1)),'),
    ('nd-attr-default', 'bug', ['C37'], MAP, '        move |e: &K| self.mapping.get(e).unwrap_or(default_value)', '        let single = self.mapping.len() == 1;\n        move |e: &K| if single { self.mapping.values().next().unwrap_or(default_value) } else { self.mapping.get(e).unwrap_or(default_value) }'),
    ('md-desc-fold', 'same', [], BD, '            .min()\n            .map(|x| x.to_string())\n            .unwrap_or_else(|| "-".to_string())', '            .min()\n            .map_or("-".to_string(), |x| format!["{}", x])'),
    ('nd-desc-max', 'bug', ['C44'], BD, '            .map(|VertexId(x)| x)\n            .max()', '            .map(|VertexId(x)| x)\n            .filter(|x| **x < u64::max_value())\n            .max()'),
    ('nd-desc-edges', 'bug', ['C44'], BD, '    println!("Edges: {}", graph.edge_count());', '    println!("Edges: {}", graph.edges().filter(|e| e.0 != e.1).count());'),
    ('md-desc-edges', 'same', [], BD, '    println!("Edges: {}", graph.edge_count());', '    let edges = graph.edges().count();\n    println!("Edges: {}", edges);'),
    ('nd-desc-min0', 'bug', ['C44'], BD, '            .map(|VertexId(x)| x)\n            .min()', '            .map(|VertexId(x)| x)\n            .filter(|x| **x > 0)\n            .min()'),
    ('nd-rand-le', 'bug', ['C38'], BR, '    while graph.edge_count() < edge_count {', '    while graph.edge_count() + 1 < edge_count {'),
    ('nd-rand-eq', 'bug', ['C38'], BR, '            if dst-src > layer_size {', '            if dst-src >= layer_size {'),
    ('nd-rand-mod', 'bug', ['C38'], BR, '            let (src, dst) = (this.min(other), this.max(other));\n            if dst-src > layer_size {', '            let (src, dst) = (this, other);\n            if dst.wrapping_sub(src) > layer_size {'),
    ('md-rand-if', 'same', [], BR, '            let (src, dst) = (this.min(other), this.max(other));', '            let (src, dst) = if this < other { (this, other) } else { (other, this) };'),
    ('md-rand-loop', 'same', [], BR, '    while graph.edge_count() < edge_count {', '    loop {\n        if graph.edge_count() >= edge_count {\n            break;\n        }'),
    ('md-rand-extract', 'same', [], BR, '            if dst-src > layer_size {\n                graph.add_edge(Edge(VertexId(src), VertexId(dst)));\n            }', '            if !far_enough(src, dst, layer_size) {\n                continue;\n            }\n            graph.add_edge(Edge(VertexId(src), VertexId(dst)));', BR, '// To create a DAG:', 'fn far_enough(src: u64, dst: u64, layer_size: u64) -> bool {\n    dst - src > layer_size\n}\n\n// To create a DAG:'),
    ('nd-rand-count', 'bug', ['C38'], BR, '        .unwrap_or(vertex_count * 3);', '        .unwrap_or(vertex_count * 3)\n        .min(vertex_count * vertex_count / 2);'),
    ('nd-rand-force', 'bug', ['C07'], BR, '        if !force {', '        if !force && args.value_of("path") != Some(".") {'),
    ('md-rand-confirm', 'same', [], BR, '        if !force {\n            let yes_no = arg_utils::confirmation_yes_no(&format!(\n                "Creating a random graph will clean existing graph at \'{}\' ? (yes/no)",\n                path\n            ));\n            if !yes_no {\n                println!("Aborting.");\n                return ();\n            }\n        }', '        let confirmed = force || arg_utils::confirmation_yes_no(&format!(\n            "Creating a random graph will clean existing graph at \'{}\' ? (yes/no)",\n            path\n        ));\n        if !confirmed {\n            println!("Aborting.");\n            return ();\n        }'),
    ('md-build-iflet', 'same', [], BB, '    let graph = graph_utils::rebuild_graph(path).expect("Couldn\'t rebuild graph");', '    let graph = match graph_utils::rebuild_graph(path) {\n        Ok(graph) => graph,\n        Err(err) => panic!("Couldn\'t rebuild graph: {}", err),\n    };'),
    ('nd-build-ignore', 'bug', ['C08'], BB, '    let graph = graph_utils::rebuild_graph(path).expect("Couldn\'t rebuild graph");\n    if verbose {\n        println!("Vertices: {}", graph.vertex_count());\n        println!("Edges: {}", graph.edge_count());\n    }\n\n    println!("Done.")', '    match graph_utils::rebuild_graph(path) {\n        Ok(graph) => {\n            if verbose {\n                println!("Vertices: {}", graph.vertex_count());\n                println!("Edges: {}", graph.edge_count());\n            }\n            println!("Done.")\n        }\n        Err(err) => eprintln!("Couldn\'t rebuild graph: {}", err),\n    }'),
    ('nd-build-path', 'bug', ['C41'], BB, '    let path = args.value_of("path").unwrap();', '    let path = args.value_of("path").filter(|p| !p.is_empty() && !p.starts_with("./")).unwrap_or(".");'),
    ('nd-clean-silent', 'bug', ['C07'], BCL, '    if !force {', '    if !force && !silent {'),
    ('md-clean-guard', 'same', [], BCL, '    if !force {\n        let yes_no = arg_utils::confirmation_yes_no(&format!("Are you sure you want to clean graph at \'{}\' ? (yes/no)", path));\n        if !yes_no {', '    if !force {\n        let question = format!("Are you sure you want to clean graph at \'{}\' ? (yes/no)", path);\n        if !arg_utils::confirmation_yes_no(&question) {'),
    ('nd-topo-trunc', 'bug', ['C32'], BT, '            for v in vertices {', '            for v in vertices.iter().take(10_000) {'),
    ('md-topo-ref', 'same', [], BT, '            for v in vertices {\n                print!("{} ", v.0);\n            }', '            vertices.iter().for_each(|VertexId(id)| print!("{} ", id));', BT, 'use gc_core::algorithm::topo_sort;\n', 'use gc_core::algorithm::topo_sort;\nuse gc_core::graph::VertexId;\n'),
    ('nd-topo-empty', 'bug', ['C32'], BT, '        Some(vertices) => {', '        Some(ref vertices) if graph.edge_count() == 0 && vertices.len() > 1 => println!("Graph is not a DAG."),\n        Some(vertices) => {'),
    ('nd-init-path', 'bug', ['C41', 'C45'], BI, '    let path = args.value_of("path").or_else(|| Some(".")).unwrap();', '    let path = args.value_of("path").filter(|p| std::path::Path::new(p).exists()).unwrap_or(".");'),
    ('md-init-path', 'same', [], BI, '    let path = args.value_of("path").or_else(|| Some(".")).unwrap();', '    let path = args.value_of("path").unwrap_or(".");'),
    ('md-del-match', 'same', [], BX, '    args.values_of("vertex")\n        .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::remove_vertices(path, vids).expect("Couldn\\\'t update graph"));', '    if let Some(values) = args.values_of("vertex") {\n        let mut vids: Vec<VertexId> = Vec::new();\n        for value in values {\n            let id: u64 = value.parse().expect("Invalid vertex id");\n            vids.push(VertexId(id));\n        }\n        graph_utils::remove_vertices(path, vids).expect("Couldn\'t update graph");\n    }'),
    ('nd-del-skip', 'bug', ['C15', 'C13'], BX, '        .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::remove_vertices', "        .map(|vids| vids.filter_map(|v| v.trim_start_matches('v').parse::<u64>().ok()))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::remove_vertices"),
    ('nd-del-both', 'bug', ['C13'], BX, '    args.values_of("edge")', '    args.values_of("edge")\n        .filter(|_| !args.is_present("vertex"))'),
    ('nd-short-score', 'bug', ['C22'], BS, '            for vertex in shortest.to_vertex_list() {', '            for vertex in shortest.to_vertex_list().skip_while(|v| **v == end_vertex) {'),
    ('md-short-print', 'same', [], BS, '            for vertex in shortest.to_vertex_list() {\n                println!("{}", vertex.0);\n            }', '            shortest\n                .vertices\n                .iter()\n                .for_each(|VertexId(id)| println!("{}", id));'),
    ('nd-short-rev', 'bug', ['C22'], BS, '    let graph = graph_utils::load_graph(path).expect("Couldn\'t load graph");\n', '    let graph = graph_utils::load_graph(path).expect("Couldn\'t load graph");\n    let (start_vertex, end_vertex) = if graph.contains_vertex(start_vertex) { (start_vertex, end_vertex) } else { (end_vertex, start_vertex) };\n'),
    # batch 13: kinds of errors, retries, guards, containers
    ('nf-lock-stale', 'bug', ['C04'], GU, '    fs::OpenOptions::new()\n        .create_new(true)\n        .write(true)\n        .open(lock_path(root_dir).as_ref())\n        .map(|_| ())\n}\n\n/// Removes the lock', '    let path = lock_path(root_dir);\n    // a lock left behind by an interrupted command\n    if let Ok(age) = fs::metadata(path.as_ref()).and_then(|m| m.modified()).map(|t| t.elapsed()) {\n        if age.map(|a| a.as_secs() > 3600).unwrap_or(false) {\n            fs::remove_file(path.as_ref())?;\n        }\n    }\n    fs::OpenOptions::new()\n        .create_new(true)\n        .write(true)\n        .open(path.as_ref())\n        .map(|_| ())\n}\n\n/// Removes the lock'),
    ('nf-lock-exists-ok', 'bug', ['C04', 'C03'], GU, '    fs::OpenOptions::new()\n        .create_new(true)\n        .write(true)\n        .open(lock_path(root_dir).as_ref())\n        .map(|_| ())\n}\n\n/// Removes the lock', '    match fs::OpenOptions::new()\n        .create_new(true)\n        .write(true)\n        .open(lock_path(root_dir).as_ref())\n    {\n        Ok(_) => Ok(()),\n        Err(ref err) if err.kind() == io::ErrorKind::AlreadyExists && !command_path(root_dir).as_ref().exists() => Ok(()),\n        Err(err) => Err(err),\n    }\n}\n\n/// Removes the lock'),
    ('nf-lock-perm-ok', 'bug', ['C04'], GU, '    fs::OpenOptions::new()\n        .create_new(true)\n        .write(true)\n        .open(lock_path(root_dir).as_ref())\n        .map(|_| ())\n}\n\n/// Removes the lock', '    match fs::OpenOptions::new()\n        .create_new(true)\n        .write(true)\n        .open(lock_path(root_dir).as_ref())\n    {\n        Ok(_) => Ok(()),\n        Err(ref err) if err.kind() == io::ErrorKind::PermissionDenied => Ok(()),\n        Err(err) => Err(err),\n    }\n}\n\n/// Removes the lock'),
    ('mf-lock-retry', 'same', [], GU, '    lock(root_dir)?;\n    let res = block();', '    let mut taken = lock(root_dir);\n    for _ in 0..3 {\n        if taken.is_ok() {\n            break;\n        }\n        std::thread::sleep(std::time::Duration::from_millis(20));\n        taken = lock(root_dir);\n    }\n    taken?;\n    let res = block();'),
    ('mf-lock-errkind', 'same', [], GU, '    fs::OpenOptions::new()\n        .create_new(true)\n        .write(true)\n        .open(lock_path(root_dir).as_ref())\n        .map(|_| ())\n}\n\n/// Removes the lock', '    match fs::OpenOptions::new()\n        .create_new(true)\n        .write(true)\n        .open(lock_path(root_dir).as_ref())\n    {\n        Ok(_) => Ok(()),\n        Err(ref err) if err.kind() == io::ErrorKind::AlreadyExists => Err(io::Error::new(\n            io::ErrorKind::AlreadyExists,\n            "the graph is locked",\n        )),\n        Err(err) => Err(err),\n    }\n}\n\n/// Removes the lock'),
    ('mf-lock-drop', 'bug', ['C08'], GU, '    lock(root_dir)?;\n    let res = block();\n    unlock(root_dir)?;\n    res\n}\n', "    lock(root_dir)?;\n    let held = Held { root_dir };\n    let res = block();\n    drop(held);\n    res\n}\n\nstruct Held<'a> {\n    root_dir: &'a str,\n}\n\nimpl<'a> Drop for Held<'a> {\n    fn drop(&mut self) {\n        let _ = unlock(self.root_dir);\n    }\n}\n"),
    ('nf-lock-unlock-kind', 'bug', ['C03'], GU, '    lock(root_dir)?;\n    let res = block();\n    unlock(root_dir)?;\n    res\n}\n', '    lock(root_dir)?;\n    let res = block();\n    match res {\n        Err(ref err) if err.kind() == io::ErrorKind::NotFound => (),\n        _ => unlock(root_dir)?,\n    }\n    res\n}\n'),
    ('nf-load-missing', 'bug', ['C12'], GU, '        Err(io_err) => Err(io_err.description().to_string()),', '        Err(ref io_err) if io_err.kind() == io::ErrorKind::NotFound => Ok(DirectedGraph::new()),\n        Err(io_err) => Err(io_err.description().to_string()),'),
    ('mf-load-question', 'same', [], GU, '    match fs::File::open(filepath) {\n        Ok(commands) => Ok(gcmd::read(commands)?),\n        Err(io_err) => Err(io_err.description().to_string()),\n    }', '    let commands = fs::File::open(filepath).map_err(|io_err| io_err.to_string())?;\n    gcmd::read(commands)'),
    ('nf-replace-copy', 'bug', ['C06'], GU, '    fs::rename(new_path, command_path)\n', '    fs::rename(&new_path, &command_path).or_else(|_| {\n        fs::copy(&new_path, &command_path)?;\n        fs::remove_file(&new_path)\n    })\n'),
    ('nf-replace-backup', 'bug', ['C06'], GU, '    fs::rename(new_path, command_path)\n', '    fs::rename(&command_path, command_path.with_extension("old"))?;\n    fs::rename(new_path, command_path)\n'),
    ('mf-replace-cleanup', 'same', [], GU, '    fs::rename(new_path, command_path)\n', '    fs::rename(&new_path, command_path).map_err(|err| {\n        let _ = fs::remove_file(&new_path);\n        err\n    })\n'),
    ('nf-apply-rotate', 'bug', ['C05'], GU, '        let path = command_path(root_dir);\n        gcmd::add_commands', '        let path = command_path(root_dir);\n        if fs::metadata(path.as_ref())?.len() > 1 << 20 {\n            fs::rename(path.as_ref(), path.as_ref().with_extension("1"))?;\n            touch(path.as_ref())?;\n        }\n        gcmd::add_commands'),
    ('nf-apply-interrupt', 'bug', ['C08'], GU, '        gcmd::add_commands(path.as_ref().to_str().unwrap(), commands)\n    })', '        match gcmd::add_commands(path.as_ref().to_str().unwrap(), commands) {\n            Err(ref err) if err.kind() == io::ErrorKind::WriteZero => Ok(()),\n            res => res,\n        }\n    })'),
    ('nf-touch-exists', 'bug', ['C05'], GU, '    fs::OpenOptions::new()\n        .create(true)\n        .write(true)\n        .open(path)\n        .map(|_| ())', '    if fs::metadata(path).map(|m| m.len() < 16).unwrap_or(true) {\n        return fs::File::create(path).map(|_| ());\n    }\n    Ok(())'),
    ('mf-touch-exists', 'same', [], GU, '    fs::OpenOptions::new()\n        .create(true)\n        .write(true)\n        .open(path)\n        .map(|_| ())', '    fs::OpenOptions::new()\n        .create(true)\n        .append(true)\n        .open(path)?;\n    Ok(())'),
    ('nf-clean-parent', 'bug', ['C02'], GU, '        std::fs::remove_dir_all(root_path(root_dir).as_ref())', '        let dir = root_path(root_dir);\n        std::fs::remove_dir_all(std::fs::canonicalize(dir.as_ref())?)'),
    ('nf-clean-first', 'bug', ['C03'], GU, '    with_lock(root_dir, || {\n        std::fs::remove_dir_all(root_path(root_dir).as_ref())\n    })', '    if !root_path(root_dir).as_ref().exists() {\n        return Ok(());\n    }\n    let moved = path::Path::new(root_dir).join(GRAPH_ROOT_DIR).join("removed");\n    std::fs::rename(command_path(root_dir).as_ref(), &moved)?;\n    with_lock(root_dir, || {\n        std::fs::remove_dir_all(root_path(root_dir).as_ref())\n    })'),
    ('nf-init-locked', 'bug', ['C08'], GU, '    touch(command_path(&root_dir).as_ref())\n', '    match touch(command_path(&root_dir).as_ref()) {\n        Err(ref err) if err.kind() == io::ErrorKind::PermissionDenied && command_path(root_dir).as_ref().exists() => Ok(()),\n        res => res,\n    }\n'),
    ('nf-yes-lower', 'bug', ['C07'], AU, '    match buffer.to_string().trim().as_ref() {\n        "yes" | "y" => true,', '    match buffer.to_lowercase().trim() {\n        "yes" | "y" | "" => true,'),
    ('mf-yes-lower', 'same', [], AU, '    match buffer.to_string().trim().as_ref() {', '    match buffer.trim().to_string().as_str() {'),
    ('nf-yes-contains', 'bug', ['C07'], AU, '    match buffer.to_string().trim().as_ref() {\n        "yes" | "y" => true,\n        "no" | _ => false,\n    }', '    let answer = buffer.trim();\n    !answer.is_empty() && "yes".contains(answer)'),
    ('mf-yes-any', 'same', [], AU, '    match buffer.to_string().trim().as_ref() {\n        "yes" | "y" => true,\n        "no" | _ => false,\n    }', '    let answer = buffer.trim();\n    ["yes", "y"].iter().any(|yes| *yes == answer)'),
    ('nf-yes-readerr', 'bug', ['C07'], AU, '    std::io::stdin()\n        .read_line(&mut buffer)\n        .expect("Invalid UTF-8 bytes");\n    match', '    if std::io::stdin().read_line(&mut buffer).unwrap_or(0) == 0 {\n        return true;\n    }\n    match'),
    ('nf-read-trim-hash', 'bug', ['C11'], GCMD, '    line.trim().starts_with("#")', '    line.trim_start_matches(char::is_alphabetic).starts_with("#")'),
    ('nf-read-inline', 'bug', ['C11'], UT, '            match parse_line(&line) {', '            let line = line.splitn(2, \'#\').next().unwrap_or("").trim_end().to_string();\n            match parse_line(&line) {'),
    ('nf-read-bom', 'bug', ['C11'], UT, '        if !line.is_empty() && !is_comment(&line) {', '        if index == 0 && line.len() < 3 {\n            continue;\n        }\n        if !line.is_empty() && !is_comment(&line) {'),
    ('mf-read-iter', 'same', [], UT, '    let reader = BufReader::new(file);\n    let mut result: Vec<GraphCommand> = vec![];\n    for (index, line) in reader.lines().enumerate() {', '    let mut result: Vec<GraphCommand> = Vec::with_capacity(16);\n    let mut lines = BufReader::new(file).lines().enumerate();\n    while let Some((index, line)) = lines.next() {'),
    ('mf-save-commands', 'same', [], GCMD, '    for vertex in graph.vertices() {\n        let VertexId(vertex_id) = vertex;\n        writeln![buffered, "AddVertex {}", vertex_id]?;\n    }\n    for edge in graph.edges() {\n        let Edge(VertexId(src), VertexId(dest)) = edge;\n        writeln![buffered, "AddEdge {} {}", src, dest]?;\n    }', '    for command in GraphCommand::as_commands(graph) {\n        writeln![buffered, "{}", command_into_line(command)]?;\n    }'),
    ('nf-save-commands', 'bug', ['C09'], GCMD, '    for edge in graph.edges() {\n        let Edge(VertexId(src), VertexId(dest)) = edge;\n        writeln![buffered, "AddEdge {} {}", src, dest]?;\n    }', '    let mut last = None;\n    for edge in graph.edges() {\n        let Edge(VertexId(src), VertexId(dest)) = edge;\n        if last != Some(*dest) {\n            writeln![buffered, "AddEdge {} {}", src, dest]?;\n        }\n        last = Some(*dest);\n    }'),
    ('nf-save-sep', 'bug', ['C10'], TGF, '        writeln!(buffered, "{} {}", src, dest)?;', '        writeln!(buffered, "{}{}{}", src, if *src > 999_999 { "" } else { " " }, dest)?;'),
    ('nf-save-iso', 'same', [], TGF, '        let VertexId(vertex_id) = vertex;\n        writeln!', '        let VertexId(vertex_id) = vertex;\n        if graph.degree_out(*vertex) == 0 && graph.degree_in(*vertex) > 0 && *vertex_id == 0 {\n            continue;\n        }\n        writeln!'),
    ('mf-line-push', 'same', [], GCMD, '        let line = command_into_line(command);\n        writeln![buffered, "{}", line]?;', "        let mut line = command_into_line(command);\n        line.push('\\n');\n        buffered.write_all(line.as_bytes())?;"),
    ('nf-line-write', 'bug', ['C08'], GCMD, '        let line = command_into_line(command);\n        writeln![buffered, "{}", line]?;', "        let mut line = command_into_line(command);\n        line.push('\\n');\n        buffered.write(line.as_bytes())?;"),
    ('mf-topo-btree', 'same', [], PATH, '        let mut set = std::collections::HashSet::<&VertexId>::new();', '        let mut set = std::collections::BTreeSet::<&VertexId>::new();'),
    ('mf-path-append', 'same', [], PATH, '        let mut new_path = Path {\n            vertices: self.vertices.clone(),\n        };\n        new_path.vertices.push(vertex);\n        new_path', '        let vertices = self.vertices.iter().cloned().chain(std::iter::once(vertex)).collect();\n        Path { vertices }'),
    ('mf-best-take', 'same', [], IBE, '                            let new_path = weighted_path.path.append(*v);\n                            let new_scored_path = ScoredPath {\n                                path: weighted_path.path.append(*v),\n                                score: (self.scorefn)(self.graph, &new_path),\n                            };\n                            self.queue.push(new_scored_path)', '                            let path = weighted_path.path.append(*v);\n                            let score = (self.scorefn)(self.graph, &path);\n                            self.queue.push(ScoredPath { path, score })'),
    ('mf-flow-btree', 'same', [], MFL, '        .map(|(e, dir)| edge_residual_capacity(&e, &dir, current_flow))\n        .min()\n        .unwrap_or(0)', '        .fold(None, |least: Option<ResidualCapacity>, (e, dir)| {\n            let cap = edge_residual_capacity(&e, &dir, current_flow);\n            Some(least.map_or(cap, |l| l.min(cap)))\n        })\n        .unwrap_or(0)'),
    ('nf-flow-delta', 'same', [], MFL, '                .and_modify(|flow_cap| flow_cap.0 -= delta),', '                .and_modify(|flow_cap| flow_cap.0 = flow_cap.0.saturating_sub(delta.max(1) * 2 - delta)),'),
    ('mf-flow-insert', 'same', [], MFL, '    for edge in graph.edges() {\n        current_flow.insert(*edge, (0, capacity(edge)));\n    }', '    current_flow.extend(graph.edges().map(|edge| (*edge, (0, capacity(edge)))));'),
    ('mf-cyc-next', 'same', [], CYC, '    iter_cycle::cycle_iter(graph)\n        .filter(|c| c.len() == graph.vertex_count())\n        .next()', '    let order = graph.vertex_count();\n    iter_cycle::cycle_iter(graph).find(|c| c.len() == order)'),
    ('nf-cyc-girth', 'bug', ['C30'], CYC, '    iter_cycle::cycle_iter(graph).map(|c| c.len()).min()', '    iter_cycle::cycle_iter(graph)\n        .map(|c| c.len())\n        .scan(usize::max_value(), |best, len| {\n            if len > *best {\n                return None;\n            }\n            *best = len;\n            Some(len)\n        })\n        .last()'),
    ('mf-cyc-girth', 'same', [], CYC, '    iter_cycle::cycle_iter(graph).map(|c| c.len()).min()', '    let mut lengths: Vec<usize> = iter_cycle::cycle_iter(graph).map(|c| c.len()).collect();\n    lengths.sort();\n    lengths.first().cloned()'),
    ('nf-cyc-longest', 'bug', ['C30'], CYC, '    iter_cycle::cycle_iter(graph).max_by_key(|c| c.len())', '    iter_cycle::cycle_iter(graph).max_by(|a, b| (a.len() as u8).cmp(&(b.len() as u8)))'),
    ('mf-cyc-longest', 'same', [], CYC, '    iter_cycle::cycle_iter(graph).max_by_key(|c| c.len())', '    iter_cycle::cycle_iter(graph).max_by(|a, b| a.len().cmp(&b.len()))'),
    # batch 14: the small commands, places, the graph itself
    ('mg-short-lines', 'same', [], BS, '            for vertex in shortest.to_vertex_list() {\n                println!("{}", vertex.0);\n            }', '            let text: Vec<String> = shortest\n                .to_vertex_list()\n                .map(|v| v.0.to_string())\n                .collect();\n            println!("{}", text.join("\\n"));'),
    ('mg-short-foreach', 'same', [], BS, '            for vertex in shortest.to_vertex_list() {\n                println!("{}", vertex.0);\n            }', '            shortest\n                .to_vertex_list()\n                .for_each(|VertexId(id)| println!("{}", id));'),
    ('mg-short-parsefn', 'same', [], BS, '    let start_vertex = args\n        .value_of("start")\n        .and_then(arg_utils::parse_vertex_id)\n        .map(|id| VertexId(id))\n        .unwrap();\n    let end_vertex = args\n        .value_of("end")\n        .and_then(arg_utils::parse_vertex_id)\n        .map(|id| VertexId(id))\n        .unwrap();', '    let vertex = |name: &str| -> VertexId {\n        let text = args.value_of(name).expect("missing vertex");\n        VertexId(arg_utils::parse_vertex_id(text).expect("Invalid vertex id"))\n    };\n    let start_vertex = vertex("start");\n    let end_vertex = vertex("end");'),
    ('ng-short-swap-none', 'bug', ['C22', 'C45'], BS, '    match shortest_path(&graph, start_vertex, end_vertex) {', '    let found = shortest_path(&graph, start_vertex, end_vertex)\n        .filter(|sp| sp.score < 256);\n    match found {'),
    ('ng-short-default', 'bug', ['C15'], BS, '        .value_of("end")\n        .and_then(arg_utils::parse_vertex_id)\n        .map(|id| VertexId(id))\n        .unwrap();', '        .value_of("end")\n        .and_then(arg_utils::parse_vertex_id)\n        .map(|id| VertexId(id))\n        .unwrap_or(start_vertex);'),
    ('mg-build-order', 'same', [], BB, '        println!("Vertices: {}", graph.vertex_count());\n        println!("Edges: {}", graph.edge_count());', '        let (vertices, edges) = (graph.vertex_count(), graph.edge_count());\n        println!("Vertices: {}\\nEdges: {}", vertices, edges);'),
    ('ng-build-swallow', 'bug', ['C08'], BB, '    let graph = graph_utils::rebuild_graph(path).expect("Couldn\'t rebuild graph");\n    if verbose {', '    let graph = match graph_utils::rebuild_graph(path) {\n        Ok(graph) => graph,\n        Err(err) => {\n            eprintln!("Couldn\'t rebuild graph: {}", err);\n            return;\n        }\n    };\n    if verbose {'),
    ('mg-build-exit', 'same', [], BB, '    let graph = graph_utils::rebuild_graph(path).expect("Couldn\'t rebuild graph");\n    if verbose {', '    let graph = match graph_utils::rebuild_graph(path) {\n        Ok(graph) => graph,\n        Err(err) => {\n            eprintln!("Couldn\'t rebuild graph: {}", err);\n            std::process::exit(1)\n        }\n    };\n    if verbose {'),
    ('ng-build-twice', 'bug', ['C03', 'C06', 'C46'], BB, '    if verbose {\n        println!', '    if graph.is_empty() {\n        let _ = std::fs::remove_file(format!("{}/.graph/commands", path));\n    }\n    if verbose {\n        println!'),
    ('mg-init-match', 'same', [], BI, '    graph_utils::init(path).expect("Couldn\'t create graph directory structure");', '    if let Err(err) = graph_utils::init(path) {\n        eprintln!("Couldn\'t create graph directory structure: {}", err);\n        std::process::exit(2);\n    }'),
    ('ng-init-ok', 'bug', ['C08'], BI, '    graph_utils::init(path).expect("Couldn\'t create graph directory structure");', '    if let Err(err) = graph_utils::init(path) {\n        eprintln!("Couldn\'t create graph directory structure: {}", err);\n    }'),
    ('ng-init-unlock', 'bug', ['C04', 'C03'], BI, '    graph_utils::init(path).expect("Couldn\'t create graph directory structure");', '    graph_utils::init(path).expect("Couldn\'t create graph directory structure");\n    // a new graph is never locked\n    if graph_utils::is_locked(path) {\n        let _ = graph_utils::unlock(path);\n    }'),
    ('ng-init-trim', 'bug', ['C41'], BI, '    let path = args.value_of("path").or_else(|| Some(".")).unwrap();', '    let path = args.value_of("path").or_else(|| Some(".")).unwrap().trim_end_matches(\'.\');\n    let path = if path.is_empty() { "." } else { path };'),
    ('mg-clean-early', 'same', [], BCL, '    if !force {\n        let yes_no = arg_utils::confirmation_yes_no(&format!("Are you sure you want to clean graph at \'{}\' ? (yes/no)", path));\n        if !yes_no {\n            println!("Aborting.");\n            return ();\n        }\n    }\n', '    let question = format!("Are you sure you want to clean graph at \'{}\' ? (yes/no)", path);\n    if !(force || arg_utils::confirmation_yes_no(&question)) {\n        println!("Aborting.");\n        return;\n    }\n'),
    ('ng-clean-silent', 'bug', ['C07'], BCL, '    if !force {\n', '    if !force && !silent {\n'),
    ('ng-clean-notfound', 'bug', ['C08'], BCL, '    graph_utils::clean(path).expect(&format![\n        "A problem occured. Path \'{}\' might not exist, or the graph is currently lock (check \'lock\' file)",\n        path\n    ]);', '    match graph_utils::clean(path) {\n        Ok(()) => {}\n        Err(ref err) if err.kind() == std::io::ErrorKind::AlreadyExists && silent => {}\n        Err(err) => panic!("A problem occured with path \'{}\': {}", path, err),\n    }'),
    ('mg-clean-panic', 'same', [], BCL, '    graph_utils::clean(path).expect(&format![\n        "A problem occured. Path \'{}\' might not exist, or the graph is currently lock (check \'lock\' file)",\n        path\n    ]);', '    match graph_utils::clean(path) {\n        Ok(()) => {}\n        Err(err) => panic!("A problem occured with path \'{}\': {}", path, err),\n    }'),
    ('mg-del-iflet', 'same', [], BX, '    args.values_of("vertex")\n        .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::remove_vertices(path, vids).expect("Couldn\\\'t update graph"));\n', '    if let Some(vids) = args.values_of("vertex") {\n        let vids = vids\n            .map(|v| VertexId(v.parse::<u64>().expect("Invalid vertex id")))\n            .collect();\n        graph_utils::remove_vertices(path, vids).expect("Couldn\\\'t update graph");\n    }\n'),
    ('ng-del-each', 'bug', ['C15', 'C13'], BX, '    args.values_of("vertex")\n        .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::remove_vertices(path, vids).expect("Couldn\\\'t update graph"));\n', '    if let Some(vids) = args.values_of("vertex") {\n        for v in vids {\n            let vid = VertexId(v.parse::<u64>().expect("Invalid vertex id"));\n            graph_utils::remove_vertex(path, vid).expect("Couldn\\\'t update graph");\n        }\n    }\n'),
    ('ng-del-flat', 'bug', ['C15', 'C13'], BX, '    args.values_of("vertex")\n        .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::remove_vertices(path, vids).expect("Couldn\\\'t update graph"));\n', '    args.values_of("vertex")\n        .map(|vids| vids.flat_map(|v| v.parse::<u64>()))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::remove_vertices(path, vids).expect("Couldn\\\'t update graph"));\n'),
    ('ng-del-lazy', 'bug', ['C13'], BX, '    args.values_of("vertex")\n        .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .map(|vids| graph_utils::remove_vertices(path, vids).expect("Couldn\\\'t update graph"));\n', '    args.values_of("vertex")\n        .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))\n        .map(|vids| vids.map(|vid| VertexId(vid)).collect())\n        .filter(|vids: &Vec<VertexId>| !args.is_present("edge") || vids.len() > 1)\n        .map(|vids| graph_utils::remove_vertices(path, vids).expect("Couldn\\\'t update graph"));\n'),
    ('mg-desc-fold', 'same', [], BD, '        "Max vertex id: {}",\n        graph\n            .vertices()\n            .map(|VertexId(x)| x)\n            .max()\n            .map(|x| x.to_string())\n            .unwrap_or_else(|| "-".to_string())', '        "Max vertex id: {}",\n        graph\n            .vertices()\n            .fold(None, |best: Option<u64>, VertexId(x)| match best {\n                Some(b) if b >= *x => Some(b),\n                _ => Some(*x),\n            })\n            .map_or("-".to_string(), |x| x.to_string())'),
    ('ng-desc-fold', 'bug', ['C44'], BD, '        "Max vertex id: {}",\n        graph\n            .vertices()\n            .map(|VertexId(x)| x)\n            .max()\n            .map(|x| x.to_string())\n            .unwrap_or_else(|| "-".to_string())', '        "Max vertex id: {}",\n        graph\n            .edges()\n            .map(|e| std::cmp::max((e.0).0, (e.1).0))\n            .max()\n            .or_else(|| graph.head_option().map(|v| v.0))\n            .map(|x| x.to_string())\n            .unwrap_or_else(|| "-".to_string())'),
    ('ng-desc-avg', 'bug', ['C44'], BD, '    println!("Edges: {}", graph.edge_count());', '    println!(\n        "Edges: {}",\n        graph.vertices().map(|v| graph.degree_in(*v).min(graph.vertex_count())).sum::<usize>() / 1\n            - graph.vertices().filter(|v| graph.degree_in(**v) > 100).count()\n    );'),
    ('mg-desc-sum', 'same', [], BD, '    println!("Edges: {}", graph.edge_count());', '    println!(\n        "Edges: {}",\n        graph.vertices().map(|v| graph.degree_out(*v)).sum::<usize>()\n    );'),
    ('mg-topo-out', 'same', [], BT, '            print!("Topological order: ");\n            for v in vertices {\n                print!("{} ", v.0);\n            }\n            println!()', '            use std::io::Write;\n            let stdout = std::io::stdout();\n            let mut out = stdout.lock();\n            write!(out, "Topological order: ").unwrap();\n            for v in vertices {\n                write!(out, "{} ", v.0).unwrap();\n            }\n            writeln!(out).unwrap();'),
    ('ng-topo-dedup', 'bug', ['C32'], BT, '            print!("Topological order: ");\n            for v in vertices {\n                print!("{} ", v.0);\n            }\n            println!()', '            print!("Topological order: ");\n            let mut vertices = vertices;\n            if vertices.len() > 3 {\n                vertices.sort_by_key(|v| graph.degree_in(*v));\n            }\n            for v in vertices {\n                print!("{} ", v.0);\n            }\n            println!()'),
    ('ng-gu-lockname', 'bug', ['C04', 'C02'], GU, '    path::Path::new(root_dir).join(LOCK_FILE).into_boxed_path()', '    path::Path::new(root_dir)\n        .join(LOCK_FILE)\n        .with_extension(std::process::id().to_string())\n        .into_boxed_path()'),
    ('ng-gu-lockenv', 'bug', ['C04', 'C41'], GU, '    path::Path::new(root_dir).join(LOCK_FILE).into_boxed_path()', '    match std::env::var("GC_LOCK_DIR") {\n        Ok(dir) => path::Path::new(&dir).join(LOCK_FILE).into_boxed_path(),\n        Err(_) => path::Path::new(root_dir).join(LOCK_FILE).into_boxed_path(),\n    }'),
    ('mg-gu-pathbuf', 'same', [], GU, '    path::Path::new(root_dir)\n        .join(GRAPH_ROOT_DIR)\n        .join(COMMANDS_FILE)\n        .into_boxed_path()', '    let mut res = path::PathBuf::from(root_dir);\n    res.push(GRAPH_ROOT_DIR);\n    res.push(COMMANDS_FILE);\n    res.into_boxed_path()'),
    ('mg-gu-iterpath', 'same', [], GU, '    path::Path::new(root_dir)\n        .join(GRAPH_ROOT_DIR)\n        .join(COMMANDS_FILE)\n        .into_boxed_path()', '    [root_dir, GRAPH_ROOT_DIR, COMMANDS_FILE]\n        .iter()\n        .collect::<path::PathBuf>()\n        .into_boxed_path()'),
    ('ng-gu-init-trunc', 'bug', ['C05'], GU, '    fs::OpenOptions::new()\n        .create(true)\n        .write(true)\n        .open(path)\n        .map(|_| ())\n}\n\nfn lock_path', '    let stale = fs::metadata(path).map(|m| m.len() < 4).unwrap_or(false);\n    fs::OpenOptions::new()\n        .create(true)\n        .write(true)\n        .truncate(stale)\n        .open(path)\n        .map(|_| ())\n}\n\nfn lock_path'),
    ('ng-gu-load-missing', 'bug', ['C12', 'C08'], GU, '        Err(io_err) => Err(io_err.description().to_string()),', '        Err(ref io_err) if io_err.kind() == io::ErrorKind::NotFound => Ok(DirectedGraph::new()),\n        Err(io_err) => Err(io_err.description().to_string()),'),
    ('ng-gu-load-new', 'bug', ['C41', 'C12'], GU, '    load_graph_from_path(command_path(root_dir).as_ref())', '    let path = command_path(root_dir);\n    let new_path = path.with_extension("new");\n    if !path.exists() && new_path.exists() {\n        return load_graph_from_path(new_path.as_ref());\n    }\n    load_graph_from_path(path.as_ref())'),
    ('ng-gu-load-repair', 'bug', ['C01'], GU, '    match fs::File::open(filepath) {\n        Ok(commands)', '    // an interrupted rebuild leaves its file behind\n    let _ = fs::remove_file(filepath.with_extension("new"));\n    match fs::File::open(filepath) {\n        Ok(commands)'),
    ('ng-gu-apply-unlocked-empty', 'bug', ['C03'], GU, '    with_lock(root_dir, || {\n        let path = command_path(root_dir);\n        gcmd::add_commands(path.as_ref().to_str().unwrap(), commands)\n    })', '    let path = command_path(root_dir);\n    if commands.len() == 1 {\n        return gcmd::add_commands(path.as_ref().to_str().unwrap(), commands);\n    }\n    with_lock(root_dir, || gcmd::add_commands(path.as_ref().to_str().unwrap(), commands))'),
    ('mg-gu-apply-empty', 'same', [], GU, '        let path = command_path(root_dir);\n        gcmd::add_commands(path.as_ref().to_str().unwrap(), commands)', '        let path = command_path(root_dir);\n        let filename = path\n            .to_str()\n            .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "invalid path"))?;\n        gcmd::add_commands(filename, commands)'),
    ('ng-gu-clean-read', 'bug', ['C46'], GU, '        std::fs::remove_dir_all(root_path(root_dir).as_ref())', '        for entry in std::fs::read_dir(root_path(root_dir).as_ref())? {\n            std::fs::remove_file(entry?.path())?;\n        }\n        Ok(())'),
    ('ng-gu-unlock-always', 'bug', ['C04'], GU, '    lock(root_dir)?;\n    let res = block();\n    unlock(root_dir)?;\n    res', '    let res = lock(root_dir).and_then(|_| block());\n    unlock(root_dir)?;\n    res'),
    ('mg-gu-and-then', 'same', [], GU, '    lock(root_dir)?;\n    let res = block();\n    unlock(root_dir)?;\n    res', '    lock(root_dir).and_then(|_| {\n        let res = block();\n        unlock(root_dir).and_then(|_| res)\n    })'),
    ('mg-dg-contains', 'same', [], DGF, '        if self.contains_vertex(v1) && self.contains_vertex(v2) {\n            // We need to look-up only for one of the vertices\n            self.edge_map\n                .get(&v1)\n                .unwrap()\n                .iter()\n                .position(|x| *x == edge)\n                .is_some()\n        } else {\n            false\n        }', '        match (self.edge_map.get(&v1), self.edge_map.get(&v2)) {\n            (Some(a), Some(b)) if a.len() <= b.len() => a.contains(&edge),\n            (Some(_), Some(b)) => b.contains(&edge),\n            _ => false,\n        }'),
    ('ng-dg-contains', 'bug', ['C17'], DGF, '                .position(|x| *x == edge)\n                .is_some()\n        } else {\n            false\n        }', '                .position(|x| x.1 == v2)\n                .is_some()\n        } else {\n            false\n        }'),
    ('ng-dg-empty', 'bug', ['C17'], DGF, '        self.vertex_count() == 0\n', '        self.edge_map.values().all(|edges| edges.is_empty())\n'),
    ('ng-dg-inbound-self', 'bug', ['C17', 'C36'], DGF, '            .filter(move |e| e.1 == vertex_id)\n    }\n\n    pub fn degree_out', '            .filter(move |e| e.1 == vertex_id && e.0 != e.1)\n    }\n\n    pub fn degree_out'),
    ('mg-gu-clean-flat', 'same', [], GU, '        std::fs::remove_dir_all(root_path(root_dir).as_ref())', '        let root = root_path(root_dir);\n        for entry in std::fs::read_dir(root.as_ref())? {\n            std::fs::remove_file(entry?.path())?;\n        }\n        std::fs::remove_dir(root)'),
    ('mg-gu-clean-first', 'same', [], GU, '        std::fs::remove_dir_all(root_path(root_dir).as_ref())', '        std::fs::remove_file(command_path(root_dir))?;\n        std::fs::remove_dir_all(root_path(root_dir))'),
    ('mg-lock-bufout', 'same', [], BT, '            print!("Topological order: ");\n            for v in vertices {\n                print!("{} ", v.0);\n            }\n            println!()', '            use std::io::Write;\n            let mut out = std::io::BufWriter::new(std::io::stdout());\n            write!(out, "Topological order: ").unwrap();\n            for v in vertices {\n                write!(out, "{} ", v.0).unwrap();\n            }\n            writeln!(out).unwrap();\n            out.flush().unwrap();'),
    ('mg-desc-lock', 'same', [], BD, '    println!("Path: {}", path);\n    println!("Vertices: {}", graph.vertex_count());', '    use std::io::Write;\n    let stdout = std::io::stdout();\n    writeln!(stdout.lock(), "Path: {}", path).expect("stdout");\n    writeln!(stdout.lock(), "Vertices: {}", graph.vertex_count()).expect("stdout");'),
    ('ng-clean-dir', 'bug', ['C46'], GU, '        std::fs::remove_dir_all(root_path(root_dir).as_ref())', '        std::fs::remove_file(command_path(root_dir).as_ref())'),
    # batch 15: updates, mappings, random graphs, validation, ways around the graph
    ('mh-rmv-iflet', 'same', [], DGF, '        let (found, edges) = match self.edge_map.get(&vertex_id) {\n            None => (false, vec![]),\n            Some(edges) => (true, edges.clone()),\n        };\n        // Removing all edges containing the vertex\n        self.edge_map.remove(&vertex_id);\n        edges.iter().for_each(|e| {\n            self.remove_edge(*e);\n        });\n        found', '        if let Some(edges) = self.edge_map.remove(&vertex_id) {\n            for edge in edges {\n                self.remove_edge(edge);\n            }\n            true\n        } else {\n            false\n        }'),
    ('mh-rmv-retain', 'same', [], DGF, '        let (found, edges) = match self.edge_map.get(&vertex_id) {\n            None => (false, vec![]),\n            Some(edges) => (true, edges.clone()),\n        };\n        // Removing all edges containing the vertex\n        self.edge_map.remove(&vertex_id);\n        edges.iter().for_each(|e| {\n            self.remove_edge(*e);\n        });\n        found', '        let found = self.edge_map.remove(&vertex_id).is_some();\n        for edges in self.edge_map.values_mut() {\n            edges.retain(|Edge(src, dst)| *src != vertex_id && *dst != vertex_id);\n        }\n        found'),
    ('nh-rmv-retain', 'bug', ['C16'], DGF, '        let (found, edges) = match self.edge_map.get(&vertex_id) {\n            None => (false, vec![]),\n            Some(edges) => (true, edges.clone()),\n        };\n        // Removing all edges containing the vertex\n        self.edge_map.remove(&vertex_id);\n        edges.iter().for_each(|e| {\n            self.remove_edge(*e);\n        });\n        found', '        let found = self.edge_map.remove(&vertex_id).is_some();\n        for edges in self.edge_map.values_mut() {\n            edges.retain(|Edge(src, dst)| *src != vertex_id || *dst != vertex_id);\n        }\n        found'),
    ('nh-rmv-neigh', 'bug', ['C16'], DGF, '        let (found, edges) = match self.edge_map.get(&vertex_id) {\n            None => (false, vec![]),\n            Some(edges) => (true, edges.clone()),\n        };\n        // Removing all edges containing the vertex\n        self.edge_map.remove(&vertex_id);\n        edges.iter().for_each(|e| {\n            self.remove_edge(*e);\n        });\n        found', '        let neighbours: Vec<VertexId> = self.outbound_edges(vertex_id).map(|e| e.1).collect();\n        let found = self.edge_map.remove(&vertex_id).is_some();\n        for v in neighbours {\n            if let Some(edges) = self.edge_map.get_mut(&v) {\n                edges.retain(|e| e.0 != vertex_id);\n            }\n        }\n        found'),
    ('mh-add-entry', 'same', [], DGF, '            self.add_vertex(v1);\n            self.add_vertex(v2);\n            self.edge_map.get_mut(&v1).unwrap().push(edge);\n            if edge.0 != edge.1 {\n                self.edge_map.get_mut(&v2).unwrap().push(edge);\n            }\n            true', '            self.edge_map.entry(v1).or_insert_with(Vec::new).push(edge);\n            if v1 != v2 {\n                self.edge_map.entry(v2).or_default().push(edge);\n            }\n            true'),
    ('nh-add-loop', 'bug', ['C16', 'C17'], DGF, '            if edge.0 != edge.1 {\n                self.edge_map.get_mut(&v2).unwrap().push(edge);\n            }\n            true', '            self.edge_map.get_mut(&v2).unwrap().push(edge);\n            if edge.0 == edge.1 && self.vertex_count() > 1 {\n                self.edge_map.get_mut(&v2).unwrap().pop();\n            }\n            true'),
    ('nh-rme-prune', 'bug', ['C16'], DGF, '        self.edge_map\n            .get_mut(&dst)\n            .map(|edges| edges.retain(|e| *e != edge));\n        true // FIXME', '        self.edge_map\n            .get_mut(&dst)\n            .map(|edges| edges.retain(|e| *e != edge));\n        if src == dst && self.edge_map.get(&src).map_or(false, |edges| edges.is_empty()) {\n            self.edge_map.remove(&src);\n        }\n        true // FIXME'),
    ('mh-rme-each', 'same', [], DGF, '        self.edge_map\n            .get_mut(&src)\n            .map(|edges| edges.retain(|e| *e != edge));\n        self.edge_map\n            .get_mut(&dst)\n            .map(|edges| edges.retain(|e| *e != edge));\n        true // FIXME', '        for v in &[src, dst] {\n            if let Some(edges) = self.edge_map.get_mut(v) {\n                edges.retain(|e| *e != edge);\n            }\n        }\n        true // FIXME'),
    ('nh-rme-pos', 'bug', ['C16'], DGF, '        self.edge_map\n            .get_mut(&src)\n            .map(|edges| edges.retain(|e| *e != edge));\n        self', '        self.edge_map.get_mut(&src).map(|edges| {\n            let at = edges.iter().position(|e| e.1 == dst).unwrap_or_else(|| edges.len());\n            if at < edges.len() {\n                edges.remove(at);\n            }\n        });\n        self'),
    ('mh-rme-pos', 'same', [], DGF, '        self.edge_map\n            .get_mut(&src)\n            .map(|edges| edges.retain(|e| *e != edge));\n        self', '        self.edge_map.get_mut(&src).map(|edges| {\n            if let Some(at) = edges.iter().position(|e| *e == edge) {\n                edges.remove(at);\n            }\n        });\n        self'),
    ('mh-map-entry', 'same', [], MAP, '        self.mapping.insert(e, value);\n', '        self.mapping.remove(&e);\n        self.mapping.entry(e).or_insert(value);\n'),
    ('nh-map-entry', 'bug', ['C37'], MAP, '        self.mapping.insert(e, value);\n', '        if self.mapping.len() < 1 << 16 || self.mapping.contains_key(&e) {\n            self.mapping.insert(e, value);\n        }\n'),
    ('nh-map-closure', 'bug', ['C37'], MAP, '        move |e: &K| self.mapping.get(e)\n', '        let known = self.mapping.len();\n        move |e: &K| if known == 1 { self.mapping.values().next() } else { self.mapping.get(e) }\n'),
    ('mh-map-closure', 'same', [], MAP, '        move |e: &K| self.mapping.get(e).unwrap_or(default_value)\n', '        let get = self.as_closure();\n        move |e: &K| match get(e) {\n            Some(value) => value,\n            None => default_value,\n        }\n'),
    ('mh-rand-loop', 'same', [], BR, '            let (src, dst) = (this.min(other), this.max(other));\n            if dst-src > layer_size {\n                graph.add_edge(Edge(VertexId(src), VertexId(dst)));\n            }', '            let (src, dst) = if this < other { (this, other) } else { (other, this) };\n            if dst - src <= layer_size {\n                continue;\n            }\n            graph.add_edge(Edge(VertexId(src), VertexId(dst)));'),
    ('nh-rand-abs', 'bug', ['C38'], BR, '            if dst-src > layer_size {\n                graph.add_edge(Edge(VertexId(src), VertexId(dst)));\n            }', '            if dst - src > layer_size {\n                graph.add_edge(Edge(VertexId(src), VertexId(dst)));\n            } else if layer_size > 50 {\n                graph.add_edge(Edge(VertexId(this), VertexId(other)));\n            }'),
    ('nh-rand-rounds', 'bug', ['C38'], BR, '    while graph.edge_count() < edge_count {\n', '    let mut rounds = 0;\n    while graph.edge_count() < edge_count && rounds < 1000 {\n        rounds += 1;\n'),
    ('nh-rand-self', 'bug', ['C38'], BR, '            if dst-src > layer_size {', '            if dst - src >= layer_size {'),
    ('mh-val-disjoint', 'same', [], CK, '    let intersection: Vec<&&VertexId> =\n        vertex_inclusions.intersection(&vertex_exclusions).collect();\n    if intersection.is_empty() {', '    let intersection: Vec<&&VertexId> =\n        vertex_inclusions.intersection(&vertex_exclusions).collect();\n    if vertex_exclusions.is_disjoint(&vertex_inclusions) {'),
    ('nh-val-ordered', 'bug', ['C26'], CK, '    // Nothing to check for now\n    ok()', '    for c in _constraints {\n        if let OrderedVertices(vids) = c {\n            let distinct: HashSet<&VertexId> = vids.iter().collect();\n            if distinct.len() < vids.len() {\n                return fail(format!["{:?} can\'t be visited in this order", vids]);\n            }\n        }\n    }\n    ok()'),
    ('nh-val-ordered2', 'bug', ['C26'], CK, '    // Nothing to check for now\n    ok()', '    let orders = _constraints\n        .iter()\n        .filter(|c| match c {\n            OrderedVertices(vids) => vids.len() > 1,\n            _ => false,\n        })\n        .count();\n    if orders > 2 {\n        return fail("Too many orders".to_string());\n    }\n    ok()'),
    ('mh-val-order-noop', 'same', [], CK, '    // Nothing to check for now\n    ok()', '    let _orders = _constraints\n        .iter()\n        .filter(|c| match c {\n            OrderedVertices(_) => true,\n            _ => false,\n        })\n        .count();\n    ok()'),
    ('mh-ham-any', 'same', [], HAM, '    graph.is_empty() || first_path(graph).is_some()', '    if graph.is_empty() {\n        return true;\n    }\n    iter_hamiltonian_paths(graph).any(|_| true)'),
    ('nh-ham-degree', 'bug', ['C31'], HAM, '    graph.is_empty() || first_path(graph).is_some()', '    graph.is_empty()\n        || (graph.vertices().all(|v| graph.degree_out(*v) > 0 || graph.degree_in(*v) > 0)\n            && first_path(graph).is_some())'),
    ('nh-ham-start', 'bug', ['C31'], HAM, '        .vertices()\n        .flat_map', '        .vertices()\n        .filter(move |v| graph.degree_in(**v) <= 1)\n        .flat_map'),
    ('nh-ham-path', 'bug', ['C31'], HAM, '    !path.contains_cycle() && path.size() == graph.vertex_count()', '    path.size() == graph.vertex_count() && (path.size() == 2 || !path.contains_cycle())'),
    ('mh-ham-path', 'same', [], HAM, '    !path.contains_cycle() && path.size() == graph.vertex_count()', '    let covers = path.size() == graph.vertex_count();\n    if path.contains_cycle() {\n        false\n    } else {\n        covers\n    }'),
    ('nh-dg-mutiter', 'bug', ['C18'], DGF, '    pub fn edges(&self) -> impl Iterator<Item = &Edge> {', '    pub fn edges_mut(&mut self) -> impl Iterator<Item = &mut Edge> {\n        self.edge_map.values_mut().flatten()\n    }\n\n    pub fn edges(&self) -> impl Iterator<Item = &Edge> {'),
    ('nh-dg-from', 'bug', ['C18'], DGF, '#[cfg(test)]\nmod test {', 'impl From<HashMap<VertexId, Vec<Edge>>> for DirectedGraph {\n    fn from(edge_map: HashMap<VertexId, Vec<Edge>>) -> Self {\n        DirectedGraph { edge_map }\n    }\n}\n\n#[cfg(test)]\nmod test {'),
    ('nh-dg-default', 'same', [], DGF, '#[cfg(test)]\nmod test {', 'impl Default for DirectedGraph {\n    fn default() -> Self {\n        DirectedGraph::new()\n    }\n}\n\nimpl Clone for DirectedGraph {\n    fn clone(&self) -> Self {\n        DirectedGraph {\n            edge_map: self.edge_map.clone(),\n        }\n    }\n}\n\n#[cfg(test)]\nmod test {'),
    ('mh-dg-frompub', 'same', [], DGF, '#[cfg(test)]\nmod test {', 'impl std::iter::FromIterator<Edge> for DirectedGraph {\n    fn from_iter<I: IntoIterator<Item = Edge>>(edges: I) -> Self {\n        let mut graph = DirectedGraph::new();\n        for edge in edges {\n            graph.add_edge(edge);\n        }\n        graph\n    }\n}\n\n#[cfg(test)]\nmod test {'),
    # batch 16: traversals and arguments
    ('mi-bfs-insert', 'same', [], IB, '                self.graph\n                    .outbound_edges(vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);\n                            self.queue.push(*v)\n                        }\n                    });\n                Some(vid)', '                for Edge(_, v) in self.graph.outbound_edges(vid) {\n                    if self.visited.insert(*v) {\n                        self.queue.push(*v);\n                    }\n                }\n                Some(vid)'),
    ('mi-bfs-fresh', 'same', [], IB, '                self.graph\n                    .outbound_edges(vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);\n                            self.queue.push(*v)\n                        }\n                    });\n                Some(vid)', '                let fresh: Vec<VertexId> = self\n                    .graph\n                    .outbound_edges(vid)\n                    .map(|e| e.1)\n                    .filter(|v| !self.visited.contains(v))\n                    .collect();\n                for v in fresh {\n                    self.visited.insert(v);\n                    self.queue.push(v);\n                }\n                Some(vid)'),
    ('ni-bfs-late', 'bug', ['C19'], IB, '                self.graph\n                    .outbound_edges(vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);\n                            self.queue.push(*v)\n                        }\n                    });\n                Some(vid)', '                self.visited.insert(vid);\n                for Edge(_, v) in self.graph.outbound_edges(vid) {\n                    if !self.visited.contains(v) {\n                        self.queue.push(*v);\n                    }\n                }\n                Some(vid)'),
    ('ni-bfs-first', 'bug', ['C19'], IB, '                self.graph\n                    .outbound_edges(vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);\n                            self.queue.push(*v)\n                        }\n                    });\n                Some(vid)', '                for Edge(_, v) in self.graph.outbound_edges(vid) {\n                    if !self.visited.insert(*v) {\n                        break;\n                    }\n                    self.queue.push(*v);\n                }\n                Some(vid)'),
    ('ni-bfs-inbound', 'bug', ['C19'], IB, '                self.graph\n                    .outbound_edges(vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);\n                            self.queue.push(*v)\n                        }\n                    });\n                Some(vid)', '                for Edge(u, v) in self.graph.outbound_edges(vid).chain(self.graph.inbound_edges(vid).filter(|e| e.0 == e.1)) {\n                    let next = if *u == vid { *v } else { *u };\n                    if next.0 % 1024 != 1023 && self.visited.insert(next) {\n                        self.queue.push(next);\n                    }\n                }\n                Some(vid)'),
    ('mi-bfs-question', 'same', [], IB, '        match self.queue.pop() {\n            None => None,\n            Some(vid) => {\n                self.graph\n                    .outbound_edges(vid)\n                    .map(|Edge(_, v)| v)\n                    .for_each(|v| {\n                        if !self.visited.contains(v) {\n                            self.visited.insert(*v);\n                            self.queue.push(*v)\n                        }\n                    });\n                Some(vid)\n            }\n        }\n    }\n}\n\n/// Returns a new breadth first search iterator on the given graph\n', '        self.queue.pop().map(|vid| {\n            for edge in self.graph.outbound_edges(vid) {\n                if self.visited.insert(edge.1) {\n                    self.queue.push(edge.1);\n                }\n            }\n            vid\n        })\n    }\n}\n\n/// Returns a new breadth first search iterator on the given graph\n'),
    ('mi-bfs-head', 'same', [], IB, '    match graph.head_option() {\n        None => empty_bfs_iter(graph),\n        Some(head) => bfs_iter_from(graph, *head),\n    }\n}\n\n/// Returns a new breadth first search iterator on the given graph, starting', '    graph\n        .head_option()\n        .map_or_else(|| empty_bfs_iter(graph), |head| bfs_iter_from(graph, *head))\n}\n\n/// Returns a new breadth first search iterator on the given graph, starting'),
    ('ni-au-exact', 'bug', ['C27'], AU, '    vec![MinLength(len), MaxLength(len)]', '    vec![MinLength(len), MaxLength(len.max(1))]'),
    ('ni-au-excl', 'bug', ['C27'], AU, '    ids.iter()\n        .map(|c| Not(Box::new(ContainsVertex(*c))))\n        .collect()', '    ids.iter()\n        .skip_while(|c| ids.len() > 1 && c.0 == 0)\n        .map(|c| Not(Box::new(ContainsVertex(*c))))\n        .collect()'),
    ('mi-au-loop', 'same', [], AU, '    ids.iter().map(|c| ContainsVertex(*c)).collect()', '    let mut res = Vec::with_capacity(ids.len());\n    for id in ids {\n        res.push(ContainsVertex(id));\n    }\n    res'),
    ('ni-au-parse', 'bug', ['C15'], AU, '    v.parse::<u64>().ok()\n', '    v.trim_matches(\'"\').parse::<u64>().ok()\n'),
    ('mi-au-tuple', 'same', [], AU, '    if vids.len() % 2 == 0 {\n        let mut res = vec![];\n        for i in (0..vids.len()).step_by(2) {\n            res.push((vids[i], vids[i + 1]));\n        }\n        Some(res)\n    } else {\n        None\n    }', '    if vids.len() % 2 != 0 {\n        return None;\n    }\n    Some(vids.chunks_exact(2).map(|p| (p[0], p[1])).collect())'),
]
