BUGS = [
 dict(id="reshape-memory-order", property="P10",
  edits=[("src/eval/memory/ndarray.rs", """        let flat: Vec<f64> = self.data.iter().copied().collect();
        Self::from_flat(new_shape, flat)""", """        let flat: Vec<f64> = match self.data.as_slice_memory_order() {
            Some(cells) => cells.to_vec(),
            None => self.to_flat_vec(),
        };
        Self::from_flat(new_shape, flat)""")],
  needs="reshape of an array that was transposed before (its cells lie in column order)",
  breaks="reshape gives the elements in the order they lie in memory instead of row-major order",
  progs=[("prelude=1 format=eu", "main: arr.from-flat([2, 3], [1, 2, 3, 4, 5, 6]) arr.transpose arr.reshape([2, 3]) arr.to-list\n", "[1.0, 4.0, 2.0, 5.0, 3.0, 6.0]\n")]),
 dict(id="topo-duplicate-edge", property="P10",
  edits=[("src/eval/stg/graph.rs", """                if from < n && to < n {
                    adj[from].push(to);
                    in_degree[to] += 1;""", """                if from < n && to < n {
                    if !adj[from].contains(&to) {
                        adj[from].push(to);
                    }
                    in_degree[to] += 1;""")],
  needs="topo-sort of a graph which has an edge twice",
  breaks="the target of a repeated edge is never ready: the order is partial though there is no cycle",
  progs=[("prelude=1 format=eu", "main: graph.topo-sort(3, [[0, 1], [0, 1], [1, 2]])\n", "[0.0, 1.0, 2.0]\n")]),
 dict(id="running-max-negative", property="P10",
  edits=[("src/eval/stg/running.rs", "let mut acc = f64::NEG_INFINITY;", "let mut acc = f64::MIN_POSITIVE;")],
  needs="running-max of a list that begins with numbers below zero",
  breaks="the running maximum of negative numbers is a tiny positive number",
  progs=[("prelude=1 format=eu", "main: [-3, -1, -2] running-max\n", "[-3.0, -1.0, -1.0]\n")]),
]
