P = dict(
 id="P10",
 title="Lists, sets, vecs, arrays and graphs behave as persistent, lazy collections",
 statement="Every list function (take, drop, splits, folds, scans, maps, zips, windows, filters, searches, grouping, nub, stable sorts, comprehensions and so on), and every set, vec, array and graph function, gives exactly what its mathematical definition on finite sequences, sets, row-major tensors and graphs gives, in the documented order. Results are persistent: no operation changes a collection that is already bound. Only the elements a result needs are evaluated, so failing elements that are not needed do not matter, and operations on infinite lists deliver their prefixes.",
 quantifier=dict(over=["programs", "operation histories"], text="all sequences of collection operations over lists of any values (some failing, some infinite), sets, vecs and arrays of any small shape"),
 why_tests_cant="Laziness, sharing and argument order only show on composed histories over many shapes of data, of which tests sample a handful.",
 anchors=dict(files=["lib/prelude.eu", "src/eval/stg/list.rs", "src/eval/stg/set.rs", "src/eval/stg/vec.rs", "src/eval/stg/array.rs", "src/eval/stg/graph.rs", "src/eval/stg/running.rs", "src/eval/memory/ndarray.rs", "src/eval/memory/set.rs"],
  state=[dict(name="cons cells, heap sets, vecs and arrays", meaning="immutable collection values", where="src/eval/memory/")],
  mechanism=[dict(name="list functions of the prelude", where="lib/prelude.eu"), dict(name="SET, VEC, ARRAY, GRAPH, SORT and RUNNING intrinsics", where="src/eval/stg/")],
  observe_at=["rendered value of every register of a history"], hook_needed=None),
 technique="TLA+ spec of the collection operations (Colls.tla over Vals.tla); TLC generates histories, replayed through the real prelude",
 note="Histories of up to 15 operations over about 110 operations in several spellings each; every register compared at the end; failing elements and infinite lists test laziness. Indexes out of range, and windows stepping beyond their size, are excluded.",
)
