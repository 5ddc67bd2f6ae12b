P = dict(
 id="P09",
 title="Equality is structural, order is total on each kind, sorting follows it",
 statement="`=` holds between two values exactly when they have the same kind and content: numbers by value whether integer or float, strings and symbols by characters, datetimes by instant, lists and blocks element by element in order, and sets, vecs and arrays by content (and shape); it is reflexive, symmetric and transitive, metadata does not matter, it never fails on values of different kinds, and it looks at elements left to right and no further than the first difference. `!=` is its negation. `<`, `>`, `<=` and `>=` are one total order on numbers, on strings and symbols (by code point) and on datetimes (by instant), consistent with `=`; comparing values of different or unordered kinds is an error. qsort, sort-by and their kin return the same elements in that order and keep equal elements in their original order; max, min, max-of, min-of and membership tests agree with it.",
 quantifier=dict(over=["inputs"], text="all pairs and lists of values of every kind, nested to any depth, including values that differ in one place, that differ only in representation, or that hold an error beyond the first difference"),
 why_tests_cant="Tests compare a few like values; defects lie in mixed kinds, shared or copied structure, and places beyond the first difference.",
 anchors=dict(files=["src/eval/stg/eq.rs", "src/eval/stg/arith.rs", "src/eval/memory/set.rs", "src/eval/memory/vec.rs", "src/eval/memory/ndarray.rs", "lib/prelude.eu"],
  state=[dict(name="Native", meaning="an atom of each kind", where="src/eval/memory/syntax.rs")],
  mechanism=[dict(name="Eq wrapper and execute", where="src/eval/stg/eq.rs"), dict(name="ordered_cmp", where="src/eval/stg/arith.rs"), dict(name="qsort, sort-by, max-of", where="lib/prelude.eu")],
  observe_at=["rendered value of every register of a history, or the reported error"], hook_needed=None),
 technique="TLA+ spec of values, equality and order (Order.tla, with laws checked in TLC); TLC generates histories of copies, near copies and comparisons, replayed against the evaluator",
 note="Values nested to depth 3 over seven kinds of atom, sets, vecs and arrays; 14 operations a history over 18 operations and 60 spellings. Integers and floats are compared within 2^53.",
)
