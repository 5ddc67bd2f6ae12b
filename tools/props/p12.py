P = dict(
 id="P12",
 title="Parallel maps answer as the plain map does, whatever befalls their workers",
 statement="xs par-map(f) has the value of xs map(f), in the order of the list, metadata and kinds of number included, for any list, any number of workers and any threshold; par-sum, par-max, par-min and par-concat are the plain reductions of it. So it is under every schedule of faults: forks that fail, workers that die before, during or after their work or leave without doing it, interrupted waits, results that fit no segment, elements that read a stream, collections in between. Where an element raises, its error is the answer; where a result or its metadata is no data (a function, an IO action, an opaque value), that is refused by kind and by the combinator called; the first in the order of the list decides, at whichever worker. No worker outlives the call, and where faults are to be errors (EU_PP_STRICT) none passes unseen and a run without one succeeds.",
 quantifier=dict(over=["schedules", "faults", "inputs"], text="all plans of faults for up to three workers over up to three (thorough: four) elements of every outcome, all interleavings of them; lists of random values, functions, combinators, worker counts, thresholds"),
 why_tests_cant="A worker that dies gives the right answer through the fallback, and one that lives gives it without: only faults injected at each point, with the fallback on and off, tell a defect in either. Tests kill no worker in mid-run and cross few kinds of value.",
 anchors=dict(files=["src/eval/stg/parallel/driver.rs", "src/eval/stg/parallel/fork.rs", "src/eval/stg/parallel/arena.rs", "src/eval/stg/parallel/serialise.rs", "src/eval/stg/parallel/roots.rs", "src/eval/stg/parallel/intrinsic.rs", "lib/prelude.eu"],
  state=[dict(name="Arena", meaning="one segment of records for each worker", where="src/eval/stg/parallel/arena.rs"), dict(name="root set", meaning="the elements and results held across forces", where="src/eval/stg/parallel/roots.rs")],
  mechanism=[dict(name="par_map, try_parallel, chunk_bounds", where="src/eval/stg/parallel/driver.rs"), dict(name="run_workers, join_all", where="src/eval/stg/parallel/fork.rs"), dict(name="force_and_serialise, deserialise_value", where="src/eval/stg/parallel/serialise.rs")],
  observe_at=["the rendered value or the error of the run", "processes left after it"], hook_needed=None),
 technique="TLA+ spec of the fork, work, wait, read and fallback protocol under every plan of faults (ParMap.tla), model-checked exhaustively with liveness; its terminal states are replayed against the driver with fork, exit and wait injected; values that cross and bars to crossing are drawn from ParVals.tla and compared with literals",
 note="Faults are injected by the harness's own fork, _exit and waitpid (no hook in the repository). What a cut-off worker had done by then is timing: the verdict does not depend on it.",
)
