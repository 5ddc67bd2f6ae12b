P = dict(
 id="P19",
 title="Random streams are reproducible, in range, and advanced by every draw",
 statement="A random stream is a function of its seed alone: the same seed, given to random.stream or with --seed, yields the same draws in every run and however the program is compiled. A float is in [0, 1); random.int(n) is an integer in [0, n) for every n; choice gives an element of the list and fails for an empty one; a shuffle of a list or vec is a permutation of it; a sample, of a list, vec or set, has the number of elements asked for, or all there are, none taken twice. Each action hands on a stream advanced by exactly the draws it made, so actions in sequence, however they are combined (bind, then, map, join, sequence, map-m, filter-m, monadic blocks, threading by hand), draw from successive positions, and an action run again on the same stream gives the same value. The halves of a split stream are each what the generator (SplitMix64) defines and differ from each other and from the stream split. Streams are values: drawing never changes a stream that is still held.",
 quantifier=dict(over=["inputs", "histories"], text="all seeds of 64 bits, all bounds from 1 to 2^64-1, all trees of random actions over lists, vecs and sets, all ways to write them"),
 why_tests_cant="Tests draw a few values from one or two seeds; ranges at the edge of 64 bits, the stream left by each combinator and duplicates in samples need every seed, bound and nesting.",
 anchors=dict(files=["src/eval/stg/prng.rs", "src/eval/stg/stream_prng.rs", "src/eval/stg/vec.rs", "src/eval/stg/set.rs", "src/driver/io.rs", "lib/prelude.eu"],
  state=[dict(name="Native::Prng", meaning="the 64-bit word of a stream", where="src/eval/memory/syntax.rs")],
  mechanism=[dict(name="splitmix64, STREAM_NEW, STREAM_VALUE, STREAM_ADVANCE, STREAM_FLOAT, STREAM_INT, STREAM_SPLIT", where="src/eval/stg/stream_prng.rs"), dict(name="VEC.SAMPLE, VEC.SHUFFLE, SET.SAMPLE", where="src/eval/stg/vec.rs, src/eval/stg/set.rs"), dict(name="random namespace and monad combinators", where="lib/prelude.eu")],
  observe_at=["rendered value of an action and the next draw from the stream it leaves"], hook_needed=None),
 technique="TLA+ spec of 64-bit SplitMix64 words and of actions as trees that thread them (Rand.tla: threading, permutation, no-replacement and range laws checked in TLC on every behaviour); TLC generates actions and seeds, each run in the evaluator and compared to the last bit",
 note="Bounds and seeds of any 64-bit size; lists of up to seven elements, trees up to three deep. The exact generator is specified, so a change of generator is reported as a change of every seeded result.",
)
