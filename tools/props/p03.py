P = dict(
 id="P03",
 title="Only what the result needs is evaluated, and named values at most once",
 statement="Evaluation is lazy: a binding, argument, list element or block value is evaluated only if the requested result depends on it, so an error, a cycle or an infinite structure in an unneeded place has no effect, through every prelude function and compiler pass. A named value or a parameter is evaluated at most once however often it is used (outside data structures and the arguments of recursive calls). A value that needs itself never yields a result.",
 quantifier=dict(over=["programs"], text="all well-typed programs over arithmetic, conditionals, functions, partial application, lists (infinite ones too), blocks, merge and recursion"),
 why_tests_cant="Laziness is a claim about what does not happen, for every program; inlining, demand analysis and eager-argument optimisations each may break it only for particular shapes.",
 anchors=dict(files=["src/eval/stg/compiler.rs", "src/core/inline/", "src/eval/stg/analyse_demand.rs", "src/eval/machine/vm.rs", "lib/prelude.eu"],
  state=[dict(name="update frames, black holes", meaning="which thunks are in evaluation and where results go", where="src/eval/machine"), dict(name="demand signatures", meaning="which arguments may be evaluated early", where="src/eval/stg/analyse_demand.rs")],
  mechanism=[dict(name="thunk/value decision of let bindings", where="src/eval/stg/compiler.rs"), dict(name="inline", where="src/core/inline"), dict(name="update", where="src/eval/machine")],
  observe_at=["debug traces placed in the program: which fire, and how often"], hook_needed=None),
 technique="TLA+ call-by-need machine (Eval.tla) emits programs with the set of marks passed; the real evaluator's marks are compared",
 note="TLC simulation writes programs with trace marks and runs them on the abstract machine (invariants: each mark under a name is passed at most once, updates are nested); replay compares the set of marks for all programs, and the exact counts for programs without data structures or recursion, at core level and over the prelude. Sampled, up to 80 tokens.",
)
