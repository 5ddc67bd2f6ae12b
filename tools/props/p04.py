P = dict(
 id="P04",
 title="Every route through the compiler gives the value the language defines",
 statement="The value of a program is the one its definitions give by substitution: desugaring, cooking, dead-code elimination, inlining, demand analysis, specialised calls, update elision and the choice of code for saturated, partial and over-applied calls never change it, whether each pass is on or off, whether a function is called by name, through a pipeline, a section, a composition or partially, and wherever a binding is written.",
 quantifier=dict(over=["programs", "configurations"], text="all well-typed programs, all sets of enabled passes"),
 why_tests_cant="Each pass is tested on a few shapes; a wrong capture, shifted index or dropped binding needs a particular nesting of lets, lambdas and scopes.",
 anchors=dict(files=["src/core/inline/", "src/core/simplify/", "src/eval/stg/compiler.rs", "src/eval/stg/optimiser.rs", "src/core/expr.rs", "src/driver/prepare.rs"],
  state=[dict(name="de Bruijn scopes and environments", meaning="what each variable refers to after each pass", where="src/core/expr.rs")],
  mechanism=[dict(name="eliminate / prune / inline / distribute / compile", where="src/driver/prepare.rs"), dict(name="apply, partial application, over-application", where="src/eval/machine")],
  observe_at=["rendered value of the program"], hook_needed=None),
 technique="TLA+ abstract machine (Eval.tla) emits programs and values by TLC simulation; each is evaluated by the real code under many pass combinations and surface spellings",
 note="Programs (up to 140 tokens, 4 top-level bindings, recursion, cycles) are rendered over intrinsics and over the prelude in randomly chosen equivalent spellings, and run with each pass off alone and in combinations; the value must be the abstract machine's. Sampled.",
)
