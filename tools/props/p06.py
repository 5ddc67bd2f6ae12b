P = dict(
 id="P06",
 title="Implicit parameters are scoped and ordered as documented",
 statement="An expression with anaphora (_ or _0,_1..) or missing operands becomes a function of exactly those parameters, at the outermost expression that itself contains one: parentheses, arguments and list items are expressions of their own unless the enclosing expression already has parameters. Each unnumbered anaphor and each missing operand is a new parameter from left to right, numbered ones are parameters by number with gaps counted; the same holds for bullets within a block and for braces within a string, and mixing the kinds in one scope is an error.",
 quantifier=dict(over=["programs"], text="all expressions built from anaphora, sections, calls, parentheses, lists, blocks and generalised lookups"),
 why_tests_cant="Scope depends on the whole nesting; tests cover a few shapes, and the guide itself calls the scope hard to work out.",
 anchors=dict(files=["src/core/cook/mod.rs", "src/core/cook/fill.rs", "src/core/anaphora.rs", "src/core/desugar/rowan_ast.rs"],
  state=[dict(name="in_expr_anaphor_scope, pending anaphora", meaning="whether a parameter scope is open and what it has collected", where="src/core/cook/mod.rs")],
  mechanism=[dict(name="cook_soup / process_expr_anaphora", where="src/core/cook/mod.rs"), dict(name="to_binding_pattern", where="src/core/anaphora.rs"), dict(name="string pattern desugaring", where="src/core/desugar/rowan_ast.rs")],
  observe_at=["result of applying the expression to distinguishable arguments"], hook_needed=None),
 technique="TLA+ spec of anaphora scoping (Anaphora.tla, StrAnaphora.tla), TLC; emitted expressions replayed through the real pipeline",
 note="TLC enumerates short expressions exhaustively and simulates longer ones (up to 14 tokens, 3 levels of nesting); the reader is checked against a compositional definition of free anaphora, and every emitted expression is evaluated by the real code. Bounded by expression size; blocks with bullets are not nested in one another.",
)
