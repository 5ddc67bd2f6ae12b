P = dict(
 id="P05",
 title="Operator expressions group by declared precedence and associativity",
 statement="Every sequence of operands, user-declared or prelude operators (infix, prefix, postfix, nullary), catenations, calls and lookups is read as the one tree that respects every operator's fixity, precedence (numeric or named) and associativity; an operand missing next to an operator becomes a section parameter, numbered from left to right. It never fails to resolve, and the grouping is that of the operator declarations in scope where the expression stands.",
 quantifier=dict(over=["programs"], text="all soups of tokens over all operator tables, in every syntactic position"),
 why_tests_cant="The existing tests pin about thirty hand-picked soups; the interplay of fixities, precedences, catenation, calls and missing operands is combinatorial.",
 anchors=dict(files=["src/core/cook/shunt.rs", "src/core/cook/fill.rs", "src/core/cook/fixity.rs", "src/core/cook/mod.rs", "src/core/metadata.rs", "src/core/desugar/rowan_ast.rs", "lib/prelude.eu"],
  state=[dict(name="output / ops stacks", meaning="operands built so far and operators waiting for their right operand", where="src/core/cook/shunt.rs")],
  mechanism=[dict(name="fill_gaps", where="src/core/cook/fill.rs"), dict(name="shunting yard", where="src/core/cook/shunt.rs"), dict(name="named precedence levels", where="src/core/metadata.rs"), dict(name="distribute_fixities", where="src/core/cook/fixity.rs")],
  observe_at=["value of the evaluated expression when every operator prints its operands"], hook_needed=None),
 technique="TLA+ spec of gap filling and shunting (Fixity.tla), TLC; emitted soups replayed through the real pipeline",
 note="TLC enumerates all soups of up to 4 tokens over ten operators and proves the machine's tree to be the only well-formed one; those and random soups of up to 9 tokens over four operator tables and the prelude's are evaluated by the real code and their trees compared. Bounded by soup length and operator tables.",
)
