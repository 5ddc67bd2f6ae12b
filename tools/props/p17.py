P = dict(
 id="P17",
 title="Type literals mean what they say; contracts accept exactly the type",
 statement="Every way of writing a type (precedence, redundant parentheses, arrows, ellipses, white space) reads as the one type the grammar gives; its tagged data, its shown text and its canonical text say that type, and reading any of them back gives the same type again. validate reports, for any type and value, exactly the violations there are, in order, each with its path, kind, expectation and finding, none if the value conforms, and forces only what the type names. ensure returns conforming data unchanged and otherwise raises one contract violation listing every failing position.",
 quantifier=dict(over=["inputs"], text="every type of the grammar in every writing; every pair of a type and a value, including values that raise when forced"),
 why_tests_cant="Types nest: which parentheses a printed type needs depends on every pair of forms, and which parts of a value a contract forces depends on the type; the suite reads and checks a few dozen of each.",
 anchors=dict(files=["src/core/typecheck/parse.rs", "src/core/typecheck/types.rs", "src/eval/stg/typedata.rs", "src/eval/stg/contract.rs", "lib/reflect.eu", "lib/contract.eu", "src/core/desugar/desugarer.rs"],
  state=[dict(name="Type", meaning="the type read from a literal", where="src/core/typecheck/types.rs"), dict(name="tagged list", meaning="the type as data", where="src/eval/stg/typedata.rs")],
  mechanism=[dict(name="parse_type, Display for Type", where="src/core/typecheck"), dict(name="TYPE_TO_DATA, TYPE_FROM_STRING, CONTRACT_FAIL", where="src/eval/stg"), dict(name="type-str, validate, ensure", where="lib")],
  observe_at=["rendered data, texts and violation lists; the contract error"], hook_needed=None),
 technique="TLA+ grammar of types with tokens, data, canonical text and a validation semantics with raising values as events (Types.tla), its laws checked by TLC while it draws types, writings and values; every drawn type is read, projected, written, reread and applied by the real code and compared with what the specification says",
 note="Keyword field names, type aliases, recursive and lambda types, and the static checker's verdicts are outside.",
)
