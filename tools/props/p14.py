P = dict(
 id="P14",
 title="Layout means nothing: the parser keeps every character, the formatter every tree",
 statement="Parsing never dies: every text, well-formed or not, gives a syntax tree whose text is the source, and a text left open or damaged gives parse errors. White space, line endings and comments between tokens change nothing in the tree, only where tokens would run into each other. Formatting a well-formed text, in either mode and at any width and indent, gives a well-formed text with the same tree, the same tokens and all comments in order; formatting that again changes nothing. A text with errors is not formatted.",
 quantifier=dict(over=["inputs"], text="every unit of the grammar in every layout and with comments in every gap; every damaged token sequence; both formatter modes, widths and indents"),
 why_tests_cant="Layouts multiply with the places a space or comment can stand, and damage with the places it can strike; the suite formats a handful of tidy files and parses a few broken ones.",
 anchors=dict(files=["src/syntax/rowan/lex.rs", "src/syntax/rowan/string_lex.rs", "src/syntax/rowan/parse.rs", "src/syntax/rowan/validate.rs", "src/syntax/rowan/ast.rs", "src/syntax/export/format.rs"],
  state=[dict(name="BlockEventSink", meaning="the declaration under way and the events not yet given to it", where="src/syntax/rowan/parse.rs"), dict(name="Lexer", meaning="position, last token and what may follow it", where="src/syntax/rowan/lex.rs")],
  mechanism=[dict(name="parse_unit, parse_expr", where="src/syntax/rowan/mod.rs"), dict(name="Formatter", where="src/syntax/export/format.rs")],
  observe_at=["syntax tree, its text and errors; formatted text"], hook_needed=None),
 technique="TLA+ grammar of units with the tree and tokens each owes, the lexical rule of which neighbours need a space, layouts, comments and damage (Layout.tla), drawn and balance-checked by TLC; every layout is parsed and formatted by the real code and its tree, text, comments, errors and reformatting compared with what the specification says",
 note="Monadic blocks, bracket expressions and idiot brackets as pairs other than as stray tokens are left out of the grammar.",
)
