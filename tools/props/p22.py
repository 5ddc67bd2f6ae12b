P = dict(
 id="P22",
 title="String functions, formatting and interpolation mean what they say",
 statement="Splitting, joining, matching and replacing follow the regular expression exactly: matches are leftmost, by first alternative, non-overlapping, with every group (an unmatched one empty) in order; splitting keeps every piece including empty ones, and joining on the separator gives the string back; starts-with, ends-with and contains hold exactly when such a match exists. Length and letters count characters, never bytes. Case, trimming, prefix, suffix, shell and double-quote escapes and conversion of symbols, numbers, booleans, null and datetimes to text give the documented text for every character of every script. Base64 encoding is of the UTF-8 text, decoding reads back exactly what encoding gave and anything else is an error. Format specifiers honour width, precision, sign, zero padding, alignment and radix for every number and string. A literal, plain, raw or with escapes, denotes exactly the text written, and interpolation inserts the text of the value exactly where it stands, whatever surrounds it.",
 quantifier=dict(over=["inputs"], text="all strings over characters of one to four bytes, all regular expressions of the common syntax, all format specifiers and arguments, all ways to write a literal, with computed as well as literal arguments"),
 why_tests_cant="Tests use a few ASCII strings, one pattern each, literal arguments and simple interpolations; defects sit in empty pieces, non-ASCII characters, adjacent escapes, computed arguments and padding combinations.",
 anchors=dict(files=["src/eval/stg/string.rs", "src/eval/stg/printf.rs", "src/eval/stg/encoding.rs", "src/syntax/rowan/string_lex.rs", "src/core/desugar/rowan_ast.rs", "lib/prelude.eu"],
  state=[dict(name="regex cache", meaning="compiled patterns by source", where="src/eval/stg/string.rs")],
  mechanism=[dict(name="SPLIT, MATCH, MATCHES, JOIN, STR, FMT and the rest", where="src/eval/stg/string.rs"), dict(name="write_numeric", where="src/eval/stg/printf.rs"), dict(name="string pattern lexers", where="src/syntax/rowan/string_lex.rs")],
  observe_at=["rendered value of every register of a history, or the reported error"], hook_needed=None),
 technique="TLA+ spec of strings with its own regular expression matcher, UTF-8, base64 and printf (Strs.tla, with laws checked in TLC); TLC generates histories replayed against the evaluator in varied spellings of every literal",
 note="Characters from a table of forty code points; subjects up to 9 characters, patterns to depth 3. Where a match lies within a match the pattern is spelled to avoid the regex library's reverse search, which has a defect of its own.",
)
