P = dict(
 id="P15",
 title="A rendered document reads back as the value, less what is suppressed",
 statement="Rendering a value as JSON, TOML, EDN, eucalypt, text or (for hiccup elements) HTML writes a document in which an independent reader of that format finds exactly the value: every element of every list in order, every entry of every block under its key, strings and names character by character whatever they contain, integers exactly and floats to the last bit, booleans, nulls, datetimes with their instant (and offset where the format has one); eucalypt and text output also keep the order of entries. Entries that hold functions, and entries or elements whose metadata suppresses them (export: :suppress or :internal, or the :suppress shorthand), are left out and nothing else is; other metadata changes nothing. A value that a format has no way to carry (a key that is not text, a null or an integer beyond 64 bits in TOML, a root that is no element in HTML) is refused with an error and writes no document, never altered. render-as gives the same text as rendering, eucalypt output evaluates to the same value, and parse-as undoes render-as.",
 quantifier=dict(over=["inputs"], text="all finite values over strings, symbols, numbers, booleans, null, datetimes, lists and blocks, nested to any depth, with any text, any keys and any metadata, in each format"),
 why_tests_cant="Tests render a few plain documents; defects lie in particular characters, shapes (mixed arrays, empty containers, odd keys) and metadata at particular places.",
 anchors=dict(files=["src/export", "src/eval/stg/render.rs", "src/eval/stg/emit.rs", "src/eval/stg/render_to_string.rs", "src/core/inline/reduce.rs"],
  state=[dict(name="TableAccumulator", meaning="containers open and what is expected next", where="src/export/table.rs"), dict(name="Expectation", meaning="elements open in markup output", where="src/export/markup.rs")],
  mechanism=[dict(name="Render, Suppresses, RenderKv", where="src/eval/stg/render.rs"), dict(name="unrepresentable, unacceptable", where="src/export/mod.rs"), dict(name="the emitters", where="src/export/*.rs")],
  observe_at=["the bytes written for each format, read by independent readers", "the reported error"], hook_needed=None),
 technique="TLA+ spec of rendering as a stream of events and of the accumulator that reads it (Export.tla; TLC checks the document is the visible part of the value); TLC-drawn values are written out as source, rendered by the real code, and read by readers independent of it",
 note="Values to depth 3 over 67 awkward texts (and pairs of them), 22 numbers, 6 datetimes; YAML is not built in this sandbox. JSON, TOML and EDN are not asked to keep the order of entries.",
)
