P = dict(
 id="P13",
 title="An import brings in the file its path means, where it is written",
 statement="A path means the file beside the importing file if there is one, else the first on the library path, whoever imports the importer. A file means the same wherever and however often it is imported: under a name as a block of its public members, without one as names in scope, text and data formats as their content. An import is in scope in the unit, declaration or block it is written on and nowhere else; nearer and later bindings win; names marked internal are visible in their own file only and hide nothing elsewhere. Import cycles and files that are not there, at any depth, are errors; files that nothing imports are not read.",
 quantifier=dict(over=["inputs"], text="every directory tree of files and library path, every placing, naming and format of imports among them, diamonds, repeated and nested imports"),
 why_tests_cant="What an import means depends on the whole graph of files, on where each import stands and what was imported before; the suite has a dozen fixed trees.",
 anchors=dict(files=["src/driver/source.rs", "src/syntax/import.rs", "src/core/desugar/desugarer.rs", "src/core/desugar/rowan_ast.rs", "src/core/expr.rs", "src/syntax/input.rs"],
  state=[dict(name="import guard", meaning="which imports are in scope already", where="src/core/desugar/desugarer.rs"), dict(name="ImportGraph", meaning="which file imports which", where="src/syntax/import.rs"), dict(name="lib_path, import_dirs, resolved_imports", meaning="where paths lead", where="src/driver/source.rs")],
  mechanism=[dict(name="load_tree_as, resolve_import", where="src/driver/source.rs"), dict(name="translate_import", where="src/core/desugar/desugarer.rs"), dict(name="rebody, hide_internal_bindings", where="src/core/expr.rs")],
  observe_at=["rendered value or error of a program with imports"], hook_needed=None),
 technique="TLA+ spec of path resolution, loading and the meaning of files (Imports.tla), invariants checked by TLC on drawn trees of files; every tree is written to a scratch directory and loaded by the driver, values and errors compared",
 note="Git imports need a network; YAML and JSON are not built here. One known finding: a suppressed repeated import whose names a sibling has rebound.",
)
