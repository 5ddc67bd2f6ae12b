
EU = 'HERE=$(cd "$(dirname "$0")" && pwd)\nW=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\nEU=$PWD/target/debug/eu\n'
BUGS = [
 dict(id="lib-path-last", property="P13",
  edits=[("src/driver/source.rs", "    fn read_fs_input(&mut self, path: &Path) -> Result<FsInput, EucalyptError> {\n        for libdir in &self.lib_path {", "    fn read_fs_input(&mut self, path: &Path) -> Result<FsInput, EucalyptError> {\n        for libdir in self.lib_path.iter().rev() {")],
  needs="one path found in two directories of the library path", breaks="the file of the later directory is imported",
  files={"l1/lib.eu": "n: 1\n", "l2/lib.eu": "n: 2\n"},
  progs=[("lib=@l1 lib=@l2 eval=main", '{ import: "lib.eu" }\nmain: [n]\n', "[\n  1\n]\n")]),
 dict(id="block-import-unseen", property="P13",
  edits=[("src/syntax/import.rs", "                // Check declaration metadata (recursive)\n                for decl in block.declarations() {\n                    if let Some(meta) = decl.meta() {\n                        if let Some(meta_soup) = meta.soup() {\n                            read_rowan_soup_imports(&meta_soup, imports)?;\n                        }\n                    }\n", "                for decl in block.declarations() {\n")],
  needs="an import on a declaration inside a block", breaks="the file is not loaded, so the program fails",
  files={"l1/lib.eu": "n: 1\n"},
  progs=[("lib=@l1 eval=main", 'b: { ` { import: "lib.eu" } x: n }\nmain: [b.x]\n', "[\n  1\n]\n")]),
 dict(id="named-chain-guard", property="P13",
  edits=[("src/core/desugar/desugarer.rs", "                if self.named_import_depth == 0 {\n", "                if self.named_import_depth <= 1 {\n")],
  needs="a file imported without a name by a file imported under one, and again by another imported without", breaks="the names of the second are not in scope",
  files={"l1/c.eu": "cx: 7\n", "l1/a.eu": '{ import: "c.eu" }\nax: cx\n', "l1/b.eu": '{ import: "c.eu" }\nbx: cx\n'},
  progs=[("lib=@l1 eval=main", '{ import: ["q=a.eu", "b.eu"] }\nmain: [q.ax, bx]\n', "[\n  7,\n  7\n]\n")]),
 dict(id="stray-close-lost", property="P14",
  edits=[("src/syntax/rowan/parse.rs", "                // Don't cross block or list boundaries.\n                if matches!(\n                    k,\n                    CLOSE_BRACE | CLOSE_SQUARE | RESERVED_CLOSE | BRACKET_CLOSE\n                ) {\n                    self.push_back();\n                    break;", "                // Don't cross block or list boundaries.\n                if matches!(\n                    k,\n                    CLOSE_BRACE | CLOSE_SQUARE | RESERVED_CLOSE | BRACKET_CLOSE\n                ) {\n                    if k != CLOSE_SQUARE {\n                        self.push_back();\n                    }\n                    break;")],
  needs="an argument list cut short by the end of the list around it", breaks="the bracket is lost from the syntax tree",
  demo=EU + 'printf \'x: [f(1 : ]\\n\' > "$W/a.eu"\ntimeout 60 "$EU" fmt "$W/a.eu" > "$W/o" 2>&1\ntest $? -ne 101 && ! grep -q panicked "$W/o"\n'),
 dict(id="list-apply-cons", property="P14",
  edits=[("src/syntax/export/format.rs", "        if at.is_block_apply() || at.is_list_apply() {", "        if let (true, Some(rowan_ast::Element::List(list))) = (\n            at.is_list_apply(),\n            items.first().and_then(|s| s.elements().next()),\n        ) {\n            let docs: Vec<_> = list.items().map(|s| self.reformat_soup(&s)).collect();\n            return RcDoc::text(\"[\")\n                .append(RcDoc::intersperse(docs, RcDoc::text(\", \")))\n                .append(RcDoc::text(\"]\"));\n        }\n        if at.is_block_apply() {")],
  needs="full formatting of a call with a head and tail list for its argument", breaks="f[x : xs] becomes f[x, xs]",
  demo=EU + 'printf \'x: f[a : b]\\n\' > "$W/a.eu"\ntimeout 60 "$EU" fmt --reformat "$W/a.eu" > "$W/o" && cmp "$W/a.eu" "$W/o"\n'),
 dict(id="odd-char-span", property="P14",
  edits=[("src/syntax/rowan/lex.rs", "            Some((i, c)) => Some((\n                ERROR_RESERVED_CHAR,\n                Span::new(i, i + ByteOffset::from_char_len(c)),\n            )),", "            Some((i, _)) => Some((ERROR_RESERVED_CHAR, Span::new(i, i + ONE_BYTE))),")],
  needs="a character of several bytes which no token can hold", breaks="the parser panics",
  demo=EU + 'printf \'x: 1 \\xcc\\x81\\n\' > "$W/a.eu"\ntimeout 60 "$EU" fmt "$W/a.eu" > "$W/o" 2>&1\ntest $? -eq 1 && ! grep -q panicked "$W/o"\n'),
]
