T = '{ import: ["reflect.eu", "contract.eu"] }\n'
O = "prelude=1 format=json eval=main lib=@lib"
BUGS = [
 dict(id="third-of-union", property="P17",
  edits=[("src/eval/stg/typedata.rs", "if ts.len() == 2 && ts[1] == Type::ExecutionError {", "if ts[1] == Type::ExecutionError {")],
  needs="A union of more than two with ExecutionError in second place.", breaks="to-data of a | ExecutionError | b forgets the third member, so a contract rejects what it names.",
  progs=[("prelude=1 format=json eval=main", 'main: s"number | ExecutionError | string" __TYPE_TO_DATA count\n', '4\n')]),
 dict(id="two-rows-closed", property="P17",
  edits=[("src/eval/stg/typedata.rs", "let open_flag = *open || !rows.is_empty();", "let open_flag = *open || rows.len() == 1;")],
  needs="A record type with two row variables.", breaks="A record with two row variables is projected as closed and contracts report surplus keys.",
  progs=[("prelude=1 format=json eval=main", 'main: s"{a: number, ..r, ..s}" __TYPE_TO_DATA last\n', 'true\n')]),
 dict(id="escape-dropped", property="P17",
  edits=[("src/core/typecheck/parse.rs", "                                other => {\n                                    s.push('\\\\');\n                                    s.push(other);", "                                other => {\n                                    s.push(other);")],
  needs="A literal string type with a backslash before an ordinary character.", breaks='The backslash of "a\\n" is lost from the literal.',
  progs=[("prelude=1 format=json eval=main", 'main: __TYPE_FROM_STRING(c"\\"a\\\\n\\"") __TYPE_TO_DATA last\n', '"a\\\\n"\n')]),
 dict(id="kind-left", property="P17",
  edits=[("src/core/typecheck/parse.rs", "            let rhs = self.parse_kind()?;\n            Ok(Kind::Arrow(Box::new(lhs), Box::new(rhs)))", "            let rhs = self.parse_kind_atom()?;\n            if self.peek()? == &Token::Arrow {\n                self.advance()?;\n                let last = self.parse_kind()?;\n                return Ok(Kind::Arrow(\n                    Box::new(Kind::Arrow(Box::new(lhs), Box::new(rhs))),\n                    Box::new(last),\n                ));\n            }\n            Ok(Kind::Arrow(Box::new(lhs), Box::new(rhs)))")],
  needs="A forall binder whose kind has two arrows.", breaks="* -> * -> * is read as (* -> *) -> *.",
  progs=[("prelude=1 format=json eval=main", 'main: s"forall (m :: * -> * -> *). m a b"\n', '"forall (m :: * \u2192 * \u2192 *). m a b"\n')]),
]
