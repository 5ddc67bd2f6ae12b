BUGS = [
 dict(id="fix-right-mixed", property="P05",
  edits=[("src/core/cook/shunt.rs", """                        } else if *top_fixity == Fixity::InfixRight {
                            if this_prec < top_prec {""",
  """                        } else if *top_fixity == Fixity::InfixRight {
                            if this_prec < top_prec
                                || (this_prec == top_prec && *this_fixity == Fixity::InfixLeft)
                            {""")],
  needs="a right-associative operator followed by a left-associative one of the same precedence",
  breaks="the right-associative operator no longer waits for what follows it at its own precedence",
  progs=[("", '` { precedence: 50 associates: :right }\n(a ~> b): __SUB(a, b)\n` { precedence: 50 associates: :left }\n(a ~~ b): __ADD(a, b)\nmain: 10 ~> 3 ~~ 2\n', "5\n")]),
 dict(id="ana-leading-gap", property="P06",
  edits=[("src/core/anaphora.rs", """        Ok(v.into_iter()
            .enumerate()
            .map(|(i, x)| x.unwrap_or_else(|| format!("_d{i}")))""",
  """        Ok(v.into_iter()
            .enumerate()
            .skip_while(|(_, x)| x.is_none())
            .map(|(i, x)| x.unwrap_or_else(|| format!("_d{i}")))""")],
  needs="numbered anaphora with a gap at the start",
  breaks="skipped numbers are not counted",
  progs=[("", "` { precedence: 50 associates: :left }\n(a ~~ b): __ADD(a, b)\nf: _2 ~~ 1\nmain: f(10, 20, 30)\n", "31\n")]),
 dict(id="gc-demeta-evac", property="P02", env="EU_GC_STRESS=1 EU_GC_POISON=1",
  edits=[("src/eval/bytecode/cont.rs", """            BcContinuation::DeMeta { environment, .. } => {
                if let Some(new) = heap.forwarded_to(*environment) {
                    *environment = new;
                }
            }
            BcContinuation::SeqBind""", """            BcContinuation::DeMeta { .. } => {}
            BcContinuation::SeqBind""")],
  needs="an evacuating collection while metadata is being stripped from a value whose evaluation takes long",
  breaks="the environment of a pending metadata test is left pointing at the evacuated copy",
  progs=[("heap=1", "mk(n): __IF(__EQ(n, 0), [], __CONS({a: n b: mk(0)}, mk(__SUB(n, 1))))\nlsum(l): __IF(__NILP(l), 0, __ADD(__LOOKUP(:a, __HEAD(l)), lsum(__TAIL(l))))\nmain: __META(__IF(__EQ(lsum(mk(1000)), 500500), __WITHMETA({k: 7}, 3), 2)).k\n", "7\n")]),
]
