BUGS = [
 dict(id="merge-meta-left", property="P07",
  edits=[("src/eval/stg/block.rs", """                            app(lref(3), vec![lref(2), lref(0)]), // merge_core(l_body, r_whnf)
                            // [merged, r_whnf, l_meta, l_body, merge_core, l, r]""",
  """                            app(lref(3), vec![lref(0), lref(2)]), // merge_core(l_body, r_whnf)
                            // [merged, r_whnf, l_meta, l_body, merge_core, l, r]""")],
  needs="a merge whose left operand alone carries metadata and which has a key in common",
  breaks="the left block's values win, and its keys no longer come first",
  progs=[("prelude=1 format=eu", "main: ({a: 1 b: 2} // {m: 7}) {c: 5 a: 3}\n", "{ a: 3, b: 2, c: 5 }\n")]),
 dict(id="deep-merge-order", property="P07",
  edits=[("src/eval/stg/block.rs", """            if let Some(ov) = merge.get_mut(&key) {
                let combined = machine.apply2_thunk(view, f.clone(), ov.clone(), nv)?;
                *ov = combined;
            } else {""", """            if let Some(ov) = merge.shift_remove(&key) {
                let combined = machine.apply2_thunk(view, f.clone(), ov, nv)?;
                merge.insert(key, combined);
            } else {""")],
  needs="a deep merge whose right block has a key of the left one which is not its last, rendered in an order-keeping format",
  breaks="keys which both blocks have move to the end",
  progs=[("prelude=1 format=eu", "main: {x: {a: 1 b: 2}} << {x: {a: 3}}\n", "{ x: { a: 3, b: 2 } }\n")]),
]
