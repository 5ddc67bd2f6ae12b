BUGS = [
 dict(id="order-big-unsigned", property="P08",
  edits=[("src/eval/stg/arith.rs", """        Ok(l.cmp(&r))
    } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
        Ok(l.cmp(&r))
    } else if""", """        Ok(l.cmp(&r))
    } else if""")],
  needs="two distinct integers above 2^63 that round to the same double", breaks="< > <= >= on large unsigned integers compare rounded doubles",
  progs=[("format=eu eval=main", "main: [__LT(18446744073709551614, 18446744073709551615), __GTE(9223372036854775809, 9223372036854775810), __LT(3, 4)]\n", "[true, false, true]\n")]),
 dict(id="float-mod-negative", property="P08",
  edits=[("src/eval/stg/arith.rs", """            let q = (l / r).floor();
            let result = l - r * q;
            if let Some(ret)""", """            let result = l.rem_euclid(r);
            if let Some(ret)""")],
  needs="a float operand and a negative divisor", breaks="% no longer takes the sign of the divisor",
  progs=[("format=eu eval=main", "main: [__MOD(7.5, -2), __MOD(-7.5, 2), __MOD(-7.5, -2), __MOD(7, -2)]\n", "[-0.5, 0.5, -1.5, -1]\n")]),
]
