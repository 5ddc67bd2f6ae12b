BUGS = [
 dict(id="datetime-order-local", property="P09",
  edits=[("src/eval/stg/arith.rs", "Ok(pred(dx.cmp(dy)))", "Ok(pred(dx.naive_local().cmp(&dy.naive_local())))")],
  needs="two datetimes in different offsets whose local times are in the other order", breaks="datetimes are ordered by wall clock, not by instant",
  progs=[("prelude=1 format=eu eval=main", "main: [t\"2024-01-01T12:00:00+05:00\" < t\"2024-01-01T11:00:00Z\", t\"2024-01-01T12:00:00Z\" < t\"2024-01-01T13:00:00Z\"]\n", "[true, true]\n")]),
 dict(id="eq-tails-first", property="P09",
  edits=[("src/eval/stg/eq.rs", """                        value(Eq.global(lref(2), lref(0))),
                        value(Eq.global(lref(3), lref(1))),
                    ],
                    And.global(lref(0), lref(1)),
                ),
            )],
            f(),
        ),
    )
}""", """                        value(Eq.global(lref(2), lref(0))),
                        value(Eq.global(lref(3), lref(1))),
                    ],
                    And.global(lref(1), lref(0)),
                ),
            )],
            f(),
        ),
    )
}""")],
  needs="lists that differ early and hold an error, or have no end, later", breaks="lists are compared from the end, so an early difference no longer decides",
  progs=[("prelude=1 format=eu eval=main", "main: [[1, 2, panic(\"no\")] = [1, 3, 4], [1, 2] = [1, 2]]\n", "[false, true]\n")]),
 dict(id="symbol-order-folded", property="P09",
  edits=[("src/eval/stg/arith.rs", """            Ok(pred(ls.cmp(rs)))""", """            Ok(pred(ls.to_lowercase().cmp(&rs.to_lowercase())))""")],
  needs="two symbols that differ in case", breaks="symbols differing only in case are neither less nor greater, though unequal; order is no longer by code point",
  progs=[("prelude=1 format=eu eval=main", "main: [:Zed < :apple, :A < :a, :a < :b, [:b, :B, :a] qsort(<)]\n", "[true, true, true, [:B, :a, :b]]\n")]),
]
