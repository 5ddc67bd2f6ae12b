J = "prelude=1 format=json eval=main io=1"
BUGS = [
 dict(id="killed-is-success", property="P11",
  edits=[("src/driver/io_common.rs", "output.status.code().unwrap_or(-1) as i64", "output.status.code().unwrap_or(0) as i64")],
  needs="a command ended by a signal", breaks="it counts as having succeeded, so io.check goes on",
  progs=[(J, 'main: io.shell("kill -9 $$") io.map(.exit-code)\n', "-1\n")]),
]
