BUGS = [
 dict(id="set-sample-slot", property="P19",
  edits=[("src/eval/stg/set.rs", "            indices.swap(i, j);\n", "            indices[i] = j;\n")],
  needs="a sample of a set where a later draw lands on a slot an earlier one took", breaks="an element is taken twice, so the sample is smaller than asked for",
  progs=[("prelude=1 format=json eval=main", "s: set.from-list([1,2,3,4,5])\none(n): set.sample(4, s, random.stream(n)).value set.to-list count\nmain: range(0, 40) map(one) filter(!= 4)\n", "[]\n")]),
 dict(id="float-last-bit", property="P19",
  edits=[("src/eval/stg/stream_prng.rs", "        let (next_state, z) = splitmix64(state);\n        let float_val = (z >> 11) as f64 / ((1u64 << 53) as f64);", "        let (next_state, z) = splitmix64(state);\n        let float_val = (z >> 10) as f64 / ((1u64 << 54) as f64);")],
  needs="a draw whose 54 leading bits do not fit a double: then it rounds, up to 1 at worst", breaks="random.float gives another number than the stream holds at that place",
  progs=[("prelude=1 format=json eval=main", "one(n): (random.float(random.stream(n)).value) = (random.stream(n) random.as-list head)\nmain: range(0, 40) all(one)\n", "true\n")]),
 dict(id="int-wide-bound", property="P19",
  edits=[("src/eval/stg/stream_prng.rs", "let n = n_num.as_u64().unwrap_or(1).max(1);", "let n = n_num.as_i64().unwrap_or(1).max(1) as u64;")],
  needs="a bound beyond 2^63", breaks="every draw is 0",
  progs=[("prelude=1 format=json eval=main", "one(n): random.int(18000000000000000000, random.stream(n)).value = 0\nmain: range(0, 5) any(one)\n", "false\n")]),
]
BUGS += [
 dict(id="json-short-write", property="P16",
  edits=[("src/export/json.rs", '            writeln!(self.out, "{rendered}")?;', '            // one write for the whole document\n            let _ = self.out.write(format!("{rendered}\\n").as_bytes())?;')],
  needs="a sink that takes less than it is given in one write", breaks="the rest of the document is lost and the run succeeds",
  progs=[("prelude=0 format=json sink=99:5:full eval=main", "main: [1, 2, 3]\n", "[\n  1,\n  2,\n  3\n]\nOK\n")]),
 dict(id="html-last-byte", property="P16",
  edits=[("src/export/html.rs", "        writeln!(self.out)?;\n        self.out.flush()?;\n        Ok(())", "        self.out.flush()?;\n        // the line end is for the reader's convenience alone\n        writeln!(self.out).ok();\n        Ok(())")],
  needs="a sink that fails at the last byte of the document", breaks="the document is not written in full and the run succeeds",
  progs=[("prelude=0 format=html sink=23:99:full eval=main", "main: [:p, __BLOCK([]), \"x\"]\n", '<!DOCTYPE html><p>x</p>ERROR OutputWriteFailed(Smid(None), "no storage space")\n')]),
 dict(id="reset-is-closed", property="P16",
  edits=[("src/export/error.rs", "e.kind() == io::ErrorKind::BrokenPipe)", "matches!(e.kind(), io::ErrorKind::BrokenPipe | io::ErrorKind::ConnectionReset))")],
  needs="a sink that fails with a connection reset in the middle of a document", breaks="a truncated document is reported as success",
  progs=[("prelude=0 format=text sink=3:99:reset eval=main", "main: [\"ab\", \"cd\"]\n", 'ab\nERROR Traced(OutputWriteFailed(Smid(None), "connection reset"), ([], [], Smid(None)))\n')]),
]
