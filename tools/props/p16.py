P = dict(
 id="P16",
 title="A document not written in full is never reported as success",
 statement="Rendering, in any format, either hands the whole document to its sink and succeeds, or fails visibly: when the sink refuses bytes, at whichever byte and for whatever reason, the run ends with an error message and a failing exit, except that a pipe whose reader has gone ends it quietly with exit 0 and nothing on standard error. Short writes and interrupted writes lose and repeat nothing. What the sink took is always a prefix of the document; the formats that write at the end write nothing when evaluation fails, the text format has written exactly the scalars before the failure. A failure of evaluation is reported as itself, never masked by the sink.",
 quantifier=dict(over=["faults", "inputs"], text="every byte of a document as the place of the fault, every kind of write error, every size of short write, interruptions, all formats, documents, targets and actions"),
 why_tests_cant="Tests fail the first write of a one-scalar document; a fault in the middle or at the last byte, a short or interrupted write, and its order against a failure of evaluation each need their own run.",
 anchors=dict(files=["src/export/mod.rs", "src/export/error.rs", "src/export/json.rs", "src/export/text.rs", "src/export/html.rs", "src/eval/stg/emit.rs", "src/driver/eval.rs"],
  state=[dict(name="emitter output", meaning="the sink of the run", where="src/driver/eval.rs")],
  mechanism=[dict(name="write_failure", where="src/eval/stg/emit.rs"), dict(name="stream_write_error, finish_stream, diagnose", where="src/driver/eval.rs"), dict(name="Emitter::stream_end of each format", where="src/export")],
  observe_at=["exit code or error of the run, standard error, bytes the sink took"], hook_needed=None),
 technique="TLA+ spec of evaluation, emission and a faulty sink (Sink.tla), model-checked exhaustively with liveness; every terminal state is replayed against the driver with a sink that behaves as told, and documents generated from Export.tla are cut at sampled or all bytes",
 note="Also against /dev/full and a pipe without a reader. YAML is not built here.",
)
