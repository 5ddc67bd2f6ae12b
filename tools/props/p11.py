P = dict(
 id="P11",
 title="IO actions run once each, in bind order, with leave, and stop at failure",
 statement="With --allow-io, evaluating a target that is an IO action performs it: commands run one at a time in the order bind, then, sequence, map-m, filter-m and the :io block give, each exactly once with exactly the arguments and input written, its text output and exit code going to what is bound to it. io.fail, io.check of a failed command, a timeout (which kills the command) and an error in a value that a command needs end the program there, with that error: earlier effects stay, later ones never happen. Without leave nothing runs and the program stops at the first action it would perform. An action that is only data is not run; a value nothing needs is not computed.",
 quantifier=dict(over=["inputs", "histories"], text="every IO program: every nesting of combinators, every command result, argument and input text, with and without leave, under every optimisation and collection schedule"),
 why_tests_cant="Order, at-most-once and stopping depend on the nesting of combinators and on what each command returned; the suite runs about a dozen fixed chains, mostly of one command.",
 anchors=dict(files=["src/driver/bytecode_io_run.rs", "src/driver/io_common.rs", "src/eval/bytecode/machine.rs", "src/eval/stg/io.rs", "lib/prelude.eu", "src/driver/eval.rs"],
  state=[dict(name="io stash", meaning="what waits for an action's result, as GC roots", where="src/driver/bytecode_io_run.rs"), dict(name="ActionSpec, CommandResult", meaning="one command and what came of it", where="src/driver/io_common.rs")],
  mechanism=[dict(name="io_run, evaluate_spec_block", where="src/driver/bytecode_io_run.rs"), dict(name="action_spec_from_fields, run_command", where="src/driver/io_common.rs"), dict(name="io, monad", where="lib/prelude.eu")],
  observe_at=["rendered value or error of the program", "the commands' own log of arguments, input and order"], hook_needed=None),
 technique="TLA+ transition system of IO programs (Io.tla: performed action, waiting frames, effects so far), TLC checks permission, order, prefix and stop properties and agreement with the monad laws on drawn programs; every program is performed for real with commands that log what they get, and outcome and log are compared with the model's",
 note="A subset is performed under EU_GC_STRESS and with optimisation passes off.",
)
