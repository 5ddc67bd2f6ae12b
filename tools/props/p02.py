P = dict(
 id="P02",
 title="Results do not depend on when garbage is collected or how code is dispatched",
 statement="A program's output, errors and exit are the same whatever the heap limit (as long as it suffices), whenever collections happen, whichever blocks they mark or evacuate, and whether code is predecoded or decoded step by step. No live value is lost, changed or duplicated by a collection.",
 quantifier=dict(over=["programs", "schedules"], text="all programs, all points at which a collection may run, all collector modes (mark in place, evacuate, verify, poison) and both dispatch modes"),
 why_tests_cant="Unit tests rarely reach the heap limit, so almost none of them collects while a program is in mid-flight; a missed root or stale pointer needs a collection at one particular step.",
 anchors=dict(files=["src/eval/machine/vm.rs", "src/eval/machine/bytecode_vm.rs", "src/eval/memory/heap.rs", "src/eval/memory/collect.rs", "src/eval/memory/immix.rs", "src/eval/bytecode/"],
  state=[dict(name="machine roots", meaning="closure, globals, stack of continuations, pending updates, IO state", where="src/eval/machine"), dict(name="heap blocks, line marks, forwarding", meaning="what has been kept or moved", where="src/eval/memory")],
  mechanism=[dict(name="scan_roots / collect / update_roots", where="src/eval/memory/collect.rs"), dict(name="predecode", where="src/eval/bytecode")],
  observe_at=["rendered output, error, exit code of a run"], hook_needed=None),
 technique="TLA+ abstract machine (Eval.tla) generates programs with their results; each is run under every collector and dispatch mode with collections every 500 steps",
 note="Programs and reference results come from TLC simulation of Eval.tla; they run beside a live structure that keeps the heap at its limit so that every poll collects (counted in the evidence), under plain marking, forced evacuation with poisoned free space, heap verification, and without predecoding. Sampled programs; the collection points are every 500th machine step at a random phase.",
)
