P = dict(
 id="P07",
 title="Blocks are ordered, immutable maps under merge, lookup and update",
 statement="Block operations behave as operations on ordered maps: merge keeps the left block's key order, takes the right block's values and appends its new keys; deep merge does the same recursively; select, dissoc, filters, map-keys/-values, set/alter/update at a path, zip-kv, elements/block, match?, deep-find and the like give exactly the documented entries in the documented order. No operation changes a block that is already bound, lookups that fail fall to their default or raise, and values that are not asked for are not evaluated.",
 quantifier=dict(over=["programs", "operation histories"], text="all sequences of block operations over blocks of any nesting, with failing values inside and results reused"),
 why_tests_cant="Order, sharing and laziness interact over long histories of operations on shared blocks; tests exercise one operation on one block.",
 anchors=dict(files=["src/eval/stg/block.rs", "lib/prelude.eu", "src/eval/bytecode/machine.rs", "src/core/analyse_demand.rs", "src/eval/stg/list.rs"],
  state=[dict(name="block list and index", meaning="ordered entries and optional lookup index", where="src/eval/stg/block.rs")],
  mechanism=[dict(name="MERGE, DEEPMERGE, MERGEWITH, LOOKUP, LOOKUPOR, BLOCK intrinsics", where="src/eval/stg/block.rs"), dict(name="block functions of the prelude", where="lib/prelude.eu"), dict(name="LookupLit fast path", where="src/eval/bytecode/machine.rs")],
  observe_at=["rendered value of every register of a history, in eu format with keys in order"], hook_needed=None),
 technique="TLA+ spec of block operations (Blocks.tla over Vals.tla); TLC generates operation histories, replayed through the real prelude",
 note="Each history has up to 15 operations over blocks of up to 5 keys; every register is compared at the end (persistence), failing values are planted to test laziness. Blocks with repeated keys are excluded.",
)
