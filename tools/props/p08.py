P = dict(
 id="P08",
 title="Arithmetic is exact, or rounded as doubles are, and every overflow is an error",
 statement="Integer addition, subtraction, multiplication, floor and truncated division with their remainders, powers, bit operations and shifts give exactly the mathematical result over the 64-bit range, and a result outside it, a zero divisor, a bad shift or a non-integer bit operand is reported as an error and never wraps or saturates. Floats and mixed operands are worked in double precision, correctly rounded; `/` floors and gives an integer, `%` takes the sign of the divisor, quot and rem truncate. Comparison, max and min order numbers by value across integers and floats. Arithmetic on what is no number is an error. Every number written as a literal, parsed by num or turned into text and back keeps its value and kind.",
 quantifier=dict(over=["inputs", "programs"], text="all sequences of arithmetic, bit and comparison operations over integers of the whole 64-bit signed and unsigned range and doubles of any magnitude"),
 why_tests_cant="Defects sit at range ends, in mixed signed/unsigned/float tiers and in rounding, of which tests sample a few points.",
 anchors=dict(files=["src/eval/stg/arith.rs", "src/eval/stg/eq.rs", "src/eval/stg/string.rs", "src/common/number.rs", "lib/prelude.eu"],
  state=[dict(name="serde_json Number", meaning="i64, u64 or f64", where="src/eval/memory/syntax.rs")],
  mechanism=[dict(name="arithmetic, comparison and bit intrinsics", where="src/eval/stg/arith.rs"), dict(name="reading numbers", where="src/common/number.rs")],
  observe_at=["rendered value of every register of a history, or the reported error"], hook_needed=None),
 technique="TLA+ spec of 64-bit integers and IEEE doubles over arbitrary-size naturals (BigNat.tla, Nums.tla); TLC generates histories, replayed raw and through the prelude",
 note="Histories of up to 11 operations over 35 operations; operands cluster at range ends, powers of two and dyadic fractions. Inexact powers, float quotients whose rounding crosses an integer, and the sign of zero are excluded.",
)
