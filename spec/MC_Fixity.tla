----------------------------- MODULE MC_Fixity ------------------------------
EXTENDS Fixity
Op(n, f, p) == [n |-> n, f |-> f, p |-> p]
Call == Op("call", "post", 90)
Dot  == Op("dot", "post", 90)
\* around the catenation level (20), the call level (90) and between
Ops1 == { Op("L30", "L", 30), Op("L10", "L", 10), Op("L30b", "L", 30), Op("R30", "R", 30), Op("R20", "R", 20),
          Op("P30", "pre", 30), Op("P10", "pre", 10), Op("Q30", "post", 30), Op("Q15", "post", 15),
          Op("N", "nul", 100) }
Ops2 == { Op("L75", "L", 75), Op("L80", "L", 80), Op("R85", "R", 85), Op("R75", "R", 75), Op("L20", "L", 20), Op("L5", "L", 5),
          Op("P95", "pre", 95), Op("P78", "pre", 78), Op("P88", "pre", 88), Op("P20", "pre", 20), Op("P5", "pre", 5),
          Op("Q88", "post", 88), Op("Q77", "post", 77), Op("Q5", "post", 5), Op("N", "nul", 100), Call, Dot }
\* around the call level
Ops3 == { Op("L95", "L", 95), Op("L90", "L", 90), Op("R90", "R", 90), Op("R85", "R", 85), Op("L50", "L", 50),
          Op("P95", "pre", 95), Op("P90", "pre", 90), Op("P60", "pre", 60), Op("Q95", "post", 95), Op("Q90", "post", 90),
          Op("Q50", "post", 50), Call, Dot }
\* the named levels
Ops4 == { Op("L90", "L", 90), Op("P88", "pre", 88), Op("R85", "R", 85), Op("L80", "L", 80), Op("L75", "L", 75),
          Op("R60", "R", 60), Op("L55", "L", 55), Op("L50", "L", 50), Op("R45", "R", 45), Op("L42", "L", 42), Op("L40", "L", 40),
          Op("L35", "L", 35), Op("R30", "R", 30), Op("L20", "L", 20), Op("R10", "R", 10), Op("L5", "L", 5), Op("P50", "pre", 50),
          Op("Q50", "post", 50) }
\* the prelude's numeric operators
OpsNum == { Op("+", "L", 75), Op("-", "L", 75), Op("*", "L", 80), Op("÷", "L", 80), Op("%", "L", 80), Op("^", "R", 85),
            Op("/", "L", 80) }
OpsBits == { Op("&", "L", 55), Op("|", "L", 55), Op("⊕", "L", 55), Op("≪", "L", 60), Op("≫", "L", 60), Op("⊝", "pre", 88),
             Op("+", "L", 75), Op("*", "L", 80), Op("-", "L", 75) }
\* the prelude's comparisons and logic, over numbers and booleans
OpsLogic == { Op("+", "L", 75), Op("*", "L", 80), Op("<", "L", 50), Op(">=", "L", 50), Op("=", "L", 40), Op("!=", "L", 40),
              Op("&&", "L", 35), Op("∧", "L", 35), Op("||", "L", 30), Op("∨", "L", 30), Op("¬", "pre", 88),
              Op("!", "pre", 88) }
\* the prelude's list, function and application operators
OpsList == { Op("++", "L", 45), Op("∘", "R", 88), Op(";", "L", 88), Op("@", "L", 10), Op("=", "L", 40), Op("!!", "L", 85),
             Op("‖", "R", 55), Op("<$>", "L", 42), Op("+", "L", 75), Op("↑", "pre", 95) }
=============================================================================
