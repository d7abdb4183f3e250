----------------------------- MODULE Gen_Trees -----------------------------
(* The views of the design-level model, for replay: every one of them is shown, and changed into every     *)
(* other one.                                                                                              *)
EXTENDS SmallTrees, SequencesExt, Json, IOUtils, TLC
Long == IOEnv.LONG = "yes"
Trees == IF Long THEN TreesUpTo(5, {D0}) \cup TreesUpTo(3, {D0, D1}) \cup TreesUpTo(2, {D0, D1, D2, D3}) \cup TreesUpTo(3, {D0, D2})
         ELSE TreesUpTo(4, {D0}) \cup TreesUpTo(3, {D0, D1}) \cup TreesUpTo(1, {D0, D1, D2, D3}) \cup TreesUpTo(2, {D1, D2})
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Trees))
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
