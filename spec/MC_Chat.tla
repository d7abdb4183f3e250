------------------------------- MODULE MC_Chat -------------------------------
EXTENDS ChatDesign, TLC
Alike == Permutations(Users)
=============================================================================
