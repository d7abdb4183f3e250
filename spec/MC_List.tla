------------------------------- MODULE MC_List -------------------------------
EXTENDS ListDesign
CallsDef == {[op |-> "add", x |-> "a"], [op |-> "add", x |-> "b"], [op |-> "read", n |-> 1], [op |-> "read", n |-> 2], [op |-> "bad"]}
CallsFew == {[op |-> "add", x |-> "a"], [op |-> "add", x |-> "b"], [op |-> "read", n |-> 1]}
=============================================================================
