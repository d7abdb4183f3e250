-------------------------- MODULE MC_LiveSession --------------------------
EXTENDS LiveSession, TLC
ViewsDef == {[calls |-> <<<<"a", "click">>>>], [calls |-> <<<<"b", "input">>, <<"a", "click">>>>], [calls |-> <<>>]}
MessagesDef == {[junk |-> TRUE, l |-> "", v |-> <<>>], [junk |-> FALSE, l |-> "a", v |-> <<>>], [junk |-> FALSE, l |-> "b", v |-> <<"1">>]}
ViewsQuick == {[calls |-> <<<<"a", "click">>>>], [calls |-> <<>>]}
MessagesQuick == {[junk |-> TRUE, l |-> "", v |-> <<>>], [junk |-> FALSE, l |-> "a", v |-> <<>>]}
=============================================================================
