---------------------------- MODULE MC_Holdings ----------------------------
EXTENDS Holdings, TLC
=============================================================================
