----------------------------- MODULE MC_DomDiff -----------------------------
EXTENDS DomDiff, SmallTrees
TreesQuick == TreesUpTo(4, {D0}) \cup TreesUpTo(2, {D0, D1})
TreesDef == TreesUpTo(5, {D0}) \cup TreesUpTo(3, {D0, D1})
TreesDeco == TreesUpTo(2, {D0, D1, D2, D3}) \cup TreesUpTo(3, {D0, D2})
=============================================================================
