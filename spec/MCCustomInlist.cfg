SPECIFICATION Spec
CONSTANTS Keys = {"a", "b"}
 Kinds = {"str", "int", "none"}
 Len1 = 2
INVARIANTS EndIsMerged UserWins DefaultsKept OrderFree
CHECK_DEADLOCK FALSE
