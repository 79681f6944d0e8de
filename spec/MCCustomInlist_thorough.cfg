SPECIFICATION Spec
CONSTANTS Keys = {"a", "b", "c"}
 Kinds = {"str", "int", "none", "list", "float", "bool"}
 Len1 = 2
INVARIANTS EndIsMerged UserWins DefaultsKept OrderFree
CHECK_DEADLOCK FALSE
