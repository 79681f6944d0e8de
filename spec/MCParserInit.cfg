SPECIFICATION Spec
CONSTANTS Args = {"", "A"}
INVARIANTS ReadyOnlyWithAForm RefusedIffNoForm RefusalGivesReasons ReadyReadsExisting
CHECK_DEADLOCK FALSE
