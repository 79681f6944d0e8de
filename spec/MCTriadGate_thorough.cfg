CONSTANTS
  GMax = 4
  QMax = 3
  LMax = 3
SPECIFICATION Spec
INVARIANTS AdmittedOnlyWhenAllowed OneScenario CriterionIsFlowStability
CHECK_DEADLOCK FALSE
