CONSTANTS
  GMax = 3
  QMax = 3
  LMax = 2
SPECIFICATION Spec
INVARIANTS AdmittedOnlyWhenAllowed OneScenario CriterionIsFlowStability
CHECK_DEADLOCK FALSE
