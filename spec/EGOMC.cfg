SPECIFICATION Spec
CONSTANTS
  Tok = {2, 3}
  Val = {0, 1, 2}
  Budgets = {2}
  MaxCrash = 1
  Init0Len = {1, 2}
INVARIANTS BudgetRespected FeasibilityStrict BestIsBest ImprovementSound RegionBounded HistoryIsStored TrainedOnSchedule CrashLag RestartFaithful
PROPERTIES IncumbentMonotone HistoryAppendOnly DataAppendOnly
