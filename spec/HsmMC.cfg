SPECIFICATION Spec
CONSTRAINTS QBound Cap
CHECK_DEADLOCK FALSE
INVARIANTS
  TypeOK
  C01_Priority
  C01_OnePerRegion
  C02_NoSpuriousMove
  C03_GuardsFailed
  C04_Order
  C04_TargetVisible
  C05_Internal
  C06_Complete
  C06_OnlyAfter
  C07_RootRegions
  C07_EachOnce
  C07_Independent
  C08_Whole
  C08_OnlyThen
  C08_ActiveOnly
  C08_LeaveOnce
  C09_History
  C09_SetKeeps
  C10_Conservation
  C11_Result
  C12_Unexpected
  C13_Data
  C13_SetKeeps
  C15_Present
  C15_OnlyThen
  C15_NothingElse
  C16_OneEvent
  C16_Deferred
  C17_Set
  C20_OnlyFactories
  C22_Scope
  C23_Throw
  C24_NestedReturns
