CONSTANTS
  W = 2
  K = 2
  Deep = TRUE
SPECIFICATION Spec0
INVARIANTS WordOps BigOps BigLaws Powers Decimals BigDecimals Formats Integers0 Clamps Sums Blocks8 Roundings NotNumbers
CHECK_DEADLOCK FALSE
