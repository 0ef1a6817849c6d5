CONSTANT Start <- StartDef
CONSTANT More = {"C", "D"}
CONSTANT Frozen = {"f"}
SPECIFICATION Spec
INVARIANT Total FrozenTotal
PROPERTY Frame FailsUnchanged Presence Place FreezeOnly
CHECK_DEADLOCK FALSE
VIEW View
