SPECIFICATION Spec
CONSTANTS Max = 4
INVARIANTS AsSpecified Law Idempotent RoundTrip
CHECK_DEADLOCK FALSE
