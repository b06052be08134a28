SPECIFICATION Spec
CONSTANTS Max = 3
INVARIANTS AsSpecified Law Idempotent RoundTrip
CHECK_DEADLOCK FALSE
