SPECIFICATION MSpec
INVARIANTS Chosen Precedence Warned Passed RunOnce Ends NeverBoth HealthOnly Healthy Told Before
CHECK_DEADLOCK FALSE
