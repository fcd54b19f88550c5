SPECIFICATION Spec
CONSTANTS Part = "cycle"
Lean = TRUE
INVARIANTS TypeOK MassLaw BatteryBounds NoThrustWhenEmpty FullRecharge ThrustOnlyEnabled OnWindow OffWindow StepLength VerdictTrue Precedence NotPastTerminal Overshoot NanBudget
PROPERTIES OffLongEnough OnLongEnough Terminates
CHECK_DEADLOCK FALSE
