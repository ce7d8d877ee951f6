CONSTANTS MaxEvents = 7
MaxFaults = 4
WaitForEnd = TRUE
Recheck = TRUE
SPECIFICATION Spec
INVARIANT NeverTwice LaunchOk
PROPERTY Follows
