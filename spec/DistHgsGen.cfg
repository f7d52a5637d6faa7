CONSTANTS MaxNodes = 6
MaxLevel = 2
MaxSteps = 4
InitNodes = 1
SPECIFICATION Spec
INVARIANTS NoRequestHangs KidFresh OneAnswer AllRan NeverTwice NoKillInFlight SomeAlive Statuses RootNeverLost Emit
