CONSTANTS MaxNodes = 3
MaxLevel = 1
MaxSteps = 1
InitNodes = 2
SPECIFICATION Spec
VIEW View
INVARIANTS NoRequestHangs KidFresh OneAnswer AllRan NeverTwice NoKillInFlight SomeAlive Statuses RootNeverLost
