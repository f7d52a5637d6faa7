CONSTANTS MaxNodes = 4
MaxLevel = 1
MaxSteps = 1
InitNodes = 3
SPECIFICATION Spec
VIEW View
INVARIANTS NoRequestHangs KidFresh OneAnswer AllRan NeverTwice NoKillInFlight SomeAlive Statuses RootNeverLost
