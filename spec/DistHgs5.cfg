CONSTANTS MaxNodes = 5
MaxLevel = 1
MaxSteps = 1
InitNodes = 4
SPECIFICATION Spec
VIEW View
INVARIANTS NoRequestHangs KidFresh OneAnswer AllRan NeverTwice NoKillInFlight SomeAlive Statuses RootNeverLost
