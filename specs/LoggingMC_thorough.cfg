SPECIFICATION Spec
CONSTANTS Loggers = {1, 2}
 Count = 3
 Sessions = 3
 Room = 2
INVARIANTS InOrder Bounded OffMeansOff
PROPERTY Ends
