SPECIFICATION Spec
CONSTANTS Loggers = {1, 2}
 Count = 2
 Sessions = 2
 Room = 2
INVARIANTS InOrder Bounded OffMeansOff
PROPERTY Ends
