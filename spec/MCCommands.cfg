INIT Init
NEXT Next
CONSTANTS
    NrArguments = 4
    NrLines = 3
    NrGiven = 5
INVARIANTS FailureIsClean SuccessIsQuiet HelpOnly HelpOnDemand OnePlace Named
    FlagsAreASet FlagsTwice Grows ShownOnlyIfFine WrongDoesNothing
    NamesAreRemembered InOrder Monotone
CHECK_DEADLOCK FALSE
