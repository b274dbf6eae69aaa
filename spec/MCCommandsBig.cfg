INIT Init
NEXT Next
CONSTANTS
    NrArguments = 5
    NrLines = 4
    NrGiven = 7
INVARIANTS FailureIsClean SuccessIsQuiet HelpOnly HelpOnDemand OnePlace Named
    FlagsAreASet FlagsTwice Grows ShownOnlyIfFine WrongDoesNothing
    NamesAreRemembered InOrder Monotone
CHECK_DEADLOCK FALSE
