INIT Init
NEXT Next
CONSTANTS Alphabet = {46, 47, 58, 97}
 Longest = 6
INVARIANTS Splitting Stripping Finding Replacing Parts Extensions Combining DataNames
CHECK_DEADLOCK FALSE
