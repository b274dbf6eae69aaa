CONSTANTS MaxLength = 3 MaxValue = 2
INIT Init
NEXT Next
INVARIANTS RoundTrip CompressLaw OffsetAdds OffsetBack OffsetCount CoverLaw IfLaw MarkLaw CopyLaw
CHECK_DEADLOCK FALSE
