SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS StyleLaw Distinct HrefLaw WriteLaw MoveLaw ModeLaw TitleLaw
CHECK_DEADLOCK FALSE
