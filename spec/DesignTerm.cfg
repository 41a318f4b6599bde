SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS StyleLaw Distinct HrefLaw WriteLaw MoveLaw ModeLaw TitleLaw
CHECK_DEADLOCK FALSE
