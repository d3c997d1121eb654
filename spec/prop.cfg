SPECIFICATION Spec
PROPERTY Progress
PROPERTY Terminates
INVARIANT Report
INVARIANT SpecOK
INVARIANT PolicySound
CHECK_DEADLOCK FALSE
CONSTANTS
  Vals <- GenVals
  MaxVals <- GenMaxVals
  ByteVals <- GenByteVals
  TextVals <- GenTextVals
  CrcVals <- GenCrcVals
  Cuts <- GenCuts
  Closes <- GenCloses
  Repeats <- GenRepeats
