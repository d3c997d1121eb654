INIT GInit
NEXT GNext
INVARIANT Report
INVARIANT PolicySound
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Vals <- GenVals
  MaxVals <- GenMaxVals
  ByteVals <- GenByteVals
  TextVals <- GenTextVals
  CrcVals <- GenCrcVals
  Cuts <- GenCuts
  Closes <- GenCloses
  Repeats <- GenRepeats
