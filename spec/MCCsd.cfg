SPECIFICATION MSpec
CONSTANTS
  MaxK = 48
  MaxM = 4
  MaxPlaces = 5
  MaxNnz = 4
  Sequel = 4
INVARIANTS CInvWeight CInvAfter Conserves NonAdj Accepted Forced Close Ends Emit
CHECK_DEADLOCK FALSE
