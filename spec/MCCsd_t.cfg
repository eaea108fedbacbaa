SPECIFICATION MSpec
CONSTANTS
  MaxK = 200
  MaxM = 6
  MaxPlaces = 8
  MaxNnz = 6
  Sequel = 6
INVARIANTS CInvWeight CInvAfter Conserves NonAdj Accepted Forced Close Ends Emit
CHECK_DEADLOCK FALSE
