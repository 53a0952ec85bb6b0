INIT Init
NEXT Next
INVARIANTS Excl Once Found Same Clean
CONSTANTS
  Threads = 4
  Family = "few"
