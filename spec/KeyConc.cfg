CONSTANTS
  Threads = {1, 2, 3, 4}
  Need <- NeedT
  Batch = 2
SPECIFICATION Spec
INVARIANT Safe
PROPERTY Live
PROPERTY Mono
