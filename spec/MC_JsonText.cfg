INIT Init
NEXT Next
CONSTANTS
  Chars = {34, 92, 10, 97, 233, 128512}
  Depth = 2
  MaxText = 4
  Bytes = {0, 1, 63, 200, 255}
INVARIANTS WrittenIsRead ReadIsWritten Base64Back Base64Only
CHECK_DEADLOCK FALSE
