CONSTANTS Kind = "doc" Depth = 3
INIT Init
NEXT Next
INVARIANTS Language Places1 Possible
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
