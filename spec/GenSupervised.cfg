SPECIFICATION RSpec
CONSTANTS Shape = "c"  Vals = {"0", "-1", "1/2"}  Tables = {1, 2, 3, 4, 5}  Sets = {1, 2, 3, 4, 5}  Depth = 8
INVARIANTS Fresh Right Formula Emit
