SPECIFICATION Spec
CONSTANTS Shape = "a"  Vals = {"0", "-1", "1/2"}  Tables = {1, 2, 3}  Sets = {1, 2, 3}  Depth = 0
VIEW view
INVARIANTS Fresh Right Formula
