SPECIFICATION Spec
CONSTANTS Shape = "b"  Vals = {"0", "1/2"}  Tables = {1, 2}  Sets = {1, 2}  Depth = 0
VIEW view
INVARIANTS Fresh Right Formula
