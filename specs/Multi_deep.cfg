SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3}
 TreeIds = {x1, x2}
 Allocs = {a1, a2}
 Blocks = {b1, b2, b3, b4, b5}
 Home = a1
 Rule = "none"
SYMMETRY Symm
INVARIANTS TypeOk NoComplaint Balance Owned NothingBlocks Protected
CHECK_DEADLOCK FALSE
