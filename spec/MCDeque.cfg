SPECIFICATION Spec
CONSTANTS Putters = {p1, p2}
 Getters = {g1, g2, g3}
 Each = 2
 PassOn = TRUE
INVARIANTS NoLostWakeup Once
CHECK_DEADLOCK FALSE
