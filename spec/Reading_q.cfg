SPECIFICATION Spec
CONSTANTS Lens = {1}
 Seeds = {3}
 Hits = 1
 Octets = {0, 2, 255}
 Every = 9
 Ends = {1, 2, 7}
INVARIANTS TwoWays Whatever Settles
CHECK_DEADLOCK FALSE
