SPECIFICATION Spec
CONSTANTS Lens = {1}
 Seeds = {200}
 Hits = 1
 Octets = {0, 2, 255}
 Every = 1
 Ends = {1, 2, 3, 7, 13, 30}
INVARIANTS TwoWays Whatever Settles
CHECK_DEADLOCK FALSE
