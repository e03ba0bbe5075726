SPECIFICATION Spec
CONSTANTS
 Keys = {0, 1, 2}
 Most = 4
INVARIANTS Latest Ordered Fifo Extensional
PROPERTY Persistent
CHECK_DEADLOCK FALSE
