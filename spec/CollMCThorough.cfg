SPECIFICATION Spec
CONSTANTS
 Keys = {0, 1, 2}
 Most = 5
INVARIANTS Latest Ordered Fifo Extensional
PROPERTY Persistent
CHECK_DEADLOCK FALSE
