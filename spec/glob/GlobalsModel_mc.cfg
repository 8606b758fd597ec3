SPECIFICATION Spec
CONSTANTS
 Setters = {1, 2}
 Creators = {11, 12}
 PerCreator = 2
INVARIANTS OneWinner AtMostOne Connected
PROPERTIES Stable Ends
CHECK_DEADLOCK FALSE
