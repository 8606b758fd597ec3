SPECIFICATION Spec
CONSTANTS Scrapers = {"a", "b", "c"}
 Flushers = {"f"}
 Shared = FALSE
INVARIANT Good
CHECK_DEADLOCK FALSE
