SPECIFICATION Spec
CONSTANTS Scrapers = {"a", "b"}
 Flushers = {"f", "g"}
 Shared = FALSE
INVARIANT Good
CHECK_DEADLOCK FALSE
