CONSTANTS Sites = "light" MaxLen = 3 Alternate = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK ExplicitWins Unread
PROPERTY CallsAreReads
CHECK_DEADLOCK FALSE
