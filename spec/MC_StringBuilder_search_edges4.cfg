SPECIFICATION MCSpec
CONSTANTS Alpha = {97, 98}
          MaxLen = 4
          Mode = "search"
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Dump
