SPECIFICATION MCSpec
CONSTANTS Alpha = {97, 98}
          MaxLen = 3
          Mode = "search"
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Dump
