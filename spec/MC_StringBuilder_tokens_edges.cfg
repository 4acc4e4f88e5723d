SPECIFICATION MCSpec
CONSTANTS Alpha = {97, 98}
          MaxLen = 3
          Mode = "tokens"
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Dump
