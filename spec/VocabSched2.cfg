SPECIFICATION SpecS
CONSTANTS Sizes <- Balanced
          Mergers <- M2
INVARIANT Report
CHECK_DEADLOCK FALSE
