SPECIFICATION SpecS
CONSTANTS Sizes <- Balanced
          Mergers <- M3
INVARIANT Report
CHECK_DEADLOCK FALSE
