SPECIFICATION Spec
CONSTANTS
  Alpha = {9, 10, 13, 32, 92, 110, 120, 48, 133, 8232, 128512, 55296}
  MaxLen = 3
INVARIANTS RoundTrip Printable Injective TokenLine VocabRecord CacheRecord
CHECK_DEADLOCK FALSE
