SPECIFICATION Spec
INVARIANTS TwelveBits Decodable Fields
POSTCONDITION Export
CHECK_DEADLOCK FALSE
