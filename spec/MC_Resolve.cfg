CONSTANTS
  Names = {"a", "b"}
  Raws = {"x", "7", "[a]", "[b]", "[z]", "[y]p[b]", "[q]", "[q#x]", "[b:upper]", "[a%3s]", "UNKNOWN", "[z:lower][a]", "[b:nope]", "None"}
  ExtZ = {"x", "[z]", "[y]", "[a]"}
  ExtY = {"w", "[z]", "[b]"}
  Kinds = {"str", "int", "vals", "outc", "up"}
SPECIFICATION Spec
INVARIANT Confluent Meaning Valid Explained
CHECK_DEADLOCK FALSE
