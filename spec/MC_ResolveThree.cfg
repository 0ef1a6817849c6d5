CONSTANTS
  Names = {"a", "b", "c"}
  Raws = {"x", "[a]", "[c][b]", "[z]", "[q#x]", "[c:nope]"}
  ExtZ = {"[y]", "[a]"}
  ExtY = {"w", "[z]"}
  Kinds = {"str", "vals"}
SPECIFICATION Spec
INVARIANT Confluent Meaning Valid Explained
CHECK_DEADLOCK FALSE
