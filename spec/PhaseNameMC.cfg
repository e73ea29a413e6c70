SPECIFICATION Spec
CONSTANTS
  Alphabet = {"P", "S", "K", "i", "p", "c", "m", "v", "^", "n", "4", ".", "x"}
  MaxLen = 4
INVARIANTS Faithful EveryLegIsALeg WholeDepths NeverStuck OneWay
CHECK_DEADLOCK FALSE
