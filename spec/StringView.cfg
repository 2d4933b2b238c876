CONSTANTS
  Chars = {0, 97, 255}
  MaxLen = 2
  Regs = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS TypeOK Total EqConsistent Transitive PrefixFirst SubSplit SubSub
PROPERTIES Isolation AppendGrows
CHECK_DEADLOCK FALSE
