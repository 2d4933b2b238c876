SPECIFICATION Spec
CONSTANTS
  Objs = {o1, o2}
  Keys = {1, 2, 3}
  Vals = {0, 1}
  Tags = {0, 1}
INVARIANT TypeOK
PROPERTIES Isolation NoOverwrite NoLoss ReadOnly
