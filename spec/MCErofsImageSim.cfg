SPECIFICATION SimSpec
CONSTANTS
  BitsSet = {9, 10, 11, 12, 13, 14, 15, 16}
  Metas = {0, 1, 2, 7, 1000, 1048575, 1073741824}
  RootSlots = {36, 40, 127, 128, 255, 1000, 4096, 32767, 32768, 65535}
  Kinds = {"file", "link"}
  NidBlocks = {0, 1, 2, 5, 1023, 65535, 65536, 1048576, 40000, 67108864}
  Quots = {0, 1, 2, 3, 7}
  RawBlocks = {4, 9, 100, 65535, 65536, 1048575, 1048576, 16777216, 2147483600}
  Highs = {0, 1}
ACTION_CONSTRAINT Emit
INVARIANTS SizeRight TailInBlock Aligned
CHECK_DEADLOCK FALSE
