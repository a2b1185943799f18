SPECIFICATION Spec
CONSTANTS NGroups = 2
          NRegs = 2
          WidthsC = {2}
          Kinds = {"reg", "group", "file"}
INVARIANTS TypeOK Isolation Bits
CHECK_DEADLOCK FALSE
