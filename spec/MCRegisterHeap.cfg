SPECIFICATION Spec
CONSTANTS NGroups = 2
          NRegs = 2
          WidthsC = {1, 2}
          W = 2
          W3 = 1
          Depth = 2
          MaxV = 3
INVARIANTS TypeOK OnePlace Refines Frame ClearReach Sharing Widths
CHECK_DEADLOCK FALSE
