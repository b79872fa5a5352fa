CONSTANTS Cells = 4
          MaxPts = 2
SPECIFICATION Spec
INVARIANTS GridRight MeetsRight
