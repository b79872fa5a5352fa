CONSTANTS Cells = 5
          MaxPts = 2
SPECIFICATION Spec
INVARIANTS GridRight MeetsRight
