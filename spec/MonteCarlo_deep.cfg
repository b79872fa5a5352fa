CONSTANTS MaxSeg = 4
          MaxWorkers = 4
SPECIFICATION Spec
INVARIANTS AtMostOnce AllVisited OnLattice MassKept
