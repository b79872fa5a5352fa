CONSTANTS MaxSeg = 3
          MaxWorkers = 3
SPECIFICATION Spec
INVARIANTS AtMostOnce AllVisited OnLattice MassKept
