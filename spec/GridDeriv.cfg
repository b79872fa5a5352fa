SPECIFICATION Spec
CONSTRAINT Near0
INVARIANTS NoMemory DefaultStays
