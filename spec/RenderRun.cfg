CONSTANTS Files = {"a", "b"}
          Boxes = {1, 2}
          W = 2
SPECIFICATION Spec
INVARIANTS OutRight NeverTwice Refused
PROPERTY Finishes
