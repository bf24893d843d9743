SPECIFICATION Spec
CONSTANTS ONE = "4"
          MAXW = "15"
          MAXWW = "255"
          MaxA = 40
          Step = 2
INVARIANTS SourceOK TargetOK ExactOK NoFreeLunch Floats
CHECK_DEADLOCK FALSE
