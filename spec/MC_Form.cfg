SPECIFICATION Spec
INVARIANTS ControlsOK
PROPERTIES OneChange
CHECK_DEADLOCK FALSE
