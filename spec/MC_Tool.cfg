SPECIFICATION Spec
INVARIANTS PackOK ParamsOK VersionOK
PROPERTIES SharedOK FreshOK ParamsStay
CHECK_DEADLOCK FALSE
