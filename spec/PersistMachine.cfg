SPECIFICATION Spec
INVARIANTS OriginalsAreAccepted DamagedIsRefused
PROPERTIES LoadedIsStored
