CONSTANTS NP = 2
 MaxRows = 1
 MaxOps = 3
 Alpha <- AlphaTiny
INIT Init
NEXT Next
VIEW View
INVARIANTS IncrementalIsDirect Rectangular GlobalSane MergeAssoc
PROPERTIES OnlyTarget RejectsInert
CHECK_DEADLOCK FALSE
