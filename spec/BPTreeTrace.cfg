SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
CONSTANTS MaxKey = 257 MaxVal = 129 RecHdr = 8 LeafCap = 8172 ChildHdr = 12 NodeCap = 8188 Mistakes = {}
