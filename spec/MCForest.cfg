SPECIFICATION Spec
CONSTANTS NF = 1
 MaxN = 4
 MaxTotal = 4
 WithData = TRUE
 WithSet = FALSE
 Full = FALSE
 EmitGraph = TRUE
VIEW View
INVARIANTS LinksWellFormed NeighboursAgree DftIsWalk ShallowIsFilter BftIsLevelOrder AncestorsAndSiblings EmitS
PROPERTY ActionProps
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
