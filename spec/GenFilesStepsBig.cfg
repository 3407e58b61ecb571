SPECIFICATION Spec
CONSTANTS MaxPath = 60
 MaxFiles = 2
 MaxOpen = 2
 Contents <- MoreContents
 PathLists <- MoreLists
VIEW View
ACTION_CONSTRAINT Emit
