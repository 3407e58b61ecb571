SPECIFICATION Spec
CONSTANTS MaxPath = 60
 MaxFiles = 2
 MaxOpen = 1
 Contents <- SomeContents
 PathLists <- SomeLists
VIEW View
ACTION_CONSTRAINT Emit
