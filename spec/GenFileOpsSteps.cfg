SPECIFICATION SpecG
CONSTANTS MaxPath = 60
 Some <- SomeContents
VIEW View
ACTION_CONSTRAINT Emit
