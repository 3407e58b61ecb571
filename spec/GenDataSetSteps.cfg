SPECIFICATION Spec
CONSTANTS Slots = {0, 1}
 FileContents <- Some
 MemContents <- MemSome
 Cfgs <- FewCfgs
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Needed Counted NoStray OwnCopy ActiveSound
PROPERTY HeldIsSame
