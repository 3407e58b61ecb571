SPECIFICATION Spec
CONSTANTS Slots = {0, 1}
 FileContents <- Some
 MemContents <- MemSome
 Cfgs <- FewCfgs
VIEW View
INVARIANTS Needed Counted NoStray OwnCopy ActiveSound
PROPERTY HeldIsSame
