SPECIFICATION Spec
CONSTANTS Slots = {0, 1}
 FileContents <- More
 MemContents <- MemMore
 Cfgs <- AllCfgs
VIEW View
INVARIANTS Needed Counted NoStray OwnCopy ActiveSound
PROPERTY HeldIsSame
