import files_common as F
import vf


def check(c):
    c.rule = ("histories of creating, finding and deleting temporary files of masters of sizes around the buffers, over several folders and spellings of paths, with files in "
              "use, a clock which repeats itself and a fault of one file operation, on the real file.c in a scratch folder which is listed after every operation; "
              "distinct = recorded traces which differ")
    vf.models(c, "MCFiles", [("MCFilesNoGuard", "Invariant HeldStays is violated")])
    F.run(c, ["temps"], 1500 if c.quick else 40000, F.steps(c) + ([F.many(c.rng)] if not c.quick else []))
