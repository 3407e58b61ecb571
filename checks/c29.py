import vf
import files_common as F


def check(c):
    c.rule = ("histories of writing, copying, deleting, measuring and reading files of sizes around the buffers, with a fault of one file operation, on the real file.c in a "
              "scratch folder which is listed after every operation; distinct = recorded traces which differ")
    vf.models(c, "MCFileOps")
    F.run(c, ["plain"], 2500 if c.quick else 60000, F.plain_steps(c))
