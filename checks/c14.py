import shutil, tempfile
import vf
import dataset_common as D

QUICK = ["1:ur|p", "0:gur|q", "0:gur|p|q", "1:ur|pq", "0:p|q", "2:ur|ur|q", "1:ur|p|n", "1:r|b|q", "2:r|r|f", "0:qgur|p", "2:ur|qn|p", "1:rgu|p|q", "0:x|p", "1:ur|x|q", "0:gu|xp|q"]
DEEP = QUICK + ["0:gur|gur|pq", "0:p|q|p", "0:pgur|qgur", "1:ur|p|q|n", "2:ur|ur|p|q", "2:ur|r|qf", "1:ur|ppq", "0:gupur|q", "3:ur|ur|r|f", "1:ur|x|p|q", "0:xp|px|gur"]


def mutate_conc(t):
    """something else is read, or a free is missing"""
    for i, e in enumerate(t):
        if e["e"] == "use":
            e["props"] ^= 4
            return t
        if e["e"] == "free":
            del t[i]
            return t
    return None


def check(c):
    c.rule = ("histories of start, reload (file, memory), get, use, release and manager free of a data set on a small engine, with sound and broken "
              "data and one failing allocation or file operation at every place, are behaviours of spec/DataSet.tla; and every schedule up to a "
              "preemption bound, and random ones, of threads which get, read, release and reload are histories of spec/DataSetConcTrace.tla")
    vf.models(c, "MCDataSetConc", [("MCDataSetConcCareless", "is violated")])
    vf.models(c, "MCDataSet")
    scripts = D.systematic(c.rng, c.quick) + [D.script(c.rng) for _ in range(700 if c.quick else 40000)] + D.steps(c)
    d = tempfile.mkdtemp(dir=vf._tmpdir())
    try:
        vf.sequential(c, vf.prog("dataset", "fault", ["dataset.c"]), "DataSetTrace", scripts, mutate=D.mutate, args=[d], par=8)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    b = vf.prog("dataset_conc", "sched", ["dataset_sched.c", "sched/sched.c"])
    if c.quick:
        res = vf.explore(c, b, QUICK, 2, 12000, 600)
    else:
        res = vf.explore(c, b, DEEP, 3, 250000, 25000)
    traces = [t for _, t in res]
    bad = vf.validate(c, "DataSetConcTrace", traces)
    for i, pos in bad[:20]:
        t = traces[i]
        c.violation("history not allowed by DataSetConcTrace in case %s at event %d: %s" % (res[i][0], pos, t[pos] if pos < len(t) else None),
                    dict(case=res[i][0], trace=t, position=pos))
    c.extra["histories_with_late_handle_read"] = sum(1 for t in traces if any(e["e"] == "uaf" for e in t))
    if not bad:
        vf.binding_selftest(c, "DataSetConcTrace", traces, mutate_conc)
