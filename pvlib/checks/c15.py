import json, os
from .workers import cfg


def run(c):
    c.build()
    cases = [("{1, 2}", "{0, 1000000}", 350000000, 3, 5), ("{1}", "{0, 500000, 1000000}", 250000000, 2, 6)]
    if c.thorough:
        cases += [("{1, 2, 3}", "{0, 1000000}", 300000000, 3, 5), ("{1, 2}", "{0, 500000, 1000000}", 200000000, 4, 7)]
    for k, (workers, means, target, least, most) in enumerate(cases):
        c.model("SampleWorkers", cfg(c, "SampleWorkers", Workers=workers, Means=means, Target=target, Least=least, MaxPortions=most), name=f"SampleWorkers_{k}")
    _, _, out = c.harness("c15")
    rows = [json.loads(l) for l in open(os.path.join(out, "trace.ndjson"))]
    c.judge("SampleTrace", os.path.join(c.work, "judge.ndjson"), rows, spec="TraceSpec", cfg="CONSTANTS\n  Least = 10\n  Patience = 64\n",
            what="a sampled calculation does not stop as the specification's may, or reports other sums or another deviation")
    if c.thorough:
        c.prove("SampleProof")
