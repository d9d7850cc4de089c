import json, os, re
from ..core import ToolError


def cfg(c, module, **kw):
    """The configuration of a module with other constants."""
    t = c.cfg(module)
    for k, v in kw.items():
        t, n = re.subn(rf"(?m)^  {k} = .*$", f"  {k} = {v}", t)
        if n != 1:
            raise ToolError(f"{module}.cfg has no constant {k}")
    return t


def models(c, cases, patience=3):
    """Every interleaving of a few workers, with every policy of how much to take and when to hand in."""
    for k, (workers, total, batch, cancel, costs) in enumerate(cases):
        c.model("EnumWorkers", cfg(c, "EnumWorkers", Workers=workers, Total=total, Batch=batch, MayCancel=cancel, Costs=costs, Patience=patience),
                name=f"EnumWorkers_{k}", timeout=800)


def schedules(c, configs, num, cancel):
    """Schedules of the specification for the harness to replay on real threads."""
    res = []
    for k, (w, total, batch) in enumerate(configs):
        t = cfg(c, "EnumSchedules", Workers="{" + ", ".join(map(str, range(1, w + 1))) + "}", Total=total, Batch=batch, MayCancel=cancel)
        res += c.simulate("EnumSchedules", t, "SC", num, 900, name=f"EnumSchedules_{cancel}_{k}")
    return c.write(f"schedules_{cancel}.ndjson", res)


def traces(c, out, what, judged='"work"'):
    rows = [json.loads(l) for l in open(os.path.join(out, "trace.ndjson"))]
    c.judge("EnumTrace", os.path.join(c.work, "judge.ndjson"), rows, spec="TraceSpec", what=what, cfg=f'CONSTANT Judged = {{{judged}}}\n')
