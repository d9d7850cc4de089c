import json, os
from ..core import ToolError
from .workers import cfg


def judged(c, sub, what):
    if not hasattr(c, "pv"):
        c.build()
    _, _, out = c.harness(sub)
    # TLC deals every way in small decks: what the code reports and what the native executor does are that.
    load = lambda name: [json.loads(l) for l in open(os.path.join(out, name + ".ndjson"))]
    code, native = load("code"), load("native")
    c.samples += code[:2]
    c.judge("ShowdownJudge", os.path.join(c.work, "code.ndjson"), code, name="ShowdownJudge_code", what=what)
    try:
        other = [n for k, n in zip(code, native) if k != n]
        if other:
            c.judge("ShowdownJudge", os.path.join(c.work, "native.ndjson"), other, name="ShowdownJudge_native")
    except Exception as e:
        from ..core import Violation, ToolError
        raise ToolError("the native executor is not the specification: " + str(getattr(e, "case", e))) if isinstance(e, Violation) else e


def run(c):
    c.build()
    # Leaving out suits that do not matter stands for all boards; the model would tell if it did not.
    sizes = [dict(Ranks="{0, 1, 2}", BoardSize=3, FlushSize=3)]
    if c.thorough:
        sizes += [dict(Ranks="{0, 1, 2, 3}", BoardSize=4, FlushSize=4), dict(Suits="{0, 1}", Ranks="{0, 1, 2, 3}", MaxDead=1),
                  dict(Suits="{0, 1, 2, 3}", MaxPlayers=1)]
    for k, kw in enumerate(sizes):
        c.model("BoardEnumModel", cfg(c, "BoardEnumModel", **kw), name=f"BoardEnumModel_{k}")
    if not c.tlc("BoardEnumModel", cfg(c, "BoardEnumModel", Slip=1), name="BoardEnumModel_slip")["violated"]:
        raise ToolError("the model of completing boards accepts a wrong shortcut")
    judged(c, "c07", "an exact result is not that of all deals")
