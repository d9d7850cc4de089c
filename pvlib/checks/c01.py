import os, sys
from .. import core
sys.path.insert(0, os.path.join(core.ROOT, "tools"))
import gen_handvalues


def run(c):
    c.build()
    # The closed form of a hand's value is the best of its five-card hands, for every abstract hand.
    c.model("HandTable", open(os.path.join(core.SPEC, "HandTable_best.cfg")).read(), name="HandTable_best")
    # The table the harness replays is what the specification says.
    r = c.model("HandTable", open(os.path.join(core.SPEC, "HandTable_dump.cfg")).read(), name="HandTable_dump")
    table = gen_handvalues.convert(r["out"])
    if table != open(os.path.join(core.SPEC, "gen", "handvalues.txt")).read():
        raise core.ToolError("spec/gen/handvalues.txt is not what HandTable.tla says")
    c.samples += [x for x in table.splitlines() if x[-7:-5] == "48"][:2]
    c.harness("c01")
    c.exhaustive = True
