import os
from .. import core


def run(c):
    c.build()
    r = c.model("StartingHands", c.cfg("StartingHands"))
    rows = sorted(c.rows(r, "SH"))
    text = "".join(f"{x[2]} {x[3]} {x[4]}\n" for x in rows)
    if text != open(os.path.join(core.SPEC, "gen", "hands.txt")).read():
        raise core.ToolError("spec/gen/hands.txt is not what StartingHands.tla says")
    c.samples += [rows[0], rows[1000]]
    c.harness("c03", "--list", c.write("list.ndjson", rows))
    c.exhaustive = True
