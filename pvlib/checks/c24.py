import re

MENU = ["22", "AA", "KK@50", "AKs", "AKs@30", "72s", "QJo", "T9o@20", "AsKh", "AsKh@50", "2c2d", "AsAh", "KsKh,QsQh@10,JsJh@7",
        "AhKh,QdQc@40", "A5s-A2s", "88-TT@60", "KQ", "QQ,JJ", "JJ,TT@33", "54o,AsKs@1", "AA@0,KK", "99+", "A2o+", "QJs,JTs@99", "3h2h",
        "AKo,AhKh@11", "22-55@8", "random", "4s4h@0", "Td9d,9d8d@77,8d7d@3", "T8s+@45"]


def run(c):
    c.build()
    cfg = c.cfg("Session")
    c.model("Session", cfg.replace("MaxSteps = 4", "MaxSteps = 5") if c.thorough else cfg)
    deck = "{" + ", ".join(map(str, range(52))) + "}"
    cfg = re.sub(r"Menu = \{.*\}", "Menu = {" + ", ".join(f'"{t}"' for t in MENU) + "}", cfg)
    for a, b in [("Vars = {1, 2}", "Vars = {1, 2, 3, 4}"), ("Tokens = {1}", "Tokens = {1, 2, 3}"), ("Slots = {1, 2}", "Slots = {1, 2, 3, 4}"),
                 ("Playing = {0, 5}", "Playing = " + deck), ("BoardSizes = {1}", "BoardSizes = {2, 3, 4, 5}"), ("DeadSizes = {0}", "DeadSizes = {0, 2, 5}"),
                 ("MaxPlayers = 2", "MaxPlayers = 4"), ("Threads = {1}", "Threads = {1, 2, 3, 4}"), ("Weights = {5}", "Weights = {0, 1, 20, 50, 100}"), ('Kinds = {"exact"}', 'Kinds = {"exact", "sampled"}'),
                 ("MaxCost = 1000000000", "MaxCost = 400000"), ("MaxSteps = 4", "MaxSteps = 80"), ("Emit = FALSE", "Emit = TRUE"), ("VIEW View", ""),
                 ("INVARIANTS RangesOK OutcomesOK OrderOK FilterOK CutOK Emitted", "INVARIANTS CutOK Emitted"), ("PROPERTY InputsKept", "")]:
        assert a in cfg, a
        cfg = cfg.replace(a, b)
    hist = c.simulate("Session", cfg, "SE", 3000 if c.thorough else 400, 90)
    d, _, _ = c.harness("c24", "--sessions", c.write("sessions.ndjson", hist))
    c.samples += [[e.get("op") for e in hist[0]]]
