def run(c):
    c.build()
    c.model("HandBuilder", c.cfg("HandBuilder_small"), name="HandBuilder_small")
    progs = c.simulate("HandBuilder", c.cfg("HandBuilder_sim"), "HB", 20000 if c.thorough else 3000, 9)
    c.samples += progs[2:4]
    c.harness("c02", "--progs", c.write("progs.ndjson", progs))
