def run(c):
    c.build()
    r = c.model("RangeForms", c.cfg("RangeForms"))
    c.harness("c04", "--forms", c.write("forms.ndjson", c.emitted(r, "RF")))
    c.exhaustive = True
