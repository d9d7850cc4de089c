from .workers import models, schedules, traces


def run(c):
    c.build()
    models(c, [("{1, 2}", 3, 2, "TRUE", "{0, 2}")] + ([("{1, 2, 3}", 3, 2, "FALSE", "{1, 2}")] if c.thorough else []))
    f = schedules(c, [(3, 5, 1), (2, 5, 2), (4, 8, 1), (3, 7, 3)], 150 if c.thorough else 20, "TRUE")
    _, _, out = c.harness("c16", "--schedules", f)
    traces(c, out, "the reports are not those of the specification", '"reports"')
    if c.thorough:
        c.prove("EnumProof")
