from .workers import models, schedules, traces


def run(c):
    c.build()
    models(c, [("{1, 2}", 3, 2, "FALSE", "{0, 1, 2}"), ("{1, 2, 3}", 2, 1, "FALSE", "{1}")] +
           ([("{1, 2, 3}", 4, 2, "FALSE", "{1}"), ("{1, 2}", 4, 2, "FALSE", "{0, 1, 2}"), ("{1, 2, 3}", 3, 1, "FALSE", "{0, 1}")] if c.thorough else []))
    f = schedules(c, [(3, 5, 1), (2, 5, 2), (4, 8, 1), (3, 7, 3), (2, 3, 1)], 250 if c.thorough else 30, "FALSE")
    _, _, out = c.harness("c09", "--schedules", f)
    traces(c, out, "the workers do not do what the specification's workers may do")
    if c.thorough:
        c.prove("EnumProof")
