from .workers import models, schedules, traces


def run(c):
    c.build()
    models(c, [("{1, 2}", 3, 2, "TRUE", "{0, 2}"), ("{1, 2, 3}", 2, 1, "TRUE", "{1}")] +
           ([("{1, 2}", 3, 2, "TRUE", "{0, 1, 2}"), ("{1, 2}", 4, 2, "TRUE", "{0, 2}")] if c.thorough else []), patience=2)
    f = schedules(c, [(3, 5, 1), (2, 5, 2), (4, 8, 1), (3, 7, 3), (2, 3, 1)], 250 if c.thorough else 30, "TRUE")
    _, _, out = c.harness("c13", "--schedules", f)
    traces(c, out, "the workers do not do what the specification's workers may do", '"work", "token"')
    if c.thorough:
        c.prove("EnumProof")
        c.prove("SampleProof")
