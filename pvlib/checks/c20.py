from .c07 import judged


def run(c):
    c.build()
    c.model("WeightsModel", c.cfg("WeightsModel"))
    judged(c, "c20", "weights do not count in proportion")
