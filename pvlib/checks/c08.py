from .c07 import judged


def run(c):
    judged(c, "c08", "a hand's own result is not that of the deals it was in")
