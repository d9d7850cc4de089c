from .results import judged


def run(c):
    judged(c, "C11")
