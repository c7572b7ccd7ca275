"""stats lists exactly the longest and shortest documents."""
from . import c07


def check(c):
    c07.models(c, True)
    c07.explore(c, ["stats-lists"], True)
    c.assumptions.append("every file is named once")
