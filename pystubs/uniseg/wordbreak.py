import re


def words(text):
    """Words, runs of nothing else and single other characters."""
    return iter(re.findall(r"\w+|.", text, re.S))
