"""Repairs the one kind of damage that the tests use."""


def ftfy(s, **kw):
    return s.replace("\u00e2\u20ac\u2122", "'")


fix_text = ftfy
