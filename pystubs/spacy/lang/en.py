"""Sentences end at ". "; tokens are words; the polarity is what the sentence says ("+0.5" or "-0.25")."""
import re
import types


class Sent:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __iter__(self):
        return iter(types.SimpleNamespace(text=t) for t in re.findall(r"[+-][0-9.]*[0-9]|\w+|[^\w\s]", self.text))

    @property
    def _(self):
        m = re.search(r"[+-][0-9]+(\.[0-9]+)?", self.text)
        return types.SimpleNamespace(blob=types.SimpleNamespace(polarity=float(m.group(0)) if m else 0.0))


class Doc:
    def __init__(self, text):
        self.sents = [Sent(s) for s in re.split(r"(?<=\.) ", text) if s.strip()]


class English:
    def __init__(self):
        self.max_length = 1000000

    def add_pipe(self, name):
        pass

    def __call__(self, text):
        if len(text) > self.max_length:
            raise ValueError("E088: text of length %d exceeds maximum" % len(text))
        return Doc(text)

    def pipe(self, texts, **kw):
        return (self(t) for t in texts)
