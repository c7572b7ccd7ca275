import re


def wordpunct_tokenize(text):
    return re.findall(r"\w+|[^\w\s]+", text)
