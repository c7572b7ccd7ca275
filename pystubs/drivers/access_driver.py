"""Random access to the documents of an index: JSON request on stdin, JSON answer on stdout."""
import json
import random
import sys

import wimbd.es

req = json.load(sys.stdin)
es = wimbd.es.es_init(req["config"])
wimbd.es.es_init = lambda *a, **k: es
random.seed(req["seed"])
try:
    import numpy
    numpy.random.seed(req["seed"])
except ImportError:
    pass
out = []
if req["how"] == "many":
    from wimbd.es.random_access import random_documents
    out = random_documents(req["index"], req["dir"], req["n"])
else:
    from wimbd.indexing import random_access
    out = [random_access(req["index"], req["dir"] + "/ids.h5") for _ in range(req["n"])]
print(json.dumps([{"_id": d["_id"], "found": d.get("found", True), "_source": d.get("_source")} for d in out]))
