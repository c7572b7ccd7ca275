"""An Elasticsearch server with the documented semantics of the requests that wimbd makes, in this process.

Documents are analysed into lower-case words. Every index has shards; documents are found in the order of the sort
fields and, within a point in time, of _shard_doc. With cloud_id "fake:PATH" the server's state lives in a file."""
import copy
import fcntl
import json
import os
import re
import threading

from .exceptions import ApiError, BadRequestError, ConflictError, ConnectionError, NotFoundError  # noqa: F401

MISSING = 9223372036854775807
_lock = threading.RLock()


def words(text):
    return re.findall(r"\w+", str(text).lower()) if text is not None else []


def check(x):
    """Only what can be sent as JSON."""
    json.dumps(x)


class Server:
    def __init__(self, path=None):
        self.path = path
        self.indices = {}           # name -> {"shards": n, "docs": {id: (seq, shard, source)}, "seq": n}
        self.pits = {}
        self.npit = 0
        self.log = []
        self.between = []           # called after every search request
        self.faults = {}
        if path and os.path.exists(path):
            with open(path) as f:
                s = json.load(f)
            self.indices = s["indices"]
            self.faults = s.get("faults", {})

    def save(self):
        if self.path:
            with open(self.path + ".new", "w") as f:
                json.dump({"indices": self.indices, "faults": self.faults}, f)
            os.replace(self.path + ".new", self.path)

    def index(self, name):
        if name not in self.indices:
            raise NotFoundError("index_not_found_exception: %s" % name)
        return self.indices[name]

    def create_index(self, name, shards=1, mappings=None):
        if name in self.indices:
            raise BadRequestError("resource_already_exists_exception")
        if name != name.lower():
            raise BadRequestError("invalid_index_name_exception")
        self.indices[name] = {"shards": shards, "docs": {}, "seq": 0, "props": sorted(mappings or [])}

    def put(self, name, id, source, op="index"):
        check(source)
        if name not in self.indices:
            self.create_index(name)
        ix = self.indices[name]
        id = str(id)
        if len(id.encode()) > 512:
            return 400
        if op == "create" and id in ix["docs"]:
            return 409
        status = 200 if id in ix["docs"] else 201
        shard = sum(id.encode()) % ix["shards"]
        ix["seq"] += 1
        ix["docs"][id] = (ix["seq"], shard, copy.deepcopy(source))
        return status


# ---- queries

def value_of(doc, field):
    if field.endswith(".keyword"):
        field = field[:-8]
    x = doc
    for p in field.split("."):
        if not isinstance(x, dict) or p not in x:
            return None
        x = x[p]
    return x


def phrase_in(ws, ph, slop):
    if not ph:
        return False
    n = len(ph)
    for i in range(len(ws) - n + 1):
        if ws[i:i + n] == ph:
            return True
    if slop:
        def go(i, k, left):
            if k == n:
                return True
            for j in range(i, min(len(ws), i + left + 1)):
                if ws[j] == ph[k] and go(j + 1, k + 1, left - (j - i)):
                    return True
            return False
        for i in range(len(ws)):
            if ws[i] == ph[0] and go(i + 1, 1, slop):
                return True
    return False


def one(x):
    if not isinstance(x, dict) or len(x) != 1:
        raise BadRequestError("parsing_exception: %r" % (x,))
    return next(iter(x.items()))


def clauses(x):
    if x is None:
        return []
    return x if isinstance(x, (list, tuple)) else [x]


def matches(q, doc):
    if q is None:
        return True
    kind, body = one(q)
    if kind == "match_all":
        return True
    if kind == "match_none":
        return False
    if kind == "bool":
        unknown = set(body) - {"must", "filter", "should", "must_not", "minimum_should_match", "boost"}
        if unknown:
            raise BadRequestError("[bool] query does not support %s" % unknown)
        must = clauses(body.get("must")) + clauses(body.get("filter"))
        should = clauses(body.get("should"))
        if not all([matches(c, doc) for c in must]) or any([matches(c, doc) for c in clauses(body.get("must_not"))]):
            return False
        n = sum([matches(c, doc) for c in should])
        m = body.get("minimum_should_match")
        if m is None:
            m = 1 if should and not must else 0
        return n >= min(int(m), len(should)) if should or m in (None, 0) else False
    if kind == "constant_score":
        return matches(body["filter"], doc)
    if kind == "match_phrase":
        field, v = one(body)
        slop = 0
        if isinstance(v, dict):
            v, slop = v["query"], v.get("slop", 0)
        return phrase_in(words(value_of(doc, field)), words(v), slop)
    if kind == "match":
        field, v = one(body)
        op = "or"
        if isinstance(v, dict):
            v, op = v["query"], v.get("operator", "or").lower()
        ws = set(words(value_of(doc, field)))
        return (any if op == "or" else all)(w in ws for w in words(v)) and bool(words(v))
    if kind in ("term", "terms"):
        field, v = one(body)
        if isinstance(v, dict):
            v = v["value"]
        have = value_of(doc, field)
        have = have if isinstance(have, list) else [have]
        want = v if kind == "terms" else [v]
        if field == "text":
            have = words(value_of(doc, field))
        return any(w in have and w is not None for w in want)
    if kind == "exists":
        return value_of(doc, body["field"]) is not None
    if kind == "ids":
        return doc.get("_id") in body["values"]
    if kind == "regexp":
        field, v = one(body)
        ci = False
        if isinstance(v, dict):
            v, ci = v["value"], v.get("case_insensitive", False)
        return any(re.fullmatch(v, w, re.I if ci else 0) for w in words(value_of(doc, field)))
    raise BadRequestError("unknown query [%s]" % kind)


def sort_spec(sort):
    out = []
    for s in clauses(sort):
        if isinstance(s, str):
            f, _, o = s.partition(":")
            out.append((f, o or "asc"))
        else:
            for f, o in s.items():
                out.append((f, o.get("order", "asc") if isinstance(o, dict) else o))
    return out


class _Rev:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return o.v < self.v

    def __eq__(self, o):
        return o.v == self.v


class Indices:
    def __init__(self, es):
        self.es = es

    def create(self, *, index, settings=None, mappings=None, **kw):
        with self.es._session("indices.create", index=index) as s:
            st = settings or {}
            n = st.get("index.number_of_shards", st.get("number_of_shards", st.get("index", {}).get("number_of_shards", 1) if isinstance(st.get("index"), dict) else 1))
            s.create_index(index, int(n), (mappings or {}).get("properties"))
            return {"acknowledged": True, "index": index}

    def exists(self, *, index):
        with self.es._session("indices.exists") as s:
            return index in s.indices

    def get(self, *, index):
        with self.es._session("indices.get") as s:
            return {k: {} for k in s.indices}

    def refresh(self, *, index=None):
        return {}

    def get_mapping(self, *, index):
        with self.es._session("indices.get_mapping") as s:
            names = index if isinstance(index, list) else index.split(",")
            if not names:
                names = list(s.indices)     # as the client does
            fields = {n: dict.fromkeys([f for f in s.index(n).get("props", [])] + [f for d in s.index(n)["docs"].values() for f in d[2]]) for n in names}
            # an index without fields has an empty mapping
            return {n: {"mappings": {"properties": {f: {} for f in fs}} if fs else {}} for n, fs in fields.items()}


class Cat:
    def __init__(self, es):
        self.es = es

    def indices(self, *, format=None, index=None, **kw):
        with self.es._session("cat.indices") as s:
            return [{"index": k, "docs.count": str(len(v["docs"])), "health": "green", "status": "open", "pri": str(v["shards"])}
                    for k, v in s.indices.items()]

    def shards(self, *, index=None, format=None, **kw):
        with self.es._session("cat.shards") as s:
            return [{"index": n, "shard": str(i), "prirep": "p"} for n in (index if isinstance(index, list) else [index])
                    for i in range(s.index(n)["shards"])]


class _Session:
    def __init__(self, es, what, kw):
        self.es, self.what, self.kw = es, what, kw

    def __enter__(self):
        _lock.acquire()
        self.lock = None
        try:
            if self.es.path:
                self.lock = open(self.es.path + ".lock", "w")
                fcntl.flock(self.lock, fcntl.LOCK_EX)
                self.es.server = Server(self.es.path)
            s = self.es.server
            s.log.append(dict(self.kw, request=self.what))
            f = s.faults.get(self.what)
            if f:
                f["n"] = f.get("n", 0) + 1
                if f["n"] == f.get("at"):
                    s.save()
                    if f["do"] == "exit":
                        os._exit(99)
                    if f["do"] == "raise":
                        raise ApiError("injected", f.get("status", 503))
                    if f["do"] == "connection":
                        raise ConnectionError("injected")
            return s
        except BaseException:
            self.__exit__(1, None, None)
            raise

    def __exit__(self, t, v, tb):
        if t is None:
            self.es.server.save()
        if self.lock:
            self.lock.close()
        _lock.release()


class Elasticsearch:
    def __init__(self, hosts=None, *, cloud_id=None, api_key=None, server=None, **kw):
        self.path = None
        if cloud_id is not None:
            if not str(cloud_id).startswith("fake:"):
                raise ConnectionError("no server at %r" % (cloud_id,))
            self.path = cloud_id[5:]
        self.server = server or Server(self.path)
        self.indices = Indices(self)
        self.cat = Cat(self)

    def _session(self, what, **kw):
        return _Session(self, what, kw)

    def options(self, **kw):
        return self

    def ping(self):
        return True

    def info(self):
        return {"version": {"number": "8.0.0"}}

    def index(self, *, index, id=None, document=None, op_type="index", **kw):
        with self._session("index") as s:
            st = s.put(index, id, document, op_type)
            if st == 409:
                raise ConflictError("version_conflict")
            return {"_id": id, "result": "created" if st == 201 else "updated"}

    def get(self, *, index, id, **kw):
        with self._session("get") as s:
            d = s.index(index)["docs"].get(str(id))
            if d is None:
                raise NotFoundError("document missing")
            return {"_index": index, "_id": id, "found": True, "_source": copy.deepcopy(d[2])}

    def mget(self, *, index, ids, **kw):
        with self._session("mget") as s:
            docs = s.index(index)["docs"]
            return {"docs": [{"_id": i, "found": i in docs, **({"_source": copy.deepcopy(docs[i][2])} if i in docs else {})} for i in ids]}

    def open_point_in_time(self, *, index, keep_alive, **kw):
        with self._session("open_pit", index=index) as s:
            s.npit += 1
            key = "pit-%d" % s.npit
            s.pits[key] = {"gen": 0, "index": index, "docs": copy.deepcopy(s.index(index)["docs"]), "shards": s.index(index)["shards"]}
            return {"id": key + ".0"}

    def close_point_in_time(self, *, id, **kw):
        with self._session("close_pit") as s:
            key, _, gen = str(id).rpartition(".")
            if key not in s.pits:
                raise NotFoundError("search_context_missing_exception")
            del s.pits[key]
            return {"succeeded": True, "num_freed": 1}

    def _find(self, s, index, pit, query, preference=None):
        if pit is not None:
            if index is not None:
                raise BadRequestError("[indices] cannot be used with point in time. Do not specify any index with point in time.")
            key, _, gen = str(pit["id"]).rpartition(".")
            p = s.pits.get(key)
            # only the most recent id is valid
            if p is None or int(gen) != p["gen"]:
                raise NotFoundError("search_context_missing_exception")
            docs = p["docs"]
        else:
            docs = s.index(index)["docs"]
        shard = None
        if preference and preference.startswith("_shards:"):
            shard = {int(x) for x in preference[8:].split("|")[0].split(",")}
        hits = []
        for i, (seq, sh, src) in docs.items():
            if shard is not None and sh not in shard:
                continue
            if matches(query, dict(src, _id=i)):
                hits.append((seq, sh, i, src))
        return hits

    def _sort_key(self, fields, pit):
        def value(h, f):
            if f in ("_doc", "_shard_doc"):
                return (0, (h[1] << 32) + h[0])
            if f == "_id":
                raise BadRequestError("Fielddata access on the _id field is disallowed")
            v = value_of(h[3], f)
            return (1, MISSING) if v is None else (0, v)

        def key(h):
            return [value(h, f) for f, _ in fields]
        return key

    def search(self, *, index=None, query=None, size=10, from_=0, sort=None, search_after=None, pit=None, preference=None,
               track_total_hits=None, stored_fields=None, source=None, body=None, **kw):
        for x in (query, sort, search_after, pit):
            check(x)
        with self._session("search", size=size, index=index) as s:
            if size is None:
                size = 10
            if size < 0 or size + from_ > 10000:
                raise BadRequestError("Result window is too large")
            fields = sort_spec(sort)
            if pit is not None and fields and not any(f in ("_shard_doc", "_doc") for f, _ in fields):
                fields = fields + [("_shard_doc", "asc")]
            hits = self._find(s, index, pit, query, preference)
            total = len(hits)
            key = self._sort_key(fields, pit)

            def order(h):
                return [_Rev(v) if o == "desc" else v for v, (_, o) in zip(key(h), fields)]
            # without a total order, ties come in the order of the shards
            hits.sort(key=lambda h: (order(h), h[1], h[0]))
            if search_after is not None:
                if not fields:
                    raise BadRequestError("Sort must contain at least one field.")
                if from_:
                    raise BadRequestError("`from` parameter must be set to 0 when `search_after` is used.")
                n = len(search_after)
                if n != len(fields) and not (pit is not None and n == len(fields) - 1):
                    raise BadRequestError("search_after has %d value(s) but sort has %d." % (n, len(fields)))
                after = [(1, v) if v == MISSING else (0, v) for v in search_after]

                def gt(h):
                    for v, a, (_, o) in zip(key(h), after, fields):
                        if v != a:
                            return v > a if o != "desc" else v < a
                    return False
                hits = [h for h in hits if gt(h)]
            page = hits[from_:from_ + size]
            out = []
            for h in page:
                d = {"_index": index or s.pits[str(pit["id"]).rpartition(".")[0]]["index"], "_id": h[2], "_score": None if fields else 1.0}
                if stored_fields is None:
                    d["_source"] = copy.deepcopy(h[3])
                if fields:
                    d["sort"] = [v[1] for v in key(h)]
                out.append(d)
            r = {"took": 1, "timed_out": False, "hits": {"hits": out, "max_score": None}}
            if track_total_hits is not False:
                r["hits"]["total"] = {"value": total, "relation": "eq"}
            if pit is not None:
                k = str(pit["id"]).rpartition(".")[0]
                s.pits[k]["gen"] += 1
                r["pit_id"] = "%s.%d" % (k, s.pits[k]["gen"])
            for f in s.between:
                f(s)
            return r

    def count(self, *, index=None, query=None, **kw):
        check(query)
        with self._session("count", index=index) as s:
            return {"count": len(self._find(s, index, None, query)), "_shards": {}}

    def msearch(self, *, searches=None, index=None, search_type=None, rest_total_hits_as_int=False, **kw):
        check(searches)
        with self._session("msearch", n=len(searches) // 2) as s:
            if len(searches) % 2 or not searches:
                raise BadRequestError("no requests added" if not searches else "malformed msearch")
            out = []
            for h, b in zip(searches[::2], searches[1::2]):
                ix = h.get("index", index)
                hits = self._find(s, ix, None, b.get("query"))
                size = b.get("size", 10)
                limit = b.get("track_total_hits", 10000)
                total = len(hits) if limit is True else min(len(hits), int(limit) if limit else 0)
                r = {"took": 1, "timed_out": False, "status": 200,
                     "hits": {"hits": [{"_index": ix, "_id": x[2]} for x in hits[:size]]}}
                r["hits"]["total"] = total if rest_total_hits_as_int else {"value": total, "relation": "eq"}
                if rest_total_hits_as_int and limit is not True and "track_total_hits" in b and limit is not False:
                    raise BadRequestError("[rest_total_hits_as_int] cannot be used if the tracking of total hits is not accurate")
                out.append(r)
            return {"took": 1, "responses": out}

    def termvectors(self, *, index, id, fields=None, term_statistics=False, preference=None, **kw):
        with self._session("termvectors") as s:
            docs = s.index(index)["docs"]
            if id not in docs:
                return {"_id": id, "found": False}
            shard = docs[id][1]
            out = {}
            for f in fields or ["text"]:
                ws = words(value_of(docs[id][2], f))
                terms = {}
                for w in sorted(set(ws)):
                    terms[w] = {"term_freq": ws.count(w)}
                    if term_statistics:
                        all_ = [words(value_of(d[2], f)) for d in docs.values() if d[1] == shard]
                        terms[w]["ttf"] = sum(x.count(w) for x in all_)
                        terms[w]["doc_freq"] = sum(w in x for x in all_)
                out[f] = {"terms": terms}
            return {"_id": id, "found": True, "term_vectors": out}
