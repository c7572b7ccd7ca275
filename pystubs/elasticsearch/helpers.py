"""Bulk helpers: chunks are sent by concurrent threads, results come in the order of the actions."""
import copy
from concurrent.futures import ThreadPoolExecutor

from .exceptions import ApiError

META = ("_index", "_id", "_op_type", "_source", "routing", "pipeline")


class BulkIndexError(Exception):
    def __init__(self, message, errors):
        super().__init__(message, errors)
        self.errors = errors


def _chunks(it, n):
    c = []
    for x in it:
        c.append(x)
        if len(c) == n:
            yield c
            c = []
    if c:
        yield c


def _send(client, chunk, raise_on_error, raise_on_exception, ignore_status):
    out, errors = [], []
    try:
        with client._session("bulk", n=len(chunk)) as s:
            bad = s.faults.get("items", {})
            for a in chunk:
                a = copy.deepcopy(a)
                op = a.pop("_op_type", "index")
                index, id = a.pop("_index"), a.pop("_id", None)
                src = a.pop("_source", a)
                st = bad.get(str(id)) or s.put(index, id, src, op)
                ok = 200 <= st < 300
                info = {op: {"_index": index, "_id": str(id), "status": st}}
                if not ok:
                    info[op]["error"] = {"type": "version_conflict_engine_exception" if st == 409 else "some_exception"}
                    info[op]["data"] = src
                    if raise_on_error and st not in ignore_status:
                        errors.append(info)
                out.append((ok, info))
    except ApiError as e:
        if raise_on_exception or e.status_code not in ignore_status:
            raise
        return [(False, {a.get("_op_type", "index"): {"_id": a.get("_id"), "status": e.status_code, "error": str(e)}}) for a in chunk]
    if errors:
        raise BulkIndexError("%d document(s) failed to index." % len(errors), errors)
    return out


def parallel_bulk(client, actions, thread_count=4, chunk_size=500, max_chunk_bytes=100 * 1024 * 1024, queue_size=4,
                  raise_on_error=True, raise_on_exception=True, ignore_status=(), **kw):
    ignore_status = (ignore_status,) if isinstance(ignore_status, int) else ignore_status
    with ThreadPoolExecutor(thread_count) as ex:
        pending = []
        for c in _chunks(actions, chunk_size):
            pending.append(ex.submit(_send, client, c, raise_on_error, raise_on_exception, ignore_status))
            while len(pending) > queue_size:
                yield from pending.pop(0).result()
        for p in pending:
            yield from p.result()


def streaming_bulk(client, actions, chunk_size=500, raise_on_error=True, raise_on_exception=True, ignore_status=(), **kw):
    ignore_status = (ignore_status,) if isinstance(ignore_status, int) else ignore_status
    for c in _chunks(actions, chunk_size):
        yield from _send(client, c, raise_on_error, raise_on_exception, ignore_status)


def bulk(client, actions, stats_only=False, ignore_status=(), **kw):
    n, errors = 0, []
    for ok, info in streaming_bulk(client, actions, ignore_status=ignore_status, **kw):
        n += ok
        if not ok:
            errors.append(info)
    return n, errors
