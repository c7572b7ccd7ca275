"""The files of a web site are those of the JSON file PV_WEB: {url: content}."""
import io
import json
import os

from pvgate import gate


class _Site:
    def __init__(self, headers):
        self.ok = headers.get("Authorization") == "Bearer " + os.environ.get("PV_TOKEN", "token")
        with open(os.environ["PV_WEB"]) as f:
            self.files = json.load(f)

    def exists(self, url, **kw):
        gate("exists", file=url)
        return self.ok and url in self.files

    def open(self, url, mode="rb", **kw):
        gate("fetch", file=url)
        if not self.ok or url not in self.files:
            raise FileNotFoundError(url)
        return io.BytesIO(self.files[url].encode()) if "b" in mode else io.StringIO(self.files[url])


def filesystem(protocol, headers=None, **kw):
    assert protocol in ("https", "http")
    return _Site(headers or {})
