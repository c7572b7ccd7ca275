"""The web for link_exists: the host says what happens ("up", "gone", "error", "moved", "down", "loop", ...)."""
import types


class RequestException(IOError):
    pass


class HTTPError(RequestException):
    pass


class ConnectionError(RequestException):
    pass


class Timeout(RequestException):
    pass


class ConnectTimeout(ConnectionError, Timeout):
    pass


class ReadTimeout(Timeout):
    pass


class SSLError(ConnectionError):
    pass


class TooManyRedirects(RequestException):
    pass


class InvalidURL(RequestException, ValueError):
    pass


class MissingSchema(RequestException, ValueError):
    pass


class InvalidSchema(RequestException, ValueError):
    pass


class ChunkedEncodingError(RequestException):
    pass


exceptions = types.SimpleNamespace(RequestException=RequestException, HTTPError=HTTPError, ConnectionError=ConnectionError,
                                   Timeout=Timeout, ConnectTimeout=ConnectTimeout, ReadTimeout=ReadTimeout, SSLError=SSLError,
                                   TooManyRedirects=TooManyRedirects, InvalidURL=InvalidURL, MissingSchema=MissingSchema,
                                   InvalidSchema=InvalidSchema, ChunkedEncodingError=ChunkedEncodingError)
RAISES = {"slow": ConnectTimeout, "silent": ReadTimeout, "untrusted": SSLError, "loop": TooManyRedirects, "bad*": InvalidURL,
          "cut": ChunkedEncodingError}
STATUS = {"up": 200, "moved": 200, "made": 201, "empty": 204, "gone": 404, "error": 500, "forbidden": 403, "busy": 503}


class Response:
    def __init__(self, status):
        self.status_code = status

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    @property
    def ok(self):
        return self.status_code < 400

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError("%d" % self.status_code)

    def close(self):
        pass


def get(url, **kw):
    host = url.split("//", 1)[-1].split("/")[0].split(".")[0]
    if "://" not in url:
        raise MissingSchema(url)
    if not url.lower().startswith(("http://", "https://")):
        raise InvalidSchema(url)
    if host in RAISES:
        raise RAISES[host](url)
    if host not in STATUS:
        raise ConnectionError(url)
    return Response(STATUS[host])


def head(url, **kw):
    return get(url, **kw)
