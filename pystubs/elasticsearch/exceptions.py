class ApiError(Exception):
    def __init__(self, message="", status=500):
        super().__init__("ApiError(%s, %r)" % (status, message))
        self.status_code = status
        self.message = message


class NotFoundError(ApiError):
    def __init__(self, message="not_found"):
        super().__init__(message, 404)


class BadRequestError(ApiError):
    def __init__(self, message="bad_request"):
        super().__init__(message, 400)


class ConflictError(ApiError):
    def __init__(self, message="conflict"):
        super().__init__(message, 409)


class ConnectionError(Exception):
    pass


class ConnectionTimeout(ConnectionError):
    pass


class TransportError(Exception):
    pass
