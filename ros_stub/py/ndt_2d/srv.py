import ndt_world


class _Request:
    __slots__ = ("action", "filename")

    def __init__(self, action=0, filename=""):
        self.action = action
        self.filename = filename


class _Response:
    __slots__ = ()


for _k, _v in ndt_world.CONSTS.items():
    setattr(_Request, _k, _v)
ndt_world._response = _Response


class Configure:
    Request = _Request
    Response = _Response
