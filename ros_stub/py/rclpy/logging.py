from .node import _Logger


def get_logger(name):
    return _Logger()
