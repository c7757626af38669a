import ndt_world
from . import node, task, executors, client   # noqa: F401
from .node import Node, create_node           # noqa: F401
_up = False
_woken = False


class _Init:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutdown()


def init(*, args=None, context=None, **kw):
    global _up
    _up = True
    return _Init()


def ok(*, context=None):
    return _up


def shutdown(*a, **kw):
    global _up
    _up = False


def try_shutdown(*a, **kw):
    shutdown()


def spin_until_future_complete(node, future, executor=None, timeout_sec=None):
    ndt_world.pass_time()
    ndt_world.wait(future.done, timeout_sec)


def spin_once(node, *, executor=None, timeout_sec=None):
    n = sum(f._done for _, _, f in ndt_world.requests)
    global _woken
    ndt_world.pass_time()
    _woken = not _woken
    # whatever the node has to do wakes it up, not only answers
    t = 0.2 if _woken else timeout_sec
    ndt_world.wait(lambda: sum(f._done for _, _, f in ndt_world.requests) > n,
                   t if timeout_sec is None or timeout_sec < 0 else min(t, timeout_sec))


def spin(node, executor=None):
    while _up:
        ndt_world.pass_time(0.25)


def get_global_executor():
    return executors.SingleThreadedExecutor()
