"""The world of one command line tool: a virtual clock, and a mapper whose service comes up and answers when the history says."""
import json, os, sys
_w = json.loads(os.environ.get("NDT_WORLD", "{}"))
UP = _w.get("up", 0.0)            # when the service appears (None: never)
DELAY = _w.get("delay", 0.0)      # how long it takes to answer (None: for ever)
CONSTS = _w.get("consts", {})
PATIENCE = 20000.0
now = 0.0
requests = []                     # (client name, time, future)
ended = False


def log(**ev):
    with open(os.environ["NDT_LOG"], "a") as f:
        f.write(json.dumps(ev, separators=(",", ":")) + "\n")


def there():
    return UP is not None and now >= UP


def deliver():
    for name, t, fut in requests:
        if not fut._done and there() and name == "configure" and DELAY is not None and now >= t + DELAY:
            log(e="answer")
            fut.set_result(_response())


_response = None


def pass_time(dt=0.0):
    global now
    now += max(0.001, dt)
    if now > PATIENCE:
        log(e="giveup", up=there(), answers=DELAY is not None)
        sys.stdout.flush()
        os._exit(5)
    deliver()


def wait(cond, timeout):
    """Lets time pass until cond() or the timeout."""
    global now
    limit = None if timeout is None or timeout < 0 else now + timeout
    while not cond():
        step = 0.25 if now < 50 else 5.0
        if limit is not None:
            if now >= limit:
                return cond()
            step = min(step, limit - now)
        pass_time(step)
    return True
