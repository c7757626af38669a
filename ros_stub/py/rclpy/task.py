class Future:
    def __init__(self, *a, **kw):
        self._done, self._result, self._cb = False, None, []

    def done(self):
        return self._done

    def cancelled(self):
        return False

    def cancel(self):
        self._done = True

    def result(self):
        return self._result

    def exception(self):
        return None

    def add_done_callback(self, f):
        if self._done:
            f(self)
        else:
            self._cb.append(f)

    def set_result(self, r):
        self._done, self._result = True, r
        for f in self._cb:
            f(self)
