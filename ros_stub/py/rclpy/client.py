import ndt_world
from .task import Future


class Client:
    seen = None

    def __init__(self, srv_type, name):
        self.srv_type, self.srv_name = srv_type, name.lstrip("/")

    @property
    def service_name(self):
        return "/" + self.srv_name

    def service_is_ready(self):
        ndt_world.pass_time()
        return self.srv_name == "configure" and ndt_world.there()

    def wait_for_service(self, timeout_sec=None):
        r = ndt_world.wait(lambda: self.srv_name == "configure" and ndt_world.there(), timeout_sec)
        if bool(r) != self.seen:
            self.seen = bool(r)
            ndt_world.log(e="look", there=self.seen)
        return bool(r)

    def call_async(self, request):
        import ndt_2d.srv
        f = Future()
        action = request.action
        ndt_world.log(e="ask", service=self.srv_name, type=self.srv_type is ndt_2d.srv.Configure,
                      bits=sorted(k for k in range(32) if isinstance(action, int) and action >> k & 1) if isinstance(action, int) else [-1],
                      file=[request.filename] if isinstance(request.filename, str) else [], there=ndt_world.there())
        ndt_world.requests.append((self.srv_name, ndt_world.now, f))
        return f

    def call(self, request, timeout_sec=None):
        # blocks: nobody spins the node, so nothing ever comes back
        self.call_async(request)
        while True:
            ndt_world.now += 100.0
            if ndt_world.now > ndt_world.PATIENCE:
                ndt_world.pass_time(1.0)

    def destroy(self):
        pass
