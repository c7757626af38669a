import rclpy


class SingleThreadedExecutor:
    def __init__(self, *a, **kw):
        pass

    def add_node(self, n):
        return True

    def remove_node(self, n):
        pass

    def spin_until_future_complete(self, future, timeout_sec=None):
        rclpy.spin_until_future_complete(None, future, timeout_sec=timeout_sec)

    def spin_once(self, timeout_sec=None):
        rclpy.spin_once(None, timeout_sec=timeout_sec)

    def spin(self):
        rclpy.spin(None)

    def shutdown(self, *a, **kw):
        return True


MultiThreadedExecutor = SingleThreadedExecutor


class ExternalShutdownException(Exception):
    pass
