""" Processes that perform operations of the code under test on request """
import os
import pickle
import select
import signal
import struct
import time
import traceback

from core import MachineryError, Violation


class ServerError(Exception):
    """ An operation failed in the other process """
    def __init__(self, text, trace):
        super().__init__(text)
        self.trace = trace


def _read(fd, count):
    data = b""
    while len(data) < count:
        chunk = os.read(fd, count - len(data))
        if not chunk:
            raise EOFError
        data += chunk
    return data


def _send(fd, value):
    data = pickle.dumps(value)
    data = memoryview(struct.pack("!Q", len(data)) + data)
    while data:
        data = data[os.write(fd, data):]


def _receive(fd):
    return pickle.loads(_read(fd, struct.unpack("!Q", _read(fd, 8))[0]))


class Spare:
    """ Pipes for a process that is forked by a server that is started later """
    def __init__(self):
        self.down_r, self.down = os.pipe()
        self.up, self.up_w = os.pipe()


class Server:
    """
    A forked process with an object that is created by `create` there. Calls
    may be started and finished separately.
    """
    forked = False

    def __init__(self, create):
        down_r, self.down = os.pipe()
        self.up, up_w = os.pipe()
        self.pid = os.fork()
        self.alive = True
        if self.pid == 0:
            try:
                os.close(self.down)
                os.close(self.up)
                self._serve(create, down_r, up_w)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(down_r)
        os.close(up_w)

    @staticmethod
    def _serve(create, down, up):
        obj = create()
        while True:
            name, args, environment = _receive(down)
            for key, value in environment.items():
                if value is None:
                    os.environ.pop(key, None)
                else:
                    os.environ[key] = value
            try:
                if name == "fork":
                    pid = os.fork()
                    if pid == 0:
                        down, up = args
                        continue
                    answer = ("ok", pid)
                else:
                    answer = ("ok", getattr(obj, name)(*args))
            except Violation as e:
                answer = ("violation", e.message, e.data)
            except MachineryError as e:
                answer = ("machinery", str(e))
            except Exception as e:
                answer = ("error", repr(e), traceback.format_exc())
            _send(up, answer)

    def fork(self, spare):
        """ Let the process fork, return a server for the new process """
        result = Server.__new__(Server)
        result.down, result.up, result.alive = spare.down, spare.up, True
        result.pid = self.call("fork", spare.down_r, spare.up_w)
        result.forked = True
        return result

    def start(self, name, *args, environment=None):
        _send(self.down, (name, args, environment or {}))

    def ready(self, timeout=0):
        return bool(select.select([self.up], [], [], timeout)[0])

    def result(self, timeout=60):
        if not self.ready(timeout):
            raise Violation(f"no answer within {timeout} s")
        try:
            answer = _receive(self.up)
        except EOFError:
            self.alive = False
            raise ServerError("process ended", "")
        if answer[0] == "ok":
            return answer[1]
        if answer[0] == "violation":
            raise Violation(answer[1], **answer[2])
        if answer[0] == "machinery":
            raise MachineryError(answer[1])
        raise ServerError(answer[1], answer[2])

    def call(self, name, *args, environment=None, timeout=60):
        self.start(name, *args, environment=environment)
        return self.result(timeout)

    def kill(self):
        if self.pid:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            if not self.forked:
                os.waitpid(self.pid, 0)
            os.close(self.down)
            os.close(self.up)
            self.pid, self.alive = 0, False

    def wait_dead(self, timeout=60):
        """ Wait until the process was killed (by somebody else) """
        end = time.time() + timeout
        while time.time() < end:
            pid, _ = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                os.close(self.down)
                os.close(self.up)
                self.pid, self.alive = 0, False
                return True
            time.sleep(0.002)
        return False
