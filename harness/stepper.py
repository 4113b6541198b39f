"""
Let a process perform an operation one storage command at a time: before each
command the process is stopped, then the command is run, fails, or the process
is killed before or after it.
"""
import os
import time

from server import Server, ServerError


class Stepper:
    def __init__(self, directory, create):
        self.directory, self.create = directory, create
        self.directory.mkdir()
        self.server = Server(create)
        self.number = 0

    def restart(self):
        self.server.kill()
        self.server = Server(self.create)

    def call(self, name, *args):
        """ without stops """
        return self.server.call(
            name, *args, environment=dict(VS_DIR=None, VS_AT=None, VS_MODE=None, VS_TIMES=None))

    def start(self, name, *args):
        for f in self.directory.iterdir():
            f.unlink()
        self.number = 0
        self.server.start(name, *args, environment=dict(
            VS_DIR=str(self.directory), VS_AT="0", VS_MODE="wait", VS_TIMES="-1",
            VS_PID=str(self.server.pid)))

    def wait(self, timeout=60):
        """ until the next stop ("command"), or the end ("end") """
        end = time.monotonic() + timeout
        path = self.directory / f"at.{self.number}"
        delay = 0.0003
        while time.monotonic() < end:
            if path.exists():
                return "command"
            if self.server.ready(delay):
                return "end"
            delay = min(delay * 1.3, 0.005)
        return "timeout"

    def go(self, how=""):
        """ how: "", fail, late, kill, klate """
        path = self.directory / f"go.{self.number}"
        temp = self.directory / "go"
        temp.write_text(how)
        temp.rename(path)
        self.number += 1
        if how in ("kill", "klate"):
            self.server.wait_dead()
            # the command may be running still
            done = self.directory / f"done.{self.number - 1}"
            end = time.monotonic() + 20
            while not done.exists() and time.monotonic() < end:
                time.sleep(0.0005)
            self.server = Server(self.create)

    def log(self):
        try:
            return (self.directory / "log").read_text().splitlines()
        except FileNotFoundError:
            return []

    def close(self):
        try:
            (self.directory / f"go.{self.number}").write_text("fail")
        except OSError:
            pass
        self.server.kill()
