"""Calls made in processes that have called nothing before."""
import os
import pickle
import struct
import sys
import threading


def send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def read(fd, num):
    out = b""
    while len(out) < num:
        part = os.read(fd, min(1 << 20, num - len(out)))
        if not part:
            raise EOFError
        out += part
    return out


def receive(fd):
    return pickle.loads(read(fd, struct.unpack("<q", read(fd, 8))[0]))


class Zygote:
    """A process, made before anything is called, that makes a process for each call of *fun(\\*args)*."""

    def __init__(self, fun):
        self.lock = threading.Lock()
        ask_r, self.ask = os.pipe()
        self.answer, answer_w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        if os.fork() == 0:
            os.close(self.ask)
            os.close(self.answer)
            try:
                while True:
                    args = receive(ask_r)
                    pid = os.fork()
                    if pid == 0:
                        try:
                            out = "value", fun(*args)
                        except BaseException as err:
                            out = "error", "%s: %s" % (type(err).__name__, err)
                        send(answer_w, out)
                        os._exit(0)
                    _, status = os.waitpid(pid, 0)
                    if status:
                        send(answer_w, ("error", "died with status %d" % status))
            except BaseException:
                pass
            os._exit(0)
        os.close(ask_r)
        os.close(answer_w)

    def __call__(self, *args):
        with self.lock:
            send(self.ask, args)
            return receive(self.answer)

    def close(self):
        os.close(self.ask)
