"""A pristine process to compare with: forked before the workload starts, it forks once per request, so that every
request runs with the state of a process that has only imported the code under test."""
import json, os, struct, sys, traceback


def _send(fd, obj):
    b = json.dumps(obj, ensure_ascii=True).encode()
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def read(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out
    n, = struct.unpack("<I", read(4))
    return json.loads(read(n))


class Zygote:
    def __init__(self, fn):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                while True:
                    req = _recv(r1)
                    pid = os.fork()
                    if pid == 0:
                        try:
                            _send(w2, ["ok", fn(req)])
                        except BaseException:
                            _send(w2, ["error", traceback.format_exc()])
                        os._exit(0)
                    os.waitpid(pid, 0)
            except BaseException:
                pass
            os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def __call__(self, req):
        _send(self.w, req)
        return _recv(self.r)

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)
