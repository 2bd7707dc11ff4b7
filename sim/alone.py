"""Run a function in a forked child and return its (picklable) result."""
import os
import pickle
import struct
import traceback


def alone(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException as e:      # noqa
                data = pickle.dumps(("error", "".join(traceback.format_exception(e))))
            data = struct.pack("!Q", len(data)) + data
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) < 8 + struct.unpack("!Q", buf[:8])[0]:
        raise RuntimeError("child died")
    tag, val = pickle.loads(buf[8:])
    if tag == "error":
        raise RuntimeError("in child: " + val)
    return val
