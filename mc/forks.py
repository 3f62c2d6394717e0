"""Running something in a forked process, so that its effects on the library's state
stay there, and getting its result back."""
import os
import pickle
import select
import signal
import time
import traceback

from .common import Bad


def in_child(fn, timeout=60.0, what="the forked process"):
    """The value of fn() computed in a child process.  Bad raised there is raised here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.setitimer(signal.ITIMER_PROF, 0)
            try:
                out = ("ok", fn())
            except Bad as e:
                out = ("bad", str(e))
            except BaseException as e:
                out = ("bad", "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    chunks, end = [], time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                raise Bad("%s did not come to an end within %d s" % (what, timeout))
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        for kill in (os.killpg, os.kill):
            try:
                kill(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
    if not chunks:
        raise Bad("%s ended without a result" % what)
    kind, value = pickle.loads(b"".join(chunks))
    if kind == "bad":
        raise Bad(value)
    return value
