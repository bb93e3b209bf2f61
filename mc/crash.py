"""Crash points: runs a program in a forked process that dies at a chosen
file-system operation, after a chosen number of bytes if it is a write.

The check process itself runs with the fault injector (crash.c) preloaded and
disarmed; core.main arranges for that (module attribute CRASH = True)."""
import ctypes
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback

from .core import InfraError

HERE = os.path.dirname(os.path.abspath(__file__))
lib = None


def reexec(argv):
    """Run the check again with the injector preloaded."""
    d = tempfile.mkdtemp(prefix="scaks-mc-shim-")
    try:
        so = os.path.join(d, "crash.so")
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", so, os.path.join(HERE, "crash.c"), "-ldl"])
        if r.returncode:
            print("ERROR: the fault injector does not compile")
            return 2
        return subprocess.call([sys.executable, "-m", "mc.core"] + list(argv), env=dict(os.environ, MC_CRASH=so, LD_PRELOAD=so))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load():
    global lib
    lib = ctypes.CDLL(os.environ["MC_CRASH"])
    lib.crash_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long]
    lib.crash_record.restype = ctypes.c_char_p


def send(fd, msg):
    data = pickle.dumps(msg)
    data = len(data).to_bytes(8, "little") + data
    while data:
        data = data[os.write(fd, data):]


def run(cwd, program, at=-1, k=0, arm=True):
    """program(tell) in a process of its own in cwd.
    Returns (how it ended: "end"|"crash"|"error", messages, operations)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.chdir(cwd)
            if arm:
                lib.crash_arm(os.fsencode(cwd), at, k)
            try:
                program(lambda m: send(w, m))
                code = 0
            except BaseException as e:
                send(w, ("error", "%s: %s" % (type(e).__name__, e), traceback.format_exc()))
            if arm:
                ops = lib.crash_record().decode("utf8", "replace")
                lib.crash_disarm()
                send(w, ("ops", ops))
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        st = os.waitpid(pid, 0)[1]
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    msgs, i = [], 0
    while i + 8 <= len(data):
        n = int.from_bytes(data[i:i + 8], "little")
        if i + 8 + n > len(data):
            break
        msgs.append(pickle.loads(data[i + 8:i + 8 + n]))
        i += 8 + n
    code = os.waitstatus_to_exitcode(st)
    ops = [x for x in msgs if x[0] == "ops"]
    msgs = [x for x in msgs if x[0] != "ops"]
    ops = [tuple(l.rsplit("\t", 1)[0].split("\t", 1)) + (int(l.rsplit("\t", 1)[1]),) for l in ops[0][1].splitlines()] if ops else []
    if code == 0:
        return "end", msgs, ops
    if code == 77:
        return "crash", msgs, ops
    if msgs and msgs[-1][0] == "error":
        return "error", msgs, ops
    raise InfraError("a forked run ended with %r" % (code,))


def snapshot(d, skip=lambda rel: False):
    """The files below d: {relative path: bytes}; directories end in '/'."""
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            rel = os.path.relpath(os.path.join(root, x), d) + "/"
            if not skip(rel):
                out[rel] = b""
        for x in files:
            rel = os.path.relpath(os.path.join(root, x), d)
            if not skip(rel):
                with open(os.path.join(root, x), "rb") as f:
                    out[rel] = f.read()
    return out


def restore(d, snap):
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.mkdir(d)
    for rel in sorted(snap):
        p = os.path.join(d, rel)
        if rel.endswith("/"):
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(snap[rel])
