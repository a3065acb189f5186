"""Runs a script as __main__ under watch: run_tool.py SCRIPT ARGS...

VERIF_FREE     bytes that shutil.disk_usage reports as free
VERIF_CHUNK    value put in place of a module constant CHUNK_SIZE
VERIF_WATCH    directory whose file operations are counted (audit events, and copies half done)
VERIF_COUNT    file that receives one line for each counted operation
VERIF_CRASH_AT the operation before which the whole process group is ended by VERIF_SIGNAL
"""
import ast
import collections
import faulthandler
import os
import shutil
import signal
import sys

script = sys.argv[1]
faulthandler.register(signal.SIGUSR1, all_threads=True)   # where a run that does not end stands
sys.argv = sys.argv[1:]
E = os.environ
usage = collections.namedtuple("usage", "total used free")
if "VERIF_FREE" in E:
    shutil.disk_usage = lambda path: usage(1 << 50, (1 << 50) - int(E["VERIF_FREE"]), int(E["VERIF_FREE"]))

watch = E.get("VERIF_WATCH")
at = int(E.get("VERIF_CRASH_AT", "-1"))
sig = int(E.get("VERIF_SIGNAL", str(int(signal.SIGKILL))))
EVENTS = {"open", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink"}


def happened(what):
    """Counts over all processes: a line in an appended file each."""
    fd = os.open(E["VERIF_COUNT"], os.O_WRONLY | os.O_APPEND)
    os.write(fd, (what + "\n").encode())
    size = open(E["VERIF_COUNT"], "rb").read().count(b"\n")
    os.close(fd)
    if size == at:
        os.killpg(0, sig)


def hook(event, args):
    if event in EVENTS and args and isinstance(args[0], (str, bytes)):
        p = os.fsdecode(args[0])
        if os.path.abspath(p).startswith(watch + os.sep):
            mode = args[1] if event == "open" and isinstance(args[1], str) else ""
            if event == "open" and not mode:
                return
            happened("%s%s %s" % (event, ":" + mode if mode else "", os.path.splitext(p)[1]))


if watch:
    copy = shutil.copyfileobj

    def copyfileobj(src, dst, *a, **k):
        dst.write(src.read(64))
        dst.flush()
        happened("half-copied")
        copy(src, dst, *a, **k)

    shutil.copyfileobj = copyfileobj
    sys.addaudithook(hook)

tree = ast.parse(open(script).read(), script)
for node in tree.body:
    if isinstance(node, ast.Assign) and any(getattr(t, "id", "") == "CHUNK_SIZE" for t in node.targets) and "VERIF_CHUNK" in E:
        node.value = ast.copy_location(ast.Constant(int(E["VERIF_CHUNK"])), node.value)
del node
exec(compile(tree, script, "exec"))
