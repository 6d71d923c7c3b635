"""Running pw_diff and pw_patch in scratch directories, as a user who can reach nothing else."""
import os
import re
import shutil
import signal
import stat
import subprocess
import tempfile
import time

import vlib
from checks_doc import enc

UID = GID = 65534
UNPRIVILEGED = os.geteuid() == 0


def programs():
    """copies of the programs that any user can run"""
    d, p = vlib.build_cli()
    os.chmod(vlib.work(), 0o711)
    res = []
    for x in (d, p):
        to = f"{vlib.work()}/{os.path.basename(x)}"
        shutil.copy(x, to)
        os.chmod(to, 0o755)
        res.append(to)
    return res


def scratch():
    d = tempfile.mkdtemp(prefix="s", dir=vlib.work())
    os.chmod(d, 0o755)
    if UNPRIVILEGED:
        os.chown(d, UID, GID)
    return d


def own(path):
    if UNPRIVILEGED:
        os.chown(path, UID, GID)


GAVE_UP = []


def run(cmd, cwd, umask=0o022, env=None, stdout=subprocess.PIPE):
    """exit status (negative: signal; None: no end) and output"""
    e = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", **(env or {})}
    kw = dict(user=UID, group=GID, extra_groups=[]) if UNPRIVILEGED else {}
    began = time.time()
    timeout = 60 if len(GAVE_UP) < 4 else 10
    try:
        p = subprocess.run(cmd, cwd=cwd, umask=umask, env=e, stdin=subprocess.DEVNULL, stdout=stdout,
                           stderr=subprocess.PIPE, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        GAVE_UP.append(cmd)
        return None, b"", b""
    if time.time() - began > 1 and "HARNESS_SLOW" in os.environ:
        with open(os.environ["HARNESS_SLOW"], "a") as f:
            f.write("%s %d %s %s\n" % (cmd[0].split("/")[-1], 1000 * (time.time() - began), cmd[1:], [os.path.getsize(f"{cwd}/{x}") for x in cmd[1:] if os.path.isfile(f"{cwd}/{x}")]))
    return p.returncode, p.stdout or b"", p.stderr


class Process:
    """a program that can be made to stop at some of its operations"""
    def __init__(self, cmd, cwd, root, stops, out):
        env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "LD_PRELOAD": shim(), "FAULT_ROOT": root, "FAULT_MODE": "stop",
               "FAULT_AT": ",".join(map(str, stops))}
        kw = dict(user=UID, group=GID, extra_groups=[]) if UNPRIVILEGED else {}
        self.out, self.rc, self.pid = out, None, None
        self.go = lambda: subprocess.Popen(cmd, cwd=cwd, umask=0o022, env=env, stdin=subprocess.DEVNULL, stdout=out,
                                           stderr=subprocess.DEVNULL, **kw)
        self.p = None

    def segment(self):
        """until it stops or ends; True if it has ended"""
        if self.p is None:
            self.p = self.go()
        else:
            os.kill(self.p.pid, signal.SIGCONT)
        until, nap = time.time() + 20, 0.0005
        while True:
            pid, st = os.waitpid(self.p.pid, os.WUNTRACED | os.WNOHANG)
            if pid:
                break
            if time.time() > until:
                self.p.kill()
                os.waitpid(self.p.pid, 0)
                self.p.returncode = self.rc = -999
                return True
            time.sleep(nap)
            nap = min(nap * 1.5, 0.01)
        if os.WIFSTOPPED(st):
            return False
        self.p.returncode = self.rc = os.waitstatus_to_exitcode(st)
        return True


def read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except PermissionError:
        m = stat.S_IMODE(os.lstat(path).st_mode)
        os.chmod(path, 0o600)
        with open(path, "rb") as f:
            d = f.read()
        os.chmod(path, m)
        return d


class Contents:
    """the contents that occur, each once; those of documents are not spelt out"""
    def __init__(self):
        self.index, self.all = {}, []

    def of(self, data, short=False):
        if (data, short) not in self.index:
            c = {"x": False, "l": [], "d": []}
            if not short:
                c["d"] = list(data)
                try:
                    c["l"] = lines_of(data.decode("utf-8"))
                    c["x"] = True
                except UnicodeDecodeError:
                    pass
            self.all.append(c)
            self.index[data, short] = len(self.all)
        return self.index[data, short]


def lines_of(text):
    return [enc(l) for l in re.findall(r"[^\n]*\n|[^\n]+", text)]


def snapshot(root, contents, docs="docs"):
    """every entry below root: name, type, mode, content"""
    res = []

    def entry(path, name):
        st = os.lstat(path)
        m = stat.S_IMODE(st.st_mode)
        if stat.S_ISDIR(st.st_mode):
            res.append({"n": enc(name), "t": "dir", "m": m, "c": 0})
            for x in sorted(os.listdir(path)):
                entry(f"{path}/{x}", x if name == "." else f"{name}/{x}")
        elif stat.S_ISREG(st.st_mode):
            res.append({"n": enc(name), "t": "file", "m": m,
                        "c": contents.of(read(path), short=name.startswith(docs + "/"))})
        elif stat.S_ISLNK(st.st_mode):
            to = name_in(root, os.path.dirname(path), os.readlink(path))
            res.append({"n": enc(name), "t": "link", "m": 0, "c": 0, "to": enc(to), "td": enc(os.path.dirname(to) or ".")})
        else:
            res.append({"n": enc(name), "t": "other", "m": m, "c": 0})

    entry(root, ".")
    return res


def unenc(s):
    return re.sub(r"\\([0-9a-f]+);", lambda m: chr(int(m.group(1), 16)), s)


def name_in(root, cwd, path):
    return os.path.relpath(os.path.normpath(os.path.join(cwd, path)), root)


# ---------------------------------------------------------------- faults

def shim():
    so = f"{vlib.work()}/fault.so"
    if not os.path.exists(so):
        p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, f"{vlib.VERIF}/shim/fault.c", "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise vlib.ToolError("cannot build the fault injector\n" + p.stdout)
        os.chmod(so, 0o755)
    return so


def fault_env(root, mode, at=0, errno=5):
    """the log is next to the directory, not in it"""
    return {"LD_PRELOAD": shim(), "FAULT_ROOT": root, "FAULT_MODE": mode, "FAULT_AT": str(at), "FAULT_ERRNO": str(errno),
            "FAULT_LOG": root + ".log"}


def take_log(root):
    try:
        with open(root + ".log") as f:
            log = f.read()
        os.remove(root + ".log")
    except FileNotFoundError:
        return []
    lines, n, res = log.split("\n"), 0, []
    while n < len(lines):
        w = lines[n].split(" ")
        if w[0] in ("rename", "link", "symlink"):
            res.append([*w, lines[n + 1], lines[n + 2]])
            n += 2
        elif w[0] in ("open", "unlink", "rmdir", "chmod"):
            k = {"open": 3, "unlink": 2, "rmdir": 2, "chmod": 3}[w[0]]
            res.append(lines[n].split(" ", k))
        elif w[0]:
            res.append(w)
        n += 1
    return res
