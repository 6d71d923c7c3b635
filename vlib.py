"""What the checks share: building, running executors and TLC, reporting."""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = f"{VERIF}/spec"
BUILD = f"{VERIF}/.build"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CORES = min(8, os.cpu_count() or 1)
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    pass


def scale(quick, thorough):
    return thorough if THOROUGH else quick


WORK = None


def work():
    global WORK
    if WORK is None:
        WORK = tempfile.mkdtemp(prefix="vchk-")
    return WORK


def cleanup():
    if WORK:
        shutil.rmtree(WORK, ignore_errors=True)


# ---------------------------------------------------------------- building

def cargo(args, target, env=None):
    e = dict(os.environ)
    e.update({
        "PATH": "/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:" + e.get("PATH", ""),
        "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
        "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
        "CARGO_INCREMENTAL": "0", "CARGO_TARGET_DIR": target,
    })
    e.update(env or {})
    # cargo goes by modification times: make it look again at what may have changed
    for d in glob.glob(f"{target}/debug/.fingerprint/pw_*") + glob.glob(f"{target}/debug/.fingerprint/harness-*"):
        shutil.rmtree(d, ignore_errors=True)
    p = subprocess.run(["cargo", *args], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("cargo failed\n" + p.stdout[-4000:])


def build(*bins):
    target = f"{BUILD}/harness"
    args = ["build", "--offline", "--manifest-path", f"{VERIF}/harness/Cargo.toml"]
    for b in bins:
        args += ["--bin", b]
    cargo(args, target)
    return {b: f"{target}/debug/{b}" for b in bins}


def build_cli():
    target = f"{BUILD}/cli"
    cargo(["build", "--offline", "--manifest-path", f"{REPO}/Cargo.toml", "-p", "pw_diff", "-p", "pw_patch"], target)
    return f"{target}/debug/pw_diff", f"{target}/debug/pw_patch"


# ---------------------------------------------------------------- executors

def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


HUNG = {}                      # executor -> cases that did not complete


def _exec_chunk(exe, cases, cwd, env=None):
    records, todo = [], list(cases)
    while todo:
        data = "\n".join(json.dumps(c) for c in todo) + "\n"
        try:
            p = subprocess.run([exe], input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               preexec_fn=_limits, cwd=cwd, timeout=600, env={**os.environ, **env} if env else None)
            out = p.stdout
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b""
        got = []
        for line in out.split(b"\n"):
            if line:
                try:
                    got.append(json.loads(line))
                except ValueError:
                    break
        got = got[: len(todo)]
        records += got
        if len(got) < len(todo):
            if not (got and got[-1].get("panic") == "did not complete"):
                bad = dict(todo[len(got)])
                bad["panic"] = "the process died"
                records.append(bad)
                todo = todo[len(got) + 1:]
            else:
                todo = todo[len(got):]
            hung = [r for r in records if r.get("panic") == "did not complete"]
            HUNG[exe] = HUNG.get(exe, 0) + (got[-1:] == hung[-1:] and bool(hung))
            if sum(1 for r in records if r.get("panic")) > 20 or len(hung) > 1 or HUNG[exe] > 8:
                for c in todo:      # enough is known; do not wait for the rest
                    records.append(None)
                break
        else:
            todo = []
    return records


def execute(exe, cases, chunks=None, env=None):
    """One record per case, in order (None: not run after many failures)."""
    if not cases:
        return []
    n = chunks or CORES
    size = max(1, min(400, (len(cases) + n - 1) // n))
    parts = [cases[i:i + size] for i in range(0, len(cases), size)]
    with cf.ThreadPoolExecutor(CORES) as ex:
        dirs = []
        for i in range(len(parts)):
            d = tempfile.mkdtemp(prefix="x", dir=work())
            dirs.append(d)
        res = list(ex.map(lambda z: _exec_chunk(exe, z[0], z[1], env), zip(parts, dirs)))
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
    return [r for part in res for r in part]


# ---------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    @property
    def ok(self):
        return self.rc == 0

    def tagged(self, tag):
        """Values of printed tuples <<"tag", ...>> as python lists."""
        res = []
        for m in re.finditer(r'^<<\s*"' + tag + r'",\s*(.*?)\s*>>$', self.out, re.M | re.S):
            res.append(re.sub(r"\s*\n\s*", " ", m.group(1)))
        return res


def tlc(module, cfg, env=None, workers=CORES, timeout=840, deadlock=False, extra=(), heap="6g"):
    d = tempfile.mkdtemp(prefix="tlc", dir=work())
    cfgp = f"{d}/{module}.cfg"
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", f"-Xmx{heap}", "-Xss200m", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", f"{d}/meta", "-noGenerateSpecTE", "-config", cfgp]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [f"{SPEC}/{module}.tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, env=e, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise ToolError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(f"{d}/meta", ignore_errors=True)
    return Tlc(p.returncode, p.stdout.decode("utf-8", "replace"), time.time() - t)


def design(module, cfg=None, **kw):
    """Model check a design module: it has to hold."""
    if cfg is None:
        cfg = open(f"{SPEC}/{module}.cfg").read()
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise ToolError(f"the specification {module} does not hold or does not run:\n" + r.out[-3000:])
    return r


TRACE_CFG = "SPECIFICATION Spec\n"


def generate(module, env):
    """Have TLC write the cases of a domain it enumerates."""
    out = f"{work()}/{module}-{len(os.listdir(work()))}.ndjson"
    r = tlc(module, "", env={**env, "OUT": out}, workers=1)
    if not r.ok or not os.path.exists(out):
        raise ToolError(f"generating with {module} failed\n" + r.out[-2000:])
    with open(out) as f:
        res = [json.loads(l) for l in f if l.strip()]
    os.remove(out)
    return res


def _write(records):
    p = tempfile.mktemp(prefix="recs", suffix=".ndjson", dir=work())
    with open(p, "w") as f:
        for r in records:
            f.write(json.dumps(r) + "\n")
    return p


def _int(s):
    return int(re.match(r"-?\d+", s).group(0))


class Traces:
    """The outcome of validating records against a trace module."""
    def __init__(self):
        self.accepted, self.states, self.transitions = 0, 0, 0
        self.rejected = {}          # index -> reason
        self.steps = {}


def validate(module, records, env=None, timeout=400, batch=4000):
    """Which records does the trace module accept? Records that panicked are rejected."""
    t = Traces()
    live = []
    for i, r in enumerate(records):
        if r is None:
            continue
        if r.get("panic"):
            t.rejected[i] = "the code under test failed: " + str(r["panic"])
        else:
            live.append(i)
    for at in range(0, len(live), batch):
        _validate(t, module, records, live[at:at + batch], env or {}, timeout)
    return t


def _validate(t, module, records, idx, env, timeout):
    while idx:
        path = _write([records[i] for i in idx])
        r = tlc(module, TRACE_CFG, env={**env, "RECS": path}, timeout=timeout)
        os.remove(path)
        if r.ok:
            break
        # an evaluation error on one record is a rejection of that record
        m = re.search(r"^/\\ i = (\d+)$", r.out, re.M)
        fatal = re.search(r"OutOfMemory|StackOverflow|Parsing or semantic|TLCRuntimeException.*IO", r.out)
        if not m or fatal or "Error:" not in r.out or len(t.rejected) > 40:
            raise ToolError(f"TLC failed on {module} (rc {r.rc})\n" + r.out[:1500] + "\n...\n" + r.out[-2500:])
        bad = idx[int(m.group(1)) - 1]
        err = re.search(r"Error: (.*(?:\n.*){0,3})", r.out).group(1)
        t.rejected[bad] = "the specification is not defined on this record: " + err
        idx = [i for i in idx if i != bad]
    else:
        return
    acc = {_int(x) for x in r.tagged("ACC")}
    rej = {}
    for x in r.tagged("REJ"):
        rej.setdefault(_int(x), x)
    t.states += r.states
    t.transitions += r.transitions
    for x in r.tagged("ACC"):       # the actions taken, one letter each
        m = re.search(r'"(\w*)"$', x)
        for ch in m.group(1) if m else "":
            t.steps[ch] = t.steps.get(ch, 0) + 1
    for n, i in enumerate(idx):
        if n + 1 in rej:
            t.rejected[i] = rej[n + 1]
        elif n + 1 in acc:
            t.accepted += 1
        else:
            t.rejected[i] = "no behaviour of the specification matches this record"


def explain(module, record, env=None):
    """The longest part of one rejected record that the specification matches."""
    try:
        path = _write([record])
        r = tlc(module, TRACE_CFG, env={**(env or {}), "RECS": path}, deadlock=True, workers=1, timeout=120)
        out = r.out[r.out.find("Error"):] if "Error" in r.out else ""
        return out[-6000:]
    except ToolError as e:
        return str(e)[:500]


# ---------------------------------------------------------------- reporting

class Check:
    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.rng = random.Random(f"{pid}-{SEED}")
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.violations = [], {}, []

    def add_design(self, r, what):
        self.states += r.states
        self.transitions += r.transitions
        self.notes.setdefault("design", []).append(
            {"what": what, "states": r.states, "transitions": r.transitions, "s": round(r.wall, 1)})

    def add_traces(self, what, executor, module, cases, records, t, env=None):
        self.states += t.states
        self.transitions += t.transitions
        self.traces += t.accepted
        self.notes.setdefault("traces", []).append(
            {"what": what, "records": len(records), "accepted": t.accepted, "rejected": len(t.rejected),
             "trace_states": t.states, **({"actions": dict(sorted(t.steps.items()))} if t.steps else {})})
        for c in cases[:1]:
            s = json.dumps(c)
            self.samples.append({"what": what, "case": json.loads(s) if len(s) < 3000 else s[:3000]})
        for i, why in list(t.rejected.items())[:5]:
            self.violation(what, why, {"executor": executor, "module": module, "case": cases[i], "record": records[i],
                                       "env": env or {}}, count=len(self.violations) < 3)
        if len(t.rejected) > 5:
            self.notes["more_rejected"] = len(t.rejected) - 5

    def violation(self, what, why, data, count=True):
        d = f"{VERIF}/replays"
        os.makedirs(d, exist_ok=True)
        path = f"{d}/{self.pid}-{len(self.violations)}.json"
        data = dict(data, property=self.pid, what=what, why=why, seed=SEED, tier=TIER)
        if count and data.get("module") and isinstance(data.get("record"), dict) and not data["record"].get("panic"):
            data["tlc"] = explain(data["module"], data["record"], data.get("env"))
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append(path)
        print(f"{what}: {why}"[:600])
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)

    def finish(self, level="model_checking", assumptions=(), coverage=None):
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:12] or ["none"]}
        cov.update(self.notes)
        cov.update(coverage or {})
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid}: {self.traces} traces accepted, {self.states} states, "
              f"{len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0


def replay(pid, path, rerun):
    """Run one recorded violation again against the code as it is now."""
    with open(path) as f:
        d = json.load(f)
    exe = d.get("executor", "")
    if not exe.startswith("exec_"):      # a whole history: it takes the run that made it
        return rerun()
    rec = execute(build(exe)[exe], [d["case"]])
    t = validate(d["module"], rec, d.get("env"))
    if not t.rejected:
        print(f"{pid}: {path} is accepted now")
        return 0
    print(t.rejected[0][:600])
    if isinstance(rec[0], dict) and not rec[0].get("panic"):
        print(explain(d["module"], rec[0], d.get("env")))
    print(f"VIOLATION property={pid} replay={path}")
    return 1
