"""C23: programs running at the same time."""
import concurrent.futures as cf
import os
import random
import shutil

from vlib import *
import cli
import gens
from checks_cli import MODES, NEIGHBOURS, chosen, is_text, named, views
from checks_doc import enc, some_file


def text_file(rng, near=None):
    while True:
        d = some_file(rng, near)
        if is_text(d):
            return d


class Scenario:
    """files, and runs that are to happen at the same time"""
    def __init__(self, rng, progs):
        self.rng, (self.pw_diff, self.pw_patch) = rng, progs
        self.root, self.docs = cli.scratch(), cli.scratch()
        self.files, self.jobs = {}, []
        self.ready = False

    def done(self):
        for d in (self.root, self.docs):
            shutil.rmtree(d, ignore_errors=True)

    def place(self, files):
        for e in sorted(os.listdir(self.root)):
            p = f"{self.root}/{e}"
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        for d in ("sub", "sub/deep"):
            os.mkdir(f"{self.root}/{d}")
            cli.own(f"{self.root}/{d}")
        for n, (data, mode) in files.items():
            with open(f"{self.root}/{n}", "wb") as f:
                f.write(data)
            cli.own(f"{self.root}/{n}")
            os.chmod(f"{self.root}/{n}", mode)

    def spelt(self, n):
        """a path for a name, and the directory it is for"""
        rng = self.rng
        if n.startswith("sub/") and rng.random() < 0.5:
            cwd, p = "sub", n[4:]
        else:
            cwd, p = ".", n
        k = rng.random()
        p = "./" + p if k < 0.1 else f"{self.root}/{n}" if k < 0.25 else "../sub/" + p if cwd == "sub" and k < 0.4 else p
        return cwd, p

    def doc(self, n, b, a):
        """a diff, made when file n was b and some other a"""
        other = "other.new"
        self.place({x: (d, 0o644) for x, d in ((n, b), (other, a)) if d is not None})
        cwd, p = self.spelt(n)
        cmd = [self.pw_diff, "-c", str(gens.context(self.rng)), p, f"{self.root}/{other}"]
        rc, doc, _ = cli.run(cmd, f"{self.root}/{cwd}")
        return (cwd, doc) if rc == 0 else (cwd, None)

    def patch(self, n, b, a, rev):
        cwd, doc = self.doc(n, b, a)
        if doc is None:
            return
        f = f"{self.docs}/d{len(self.jobs)}"
        with open(f, "wb") as x:
            x.write(doc)
        os.chmod(f, 0o644)
        self.jobs.append({"op": "patch", "rev": rev, "_doc": doc, "n": n, "_cwd": cwd,
                          "_cmd": [self.pw_patch, *(["-r"] if rev else []), f]})

    def change(self, n, now, word=None):
        """a patch for a file that is now now, or something near"""
        rng = self.rng
        make = text_file if word == "text" else some_file
        base = now if rng.random() < 0.65 else make(rng, now)
        new = make(rng, base)
        rev = rng.random() < 0.35
        self.patch(n, *((new, base) if rev else (base, new)), rev)

    def create(self, n):
        rev = self.rng.random() < 0.4
        d = some_file(self.rng)
        self.patch(n, *((d, None) if rev else (None, d)), rev)

    def delete(self, n):
        rev = self.rng.random() < 0.4
        d = some_file(self.rng)
        self.patch(n, *((None, d) if rev else (d, None)), rev)

    def diff(self, b, a):
        cwd, _ = self.spelt(b)
        path = lambda n: os.path.relpath(f"{self.root}/{n}", f"{self.root}/{cwd}")
        self.jobs.append({"op": "diff", "b": b, "a": a, "n": b, "_cwd": cwd, "_cmd": [self.pw_diff, path(b), path(a)]})

    def build(self):
        rng = self.rng
        k = rng.random()
        names = ["f", "g", "sub/f", "sub/g", "sub/deep/f", "a b"]
        if k < 0.26:                                      # one file patched by several
            n, text = rng.choice(names), rng.random() < 0.7
            now = text_file(rng) if text else some_file(rng)
            self.files[n] = now
            for _ in range(2 if rng.random() < 0.8 else 3):
                self.change(n, now, "text" if text and rng.random() < 0.9 else None)
        elif k < 0.6:                                     # different files
            ns = rng.sample(names, 2 if rng.random() < 0.75 else 3)
            if rng.random() < 0.4:                        # of the same directory
                ns = rng.choice([["f", "g"], ["sub/f", "sub/g"], ["f", "a b", "g"]])
            for n in ns:
                op = rng.choice(["change", "change", "change", "create", "delete"])
                if op != "create":
                    self.files[n] = some_file(rng)
                if op == "change":
                    self.change(n, self.files[n])
                else:
                    getattr(self, op)(n)
        elif k < 0.78:                                    # made or deleted by several
            n = rng.choice(names)
            ops = rng.choice([["create"] * 2, ["create"] * 2, ["create"] * 2, ["delete"] * 2, ["delete", "change"], ["create", "delete"],
                              ["create"] * 3, ["create", "create", "delete"], ["change", "delete", "change"], ["delete", "create", "delete"]])
            if "create" not in ops or rng.random() < 0.3 and "delete" in ops:
                self.files[n] = some_file(rng)
            for op in rng.sample(ops, len(ops)):
                if op == "change":
                    self.change(n, self.files[n])
                else:
                    getattr(self, op)(n)
        else:                                             # read while it is patched
            b, a = rng.sample(names, 2)
            self.files[b] = text_file(rng)
            self.files[a] = text_file(rng, self.files[b])
            for n in rng.choice([[b], [b], [a], [a], [a, b], [b, b]]):
                self.change(n, self.files[n], "text")
            self.diff(b, a)
        if len(self.jobs) < 2:
            return False
        if rng.random() < 0.3:
            rng.shuffle(self.jobs)
        if rng.random() < 0.15:                           # of several blocks of data
            more = b"".join(bytes(rng.choice(b"abcdef") for _ in range(rng.randint(100, 500))) + b"\n" for _ in range(30))
            for n, d in self.files.items():
                if d.endswith(b"\n") and all(j["op"] == "diff" or b'"Text' in j["_doc"][:12] for j in self.jobs):
                    self.files[n] = d + more
        self.files = {n: (d, rng.choice([m for m in MODES if m & 0o400])) for n, d in self.files.items()}
        if rng.random() < 0.3:
            for n in rng.sample(NEIGHBOURS, 3):
                self.files.setdefault(n, (b"neighbour\n", 0o644))
        return True

    # ------------------------------------------------------------ schedules
    def alone(self, job):
        """the operations of a run when nothing else happens"""
        self.place(self.files)
        with open(self.root + ".log", "w"):
            pass
        os.chmod(self.root + ".log", 0o666)
        cli.run(job["_cmd"], f"{self.root}/{job['_cwd']}", env=cli.fault_env(self.root, "log"))
        return cli.take_log(self.root)

    def schedule(self, order, stops):
        """the runs in that order, each going on until it stops"""
        self.place(self.files)
        outs, procs = {}, {}
        for j, job in enumerate(self.jobs):
            outs[j] = open(f"{self.docs}/out{j}", "w+b")
            procs[j] = cli.Process(job["_cmd"], f"{self.root}/{job['_cwd']}", self.root, stops[j], outs[j])
        res = []
        for j in order + [j for j in procs for _ in range(len(stops[j]) + 1)]:
            p = procs[j]
            if p.rc is not None:
                continue
            end = p.segment()
            g = {"j": j + 1, "end": end, "rc": p.rc if end else 0, "now": cli.snapshot(self.root, self.contents)}
            if end and self.jobs[j]["op"] == "diff":
                outs[j].seek(0)
                g["_doc"] = outs[j].read()
            res.append(g)
        for f in outs.values():
            f.close()
        return {"seg": res, "stops": stops, "order": order}

    def schedules(self, most):
        rng, js = self.rng, range(len(self.jobs))
        ops = [chosen(rng, self.alone(job), 99) for job in self.jobs]
        none = [[] for _ in js]
        res = [(rng.sample(js, len(js)), none)]
        if len(self.jobs) == 2:
            res = [([0, 1], none), ([1, 0], none)]
        else:
            res = [(list(o), none) for o in __import__("itertools").permutations(js)]
        for j in js:                                      # one stops, the others run
            for n in ops[j]:
                rest = [x for x in js if x != j]
                rng.shuffle(rest)
                res.append(([j, *rest, j], [[n] if x == j else [] for x in js]))
        more = []
        while len(more) < most // 2:
            stops = [sorted(rng.sample(ops[j], min(len(ops[j]), rng.randint(0, 3)))) for j in js]
            order = [j for j in js for _ in range(len(stops[j]) + 1)]
            rng.shuffle(order)
            more.append((order, stops))
        at = len(res) if len(res) <= most // 2 else most // 2
        head = res[:2 if len(js) == 2 else 6]
        tail = res[len(head):]
        res = head + (tail if len(tail) <= most // 2 else rng.sample(tail, most // 2)) + more
        return res[:most + 6]

    def go(self, most):
        self.contents = cli.Contents()
        self.place(self.files)
        was = cli.snapshot(self.root, self.contents)
        sch = [self.schedule(o, s) for o, s in self.schedules(most)]
        bad = None
        for x in sch:
            for g in x["seg"]:
                if g["end"] and (g["rc"] in (-999, 101) or g["rc"] < 0):
                    bad = f"run {g['j']} did not end properly: status {g['rc']} with {x['order']} {x['stops']}"
        return {"was": was, "sch": sch, "cs": self.contents.all, "bad": bad}


def scenario(seed, progs, most):
    rng = random.Random(seed)
    while True:
        sc = Scenario(rng, progs)
        try:
            if sc.build():
                return sc.jobs, sc.go(most)
        finally:
            sc.done()


def record(jobs, res, vs):
    docs = list(dict.fromkeys(g["_doc"] for x in res["sch"] for g in x["seg"] if "_doc" in g))
    r = {"u": cli.UNPRIVILEGED, "was": res["was"], "cs": res["cs"], "bad": res["bad"], "docs": [vs[d] for d in docs],
         "runs": [g for x in res["sch"] for g in x["seg"]], "jobs": [], "sch": []}
    for x in res["sch"]:
        for g in x["seg"]:
            if "_doc" in g:
                g["v"] = docs.index(g.pop("_doc")) + 1
        r["sch"].append(x["seg"])
    for j in jobs:
        j = {k: v for k, v in j.items() if k not in ("_cwd", "_cmd")}
        if "_doc" in j:
            j["v"] = vs[j.pop("_doc")]
        for k in ("n", "b", "a"):
            if k in j:
                j[k] = enc(j[k])
        r["jobs"].append(j)
    r = named(r, *(j[k] for j in r["jobs"] for k in ("n", "b", "a") if k in j))
    del r["runs"]
    return r


def c23(pid):
    c = Check(pid)
    rng = c.rng
    c.add_design(design("RunsMachine"), "two runs at the same time, one file operation at a time")
    cfg = open(f"{SPEC}/RunsMachine.cfg").read()
    c.add_design(design("RunsMachine", cfg.replace("Pairs", "Triples")), "three runs on one file")
    progs = cli.programs()
    cli.shim()
    seeds = [rng.random() for _ in range(scale(110, 1200))]
    with cf.ThreadPoolExecutor(CORES) as ex:
        done = list(ex.map(lambda s: scenario(s, progs, scale(24, 60)), seeds))
    vs = views([j["_doc"] for js, _ in done for j in js if "_doc" in j]
               + [g["_doc"] for _, r in done for x in r["sch"] for g in x["seg"] if "_doc" in g])
    recs = [record(js, r, vs) for js, r in done]
    cases = [{"scenario": k, "seed": s} for k, s in enumerate(seeds)]
    t = validate("TracePair", recs)
    c.add_traces("schedules of runs at the same time", "schedules", "TracePair", cases, recs, t)
    c.notes["schedules"] = sum(len(r["sch"]) for r in recs)
    c.notes["segments"] = sum(len(x) for r in recs for x in r["sch"])
    return c.finish()


def run(pid):
    return c23(pid)
