from vlib import *
import cli
import gens
from checks_doc import enc, some_file
from checks_any import distort

NAMES = ["f", "g", "h", "sub/f", "sub/deep/k", "a b", "\u00e9.txt", "no/where"]
NEIGHBOURS = [d + x for d in ("", "sub/") for x in ("f.orig", "f~", "f.rej", "f.tmp", ".f.tmp", "f.bak", "f.new", "tmp", ".tmp", "temp",
                                                       "f.swp", "g.orig", "g.tmp", "pw_patch.tmp")]
MODES = [0o644, 0o600, 0o755, 0o640, 0o444, 0o400, 0o777, 0o4750, 0o664]


class History:
    """one history: steps is what is recorded, docs the documents made"""
    def __init__(self, rng, progs):
        self.rng, (self.pw_diff, self.pw_patch) = rng, progs
        self.root = cli.scratch()
        self.contents = cli.Contents()
        self.steps, self.docs, self.made = [], [], []
        for d in ("sub", "sub/deep", "docs"):
            os.mkdir(f"{self.root}/{d}")
            if d != "docs":
                cli.own(f"{self.root}/{d}")
        for n in rng.sample(NAMES[:-1], rng.randint(1, 3)):
            self.put(n, some_file(rng))
        if rng.random() < 0.3:                    # what other programs leave next to files
            for n in rng.sample(NEIGHBOURS, rng.randint(1, 6)):
                self.put(n, some_file(rng))
        self.step({"op": "edit"})

    def p(self, n):
        return f"{self.root}/{n}"

    def step(self, s):
        self.steps.append({**s, "fs": cli.snapshot(self.root, self.contents)})

    def clear(self, n):
        if os.path.isdir(self.p(n)) and not os.path.islink(self.p(n)):
            shutil.rmtree(self.p(n))
        elif os.path.lexists(self.p(n)):
            os.remove(self.p(n))

    def put(self, n, data, mode=None):
        if not os.path.isdir(os.path.dirname(self.p(n))):
            return
        self.clear(n)
        data = gens.tame(data)
        with open(self.p(n), "wb") as f:
            f.write(data)
        cli.own(self.p(n))
        os.chmod(self.p(n), self.rng.choice(MODES) if mode is None else mode)

    def files(self):
        return [n for n in NAMES if os.path.isfile(self.p(n))]

    def some(self):
        fs = self.files()
        return cli.read(self.p(self.rng.choice(fs))) if fs else None

    def name(self):
        fs = self.files()
        return self.rng.choice(fs) if fs and self.rng.random() < 0.7 else self.rng.choice(NAMES)

    # ---------------------------------------------------------- operations
    def edit(self):
        rng, k = self.rng, self.rng.random()
        n = self.name()
        if k < 0.07:
            self.link(n, self.name())
        elif k < 0.1:
            self.directory()
        elif k < 0.62:
            data = some_file(rng, self.some()) if rng.random() < 0.93 else "".join(gens.whole(gens.pieces(rng, gens.size(rng, 150), 60)[0])).encode()
            keep = os.path.isfile(self.p(n)) and rng.random() < 0.5
            self.put(n, data, stat_mode(self.p(n)) if keep else None)
        elif k < 0.72:
            self.clear(n)
        elif k < 0.78:
            if os.path.isdir(os.path.dirname(self.p(n))):
                self.clear(n)
                os.mkdir(self.p(n))
                cli.own(self.p(n))
        elif k < 0.9:
            if os.path.isfile(self.p(n)):
                os.chmod(self.p(n), rng.choice(MODES + [0, 0o200]))
        else:
            d = rng.choice([".", "sub", "sub/deep"])
            if os.path.isdir(self.p(d)):
                os.chmod(self.p(d), rng.choice([0o555, 0o555, 0o755, 0o700]))
        self.step({"op": "edit"})

    def link(self, n, to):
        if n != to and os.path.isdir(os.path.dirname(self.p(n))):
            self.clear(n)
            os.symlink(os.path.relpath(self.p(to), os.path.dirname(self.p(n))), self.p(n))
            if cli.UNPRIVILEGED:
                os.chown(self.p(n), cli.UID, cli.GID, follow_symlinks=False)

    def directory(self):
        """a directory goes, something else may take its place; or those that have gone are back"""
        rng, d = self.rng, self.rng.choice(["sub", "sub/deep", "sub/deep"])
        if os.path.isdir(self.p(d)):
            shutil.rmtree(self.p(d))
            if rng.random() < 0.3:
                self.put(d, some_file(rng))
        else:
            for d in ("sub", "sub/deep"):
                if not os.path.isdir(self.p(d)):
                    self.clear(d)
                    os.mkdir(self.p(d))
                    cli.own(self.p(d))

    def vanish(self):
        """a diff of a file whose directory is gone, or which is now a link, when it is applied"""
        rng = self.rng
        if not os.path.isdir(self.p("sub/deep")) or os.path.islink(self.p("sub/deep")):
            self.directory()
            self.step({"op": "edit"})
        n = rng.choice(["sub/f", "sub/deep/k", "sub/deep/k"])
        o = rng.choice(["f", "g", "h"])
        k = rng.random()
        d = None
        if k < 0.45:                              # a removal
            self.put(n, some_file(rng))
            self.step({"op": "edit"})
            d = self.diff(n, "no/where")
        elif k < 0.75:                            # an addition
            self.clear(n)
            self.put(o, some_file(rng))
            self.step({"op": "edit"})
            d = self.diff(n, o)
        else:
            self.put(n, some_file(rng))
            self.put(o, some_file(rng))
            self.step({"op": "edit"})
            d = self.diff(n, o)
        if d is None:
            return
        k = rng.random()
        if k < 0.5:
            self.directory()
        elif k < 0.9:
            self.put(o, some_file(rng, self.some()))
            self.link(n, rng.choice([o, o, "a b"]))
        self.step({"op": "edit"})
        for rev in rng.choice([[False], [True], [True, False], [False, True]]):
            self.patch(d, rev)

    def flags(self):
        return self.rng.choice([[], [], [], ["-v"], ["--verbose"], ["-vvv"]])

    def given(self, n):
        """a way to name a file, and the directory to run in"""
        k = self.rng.random()
        if k < 0.6 or n == "no/where":
            return n
        if k < 0.75:
            return "./" + n
        if k < 0.9:
            return self.p(n)
        return "sub/../" + n if os.path.isdir(self.p("sub")) else n

    def diff(self, b=None, a=None):
        rng = self.rng
        b, a = b or self.name(), a or self.name()
        gb, ga = self.given(b), self.given(a)
        c = gens.any_context(rng)
        k = rng.random()
        if k < 0.25:
            c, opt = 2, []
        else:
            opt = [["-c", str(c)], [f"-c{c}"], ["--context", str(c)], [f"--context={c}"]][int(k * 16) % 4]
        args = opt + [gb, ga] if rng.random() < 0.7 else [gb, ga] + opt
        rc, out, err = cli.run([self.pw_diff, *self.flags(), *args], self.root)
        s = {"op": "diff", "said": bool(err.strip()), "b": enc(b), "a": enc(a), "bn": enc(gb), "an": enc(ga), "c": c, "rc": -999 if rc is None else rc,
             "_doc": out}
        self.step(s)
        if rc == 0:
            self.store(out)
            return len(self.docs) - 1

    def store(self, doc):
        n = f"docs/d{len(self.docs)}.diff"
        with open(self.p(n), "wb") as f:
            f.write(doc)
        os.chmod(self.p(n), 0o644)
        self.docs.append((n, doc))
        self.step({"op": "edit"})

    def patch(self, at=None, rev=None):
        rng = self.rng
        at = rng.randrange(len(self.docs)) if at is None else at
        rev = rng.random() < 0.45 if rev is None else rev
        n, doc = self.docs[at]
        cwd = self.root if rng.random() < 0.9 else self.p("sub")
        if not os.path.isdir(cwd):
            cwd = self.root
        opt = [rng.choice(["-r", "--reverse"])] if rev else []
        doc_path = self.p(n) if rng.random() < 0.5 else os.path.relpath(self.p(n), cwd)
        args = self.flags() + opt + [doc_path]
        if rng.random() < 0.2:
            args = args[-1:] + args[:-1]
        rc, _, err = cli.run([self.pw_patch, *args], cwd, umask=rng.choice([0o022, 0o077, 0o002]))
        self.step({"op": "patch", "said": bool(err.strip()), "rev": rev, "rc": -999 if rc is None else rc, "_doc": doc, "_cwd": cwd})

    def damage(self):
        n, doc = self.rng.choice(self.docs)
        k = self.rng.random()
        at = self.rng.randrange(len(doc) or 1)
        doc = doc[:at] if k < 0.5 else b"" if k < 0.6 else doc + b"}" if k < 0.75 else doc[:at] + b"\xff" + doc[at:] \
            if k < 0.9 else b"--- a\n+++ b\n@@ -1 +1 @@\n-x\n+y\n"
        self.store(doc)
        self.patch(len(self.docs) - 1)

    def strange(self):
        """a diff that does not come from any pair of files"""
        try:
            d = json.loads(self.rng.choice(self.docs)[1])
            kind, x = next(iter(d.items()))
            text = kind == "TextChange"
            cl = x["clumps"]
            some = [l for y in cl for f in ("before", "after") for l in y[f]["items"]] or (["q\n"] if text else [7])
            x["clumps"] = distort(self.rng, cl, cl, text, some, near=True)[0]
            for y in x["clumps"] if text else []:    # lines only
                for f in ("before", "after"):
                    y[f]["items"] = [l if l and "\n" not in l[:-1] else "q\n" for l in y[f]["items"]]
            doc = json.dumps(d).encode()
        except (ValueError, KeyError, TypeError, AttributeError):
            return
        self.store(doc)
        for rev in self.rng.choice([[False], [True], [False, True]]):
            self.patch(len(self.docs) - 1, rev)

    def usage(self):
        rng = self.rng
        f = self.given(self.name())
        cmd = rng.choice([[self.pw_patch], [self.pw_patch, "docs/missing"], [self.pw_patch, "docs"], [self.pw_diff], [self.pw_diff, f],
                          [self.pw_diff, "-c", "256", f, f], [self.pw_diff, "-c", "-1", f, f], [self.pw_diff, "-c", "x", f, f],
                          [self.pw_patch, "-r"], [self.pw_patch, "--unknown", "docs/d0.diff"], [self.pw_diff, "no", "no/such"],
                          [self.pw_diff, "no", b"no\xff"], [self.pw_patch, b"docs/\xff"]])
        there = next((n for n in ("f", "g", "h") if os.path.isfile(self.p(n)) and os.access(self.p(n), os.R_OK)), None)
        if there and rng.random() < 0.2:     # a name that no document can hold
            cmd = [self.pw_diff, b"no\xff", there]
            with open(os.path.join(self.root.encode(), b"no\xff"), "wb") as o:
                o.write(b"other\n" + cli.read(self.p(there)))
            if rng.random() < 0.5:
                cmd[1:] = cmd[:0:-1]
        rc, _, err = cli.run(cmd, self.root)
        bad = os.path.join(self.root.encode(), b"no\xff")
        if os.path.exists(bad):
            os.unlink(bad)
        self.step({"op": "usage", "said": bool(err.strip()), "rc": -999 if rc is None else rc})

    def pair(self):
        """a diff and what it is for: forward, again, back, perhaps with edits between"""
        rng = self.rng
        fs = self.files()
        b = rng.choice(fs) if fs and rng.random() < 0.8 else self.name()
        if rng.random() < 0.6:
            a = rng.choice([n for n in NAMES[:-1] if n != b])
            if os.path.isfile(self.p(b)) and not os.path.isdir(self.p(a)):
                self.put(a, some_file(rng, cli.read(self.p(b))))
                self.step({"op": "edit"})
        else:
            a = self.name()
        d = self.diff(b, a)
        if d is None:
            return
        for rev in rng.choice([[False], [False, True], [False, False], [True], [False, True, False], [True, False]]):
            if rng.random() < 0.35:
                k = rng.random()
                if k < 0.55 and os.path.isfile(self.p(b)):
                    self.put(b, some_file(rng, cli.read(self.p(rng.choice([b, a])) if os.path.isfile(self.p(a)) else self.p(b))),
                             stat_mode(self.p(b)))
                    self.step({"op": "edit"})
                else:
                    self.edit()
            self.patch(d, rev)

    def go(self, steps):
        while len(self.steps) < steps:
            k = self.rng.random()
            if k < 0.1:
                self.vanish()
            elif k < 0.5:
                self.pair()
            elif k < 0.62:
                self.edit()
            elif k < 0.72:
                self.diff()
            elif k < 0.86 and self.docs:
                self.patch()
            elif k < 0.9 and self.docs:
                self.strange()
            elif k < 0.96 and self.docs:
                self.damage()
            else:
                self.usage()
        shutil.rmtree(self.root, ignore_errors=True)
        return self


def stat_mode(path):
    return os.lstat(path).st_mode & 0o7777 if os.path.lexists(path) else None


def views(docs):
    """what the documents are, as diffs"""
    docs = list(dict.fromkeys(docs))
    recs = execute(build("exec_diff")["exec_diff"], [{"k": "load", "_doc": list(d)} for d in docs])
    return {d: (r["v"] if r and not r.get("panic") else {"kind": "refused"}) for d, r in zip(docs, recs)}


def passable(root, cwd, path, fs):
    """do the directories a path goes through exist?"""
    dirs = {cli.unenc(e["n"]) for e in fs if e["t"] == "dir"}
    at = [] if os.path.isabs(path) else [x for x in os.path.relpath(cwd, root).split("/") if x != "."]
    path = os.path.relpath(path, root) if os.path.isabs(path) else path
    for x in path.split("/")[:-1]:
        at = at[:-1] if x == ".." else at if x in (".", "") else at + [x]
        if ("/".join(at) or ".") not in dirs:
            return False
    return True


def record(h, vs):
    r = {"u": cli.UNPRIVILEGED, "cs": h.contents.all, "st": []}
    names, was = set(), []
    for s in h.steps:
        s = dict(s)
        if "_doc" in s:
            s["v"] = vs[s.pop("_doc")]
        if s["op"] == "patch":
            cwd = s.pop("_cwd")
            p = cli.unenc(s["v"].get("bp", s["v"].get("path", "")))
            n = cli.name_in(h.root, cwd, p) if s["v"]["kind"] != "refused" else "-"
            if not passable(h.root, cwd, p, was):
                n = "no/such/place"
            s["n"], s["dir"] = enc(n), enc(os.path.dirname(n) or ".")
            names |= {s["n"], s["dir"]}
        if s["op"] == "diff":
            names |= {s["b"], s["a"]}
        names |= {x for e in s["fs"] for x in (e["n"], e.get("to"), e.get("td")) if x}
        if s.get("rc") in (-999, 101) or s.get("rc", 0) < 0:
            r["panic"] = f"{s['op']} did not end properly: status {s['rc']}"
        was = s["fs"]
        r["st"].append(s)
    above = lambda n: enc(os.path.dirname(cli.unenc(n)) or ".")
    names |= {above(n) for n in names}
    names |= {above(n) for n in names}
    r["names"] = sorted(names)
    r["dirs"] = [[n, above(n)] for n in r["names"]]
    return r


def c16(pid):
    c = Check(pid)
    rng = c.rng
    c.add_design(design("PatchMachine"), "pw_patch one file operation at a time, with any one failing or a crash anywhere")
    progs = cli.programs()
    seeds = [rng.random() for _ in range(scale(600, 6000))]
    with cf.ThreadPoolExecutor(CORES) as ex:
        hs = list(ex.map(lambda s: History(random.Random(s), progs).go(scale(14, 22)), seeds))
    vs = views([s["_doc"] for h in hs for s in h.steps if "_doc" in s])
    recs = [record(h, vs) for h in hs]
    cases = [{"history": n, "seed": s} for n, s in enumerate(seeds)]
    t = validate("TracePatch", recs)
    c.add_traces("histories of edits, diffs and patches", "history", "TracePatch", cases, recs, t)
    c.notes["steps"] = sum(len(r["st"]) for r in recs)
    c.notes["unprivileged"] = cli.UNPRIVILEGED
    return c.finish()


# ---------------------------------------------------------------- faults and crashes

ERRNOS = {"open": [13, 28, 5, 24], "read": [5, 21], "write": [28, 5, 32, 27], "rename": [5, 13, 28], "unlink": [13, 5], "chmod": [1, 5],
          "fchmod": [1, 5], "stat": [5, 13], "close": [5], "seek": [5], "sync": [5, 28], "link": [5], "truncate": [5]}
EINTR = 4


def place(root, files):
    """the same files again"""
    for e in sorted(os.listdir(root)):
        p = f"{root}/{e}"
        os.chmod(p, 0o700)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    for d in ("sub", "docs"):
        os.mkdir(f"{root}/{d}")
        cli.own(f"{root}/{d}")
    for n, (data, mode) in files.items():
        if data == "dir":
            os.mkdir(f"{root}/{n}")
        else:
            with open(f"{root}/{n}", "wb") as f:
                f.write(data)
        cli.own(f"{root}/{n}")
        os.chmod(f"{root}/{n}", mode)
    with open(root + ".log", "w"):
        pass
    os.chmod(root + ".log", 0o666)


def chosen(rng, log, most):
    """numbers of the operations at which something is to happen: not every read"""
    keep, reads = [], []
    for n, w in enumerate(log, 1):
        (reads if w[0] == "read" else keep).append(n)
    starts = [n for n in reads if n < 2 or log[n - 2][0] != "read"]
    ends = [n for n in reads if n >= len(log) or log[n][0] != "read"]
    reads = [n for n in reads if n not in starts and n not in ends]
    pick = sorted(set(keep + starts + ends + rng.sample(reads, min(4, len(reads)))))
    return pick if len(pick) <= most else sorted(rng.sample(pick, most))


def injections(rng, log, most):
    res = []
    for n in chosen(rng, log, most):
        op = log[n - 1][0]
        res.append(("kill", n, 0))
        errs = ERRNOS.get(op, [5])
        res.append(("err", n, rng.choice(errs)))
        if len(errs) > 1 and rng.random() < 0.5:
            res.append(("err", n, rng.choice(errs)))
        if rng.random() < 0.25:
            res.append(("err", n, EINTR))
        if op == "write":
            res += [("part", n, 0), ("full", n, 28)]
        if op in ("read", "write"):
            res.append(("short", n, 0))
    res.append(("kill", len(log) + 1, 0))
    return res


def is_text(data):
    try:
        data.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def fault_scenario(rng, progs):
    """files, a diff of two of them, the file it is for perhaps edited"""
    pw_diff, _ = progs
    root = cli.scratch()
    b, a = rng.choice([("f", "g"), ("f", "sub/g"), ("sub/f", "g"), ("sub/f", "sub/g")])
    k = rng.random()
    if k < 0.62:                                         # a change
        fb = some_file(rng)
        fa = some_file(rng, fb)
        if rng.random() < 0.15:                          # several blocks of data
            more = b"".join(bytes(rng.randrange(33, 127) for _ in range(rng.randint(100, 600))) + b"\n" for _ in range(26))
            if is_text(fb) and is_text(fa):              # differences of bytes would take too long
                fb, fa = fb + more, fa + more[:-3]
        elif rng.random() < 0.2:                         # of every size
            x, y = gens.pieces(rng, gens.size(rng, 900), 300) if rng.random() < 0.6 else gens.many(rng, gens.size(rng, 60), 2)[:2]
            fb, fa = ("".join(gens.whole(gens.eol(rng, z))).encode() for z in (x, y))
    elif k < 0.8:
        fb, fa = None, some_file(rng) + rng.choice([b"", b"", b"\xff\xfe", b"\xc3"])
    else:
        fb, fa = some_file(rng) + rng.choice([b"", b"", b"\xff\xfe", b"\xc3"]), None
    files = {"other": (b"other\n", 0o644), "sub/other": (b"\xff\n", 0o600)}
    for n, d in ((b, fb), (a, fa)):
        if d is not None:
            files[n] = (d, rng.choice(MODES))
    place(root, files)
    rc, doc, _ = cli.run([pw_diff, "-c", str(gens.context(rng)), b, a], root)
    rev = rng.random() < 0.4
    if rc != 0:
        return None
    diff_files = dict(files)
    mode = rng.choice(MODES)
    if fb is not None and fa is not None:
        now = fa if rev else fb
        if rng.random() < 0.4 and len(now) < 2000:
            now = some_file(rng, now)
    else:
        if fb is None:
            now = fa if rev else None
        else:
            now = None if rev else fb
        if rng.random() < 0.12:
            now = some_file(rng) if now is None else None
    files.pop(b, None)
    if now is not None:
        files[b] = (now, mode)
    files["docs/d"] = (doc, 0o644)
    return {"root": root, "files": files, "doc": doc, "rev": rev, "n": b, "diff": (diff_files, b, a)}


def patch_runs(rng, progs, sc, most):
    _, pw_patch = progs
    root, contents = sc["root"], cli.Contents()
    cmd = [pw_patch, "-r", "docs/d"] if sc["rev"] else [pw_patch, "docs/d"]

    def go(mode, n, errno):
        place(root, sc["files"])
        rc, _, _ = cli.run(cmd, root, env=cli.fault_env(root, mode, n, errno))
        log = cli.take_log(root)
        return {"inj": mode, "n": n, "e": errno, "rc": -999 if rc is None else rc,
                "now": cli.snapshot(root, contents)}, log

    place(root, sc["files"])
    was = cli.snapshot(root, contents)
    first, log = go("log", 0, 0)
    first["inj"] = "none"
    runs, more, bad = [first], [], None
    target = lambda fs: [e for e in fs if e["n"] == enc(sc["n"])]
    for mode, n, errno in injections(rng, log, most):
        r, _ = go(mode, n, errno)
        runs.append(r)
        # it was killed and has left something behind: again
        if r["rc"] == -9 and r["now"] != was and target(r["now"]) == target(was) and target(was) and len(more) < 4:
            rc, _, _ = cli.run(cmd, root)
            more.append({"was": r["now"], "runs": [{"inj": "none", "n": 0, "e": 0, "rc": -999 if rc is None else rc,
                                                    "now": cli.snapshot(root, contents)}]})
    # the files that it makes on the way are there already, and something else
    made = {w[3] for w in log if w[0] == "open" and int(w[2]) & os.O_CREAT} | {w[3] for w in log if w[0] in ("rename", "link")}
    made = [x for x in sorted(made) if cli.name_in(root, root, x) != sc["n"] and not cli.name_in(root, root, x).startswith("..")]
    if made and first["rc"] == 0:
        place(root, sc["files"])
        for x in made:
            p = os.path.normpath(os.path.join(root, x))
            if not os.path.lexists(p):
                with open(p, "wb") as f:
                    f.write(b"somebody's own\n")
                cli.own(p)
        state = cli.snapshot(root, contents)
        rc, _, _ = cli.run(cmd, root)
        more.append({"was": state, "runs": [{"inj": "there", "n": 0, "e": 0, "rc": -999 if rc is None else rc,
                                             "now": cli.snapshot(root, contents)}]})
    for r in runs + [x["runs"][0] for x in more]:
        if r["rc"] in (-999, 101) or (r["rc"] < 0 and not (r["rc"] == -9 and r["inj"] in ("kill", "part"))):
            bad = f"a run with {r['inj']} at operation {r['n']} did not end properly: status {r['rc']}"
    return {"was": was, "runs": runs, "cs": contents.all, "log": log, "bad": bad, "more": more}


def ops_record(sc, res):
    """the operations of the run without faults, for TraceOps; None if some are not understood"""
    root, ops = sc["root"], []
    name = lambda p: enc(cli.name_in(root, root, p))
    files = lambda fs: [{"n": e["n"], "m": e["m"], "d": res["cs"][e["c"] - 1]["d"]} for e in fs
                        if e["t"] == "file" and not e["n"].startswith("docs/")]
    names = {e["n"] for fs in (res["was"], res["runs"][0]["now"]) for e in fs if e["t"] == "file" and not e["n"].startswith("docs/")}
    skip = set()
    for w in res["log"]:
        o = w[0]
        if o in ("unknown", "symlink", "rmdir", "fail"):
            return None
        if o == "open":
            fd, flags, p = int(w[1]), int(w[2]), name(w[3])
            if p.startswith("docs/"):
                skip.add(fd)
            elif fd >= 0:
                skip.discard(fd)
                names.add(p)
                ops.append({"o": o, "fd": fd, "n": p, "cr": bool(flags & os.O_CREAT), "tr": bool(flags & os.O_TRUNC),
                            "app": bool(flags & os.O_APPEND), "m": 0o644})
        elif o in ("write", "close", "seek", "truncate"):
            fd = int(w[1])
            if fd in skip or fd == 1:
                continue
            ops.append({"o": o, "fd": fd, **({"d": list(bytes.fromhex(w[2]))} if o == "write" else {}),
                        **({"k": int(w[2])} if o in ("seek", "truncate") else {})})
        elif o in ("rename", "link") and w[1] == "0":
            ops.append({"o": o, "n": name(w[2]), "n2": name(w[3])})
            names |= {name(w[2]), name(w[3])}
        elif o == "unlink" and w[1] == "0":
            ops.append({"o": o, "n": name(w[2])})
            names.add(name(w[2]))
        elif o == "chmod" and w[1] == "0":
            ops.append({"o": o, "m": int(w[2]) & 0o7777, "n": name(w[3])})
        elif o == "fchmod" and w[1] == "0":
            ops.append({"o": o, "m": int(w[2]) & 0o7777, "fd": int(w[3])})
    if sum(len(o.get("d", [])) for o in ops) > 3000:
        return None
    return {"names": sorted(names), "n": enc(sc["n"]), "was": files(res["was"]), "now": files(res["runs"][0]["now"]), "ops": ops}


def diff_runs(rng, progs, sc, most):
    pw_diff, _ = progs
    root, contents = sc["root"], cli.Contents()
    files, b, a = sc["diff"]
    cmd = [pw_diff, b, a]

    def go(mode, n, errno):
        place(root, files)
        rc, out, _ = cli.run(cmd, root, env=cli.fault_env(root, mode, n, errno))
        log = cli.take_log(root)
        return {"inj": mode, "n": n, "e": errno, "rc": -999 if rc is None else rc, "_doc": out,
                "now": cli.snapshot(root, contents)}, log

    place(root, files)
    was = cli.snapshot(root, contents)
    first, log = go("log", 0, 0)
    first["inj"] = "none"
    runs, bad = [first], None
    for mode, n, errno in injections(rng, log, most):
        r, _ = go(mode, n, errno)
        runs.append(r)
    with open("/dev/full", "wb") as f:
        place(root, files)
        rc, _, _ = cli.run(cmd, root, stdout=f)
        runs.append({"inj": "dev/full", "n": 0, "e": 28, "rc": -999 if rc is None else rc, "_doc": b"",
                     "now": cli.snapshot(root, contents)})
    for r in runs:
        if r["rc"] in (-999, 101) or (r["rc"] < 0 and not (r["rc"] == -9 and r["inj"] in ("kill", "part"))):
            bad = f"a run with {r['inj']} at operation {r['n']} did not end properly: status {r['rc']}"
    return {"was": was, "runs": runs, "cs": contents.all, "bad": bad}


def named(r, *more):
    r["names"] = sorted({e["n"] for fs in [r["was"]] + [x["now"] for x in r["runs"]] for e in fs} | set(more))
    bad = r.pop("bad")
    if bad:
        r["panic"] = bad
    return r


def c17(pid):
    c = Check(pid)
    rng = c.rng
    cfg = open(f"{SPEC}/PatchMachine.cfg").read()
    c.add_design(design("PatchMachine", cfg.replace("RUNS = 2", "RUNS = 3") if THOROUGH else cfg),
                 "pw_patch one file operation at a time, with any one failing or a crash anywhere")
    progs = cli.programs()
    cli.shim()
    n = scale(60, 500)

    def one(seed):
        r = random.Random(seed)
        sc = None
        while sc is None:
            sc = fault_scenario(r, progs)
        res = patch_runs(r, progs, sc, scale(40, 90))
        dres = diff_runs(r, progs, sc, scale(16, 60)) if r.random() < 0.4 else None
        shutil.rmtree(sc["root"], ignore_errors=True)
        return sc, res, dres

    seeds = [rng.random() for _ in range(n)]
    with cf.ThreadPoolExecutor(CORES) as ex:
        done = list(ex.map(one, seeds))
    vs = views([sc["doc"] for sc, _, _ in done] + [x["_doc"] for _, _, d in done if d for x in d["runs"]])
    recs, ops, drecs, whose = [], [], [], []
    for k, (sc, res, dres) in enumerate(done):
        o = ops_record(sc, res)
        if o is not None:
            ops.append(o)
        res.pop("log")
        for m in [{}] + res.pop("more"):
            recs.append(named({**res, **m, "u": cli.UNPRIVILEGED, "v": vs[sc["doc"]], "rev": sc["rev"], "n": enc(sc["n"])}, enc(sc["n"])))
            whose.append(k)
        if dres:
            docs = list(dict.fromkeys(x["_doc"] for x in dres["runs"]))
            for x in dres["runs"]:
                x["v"] = docs.index(x.pop("_doc")) + 1
            _, b, a = sc["diff"]
            drecs.append(named({**dres, "u": cli.UNPRIVILEGED, "docs": [vs[d] for d in docs], "b": enc(b), "a": enc(a)},
                               enc(b), enc(a)))
    cases = [{"scenario": k, "seed": seeds[k]} for k in whose]
    t = validate("TraceCrash", recs)
    c.add_traces("pw_patch with a crash or fault at each operation", "faults", "TraceCrash", cases, recs, t)
    c.notes["runs_after_a_crash"] = sum(len(x["runs"]) == 1 and x["runs"][0]["inj"] == "none" for x in recs)
    c.notes["patch_runs"] = sum(len(r["runs"]) for r in recs)
    t = validate("TraceOps", ops)
    c.add_traces("operations of pw_patch, with a crash after each", "faults", "TraceOps", [{"n": k} for k in range(len(ops))], ops, t)
    t = validate("TraceDiffFault", drecs)
    c.add_traces("pw_diff with a fault at each operation", "faults", "TraceDiffFault", [{"n": k} for k in range(len(drecs))], drecs, t)
    c.notes["diff_runs"] = sum(len(r["runs"]) for r in drecs)
    return c.finish()


def run(pid):
    return {"C16": c16, "C17": c17}[pid](pid)
