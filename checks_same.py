from vlib import *
import gens


def question(rng):
    k = rng.choice(["diff", "diff", "apply", "apply", "uni", "line"])
    if k == "line":
        return {"k": k, "l": rng.choice(["--- ", "+++ "]) + rng.choice(["a/b", '"a b"', "x"])
                + rng.choice(["", "\t2024-01-02 03:04:05.678 +0100", "\tMon Jan  1 00:00:00 2024"]) + "\n"}
    c = gens.context(rng)
    r = rng.random()
    if k == "uni" or r < 0.6:
        b, a, p = gens.scenario(rng) if r < 0.5 else gens.inflated(rng, 30, 200)
        if rng.random() < 0.3:               # many runs of equal length to choose from
            n = rng.randint(4, 40)
            b = [rng.choice(["x\n", "y\n", "z\n"]) for _ in range(n)]
            a = [rng.choice(["x\n", "y\n", "z\n"]) for _ in range(n)]
        if rng.random() < 0.12:              # of every size
            w = rng.random()
            if w < 0.4:
                b, a = gens.pieces(rng, gens.size(rng, 700), gens.size(rng, 300))
                p = rng.choice([b, a, ["s\n"] * gens.size(rng, 90) + b])
            elif w < 0.7:
                b, a, p = gens.many(rng, gens.size(rng, 150), c % 5)
                c %= 5
            else:
                c = gens.wide_context(rng)
                b, a, p = gens.wide(rng, c)
        b, a, p = (gens.whole(gens.eol(rng, x)) for x in (b, a, p))
        if k == "uni":
            return {"k": k, "b": b, "a": a, "c": c}
        b, a, p = (list("".join(x).encode()) for x in (b, a, p))
    else:
        alpha = gens.byte_alphabet(rng)
        b, a = gens.pair(rng, alpha, 20)
        p = gens.damaged(rng, b, a, alpha)
    if k == "diff" and rng.random() < 0.2:
        b = "absent"
    elif k == "diff" and rng.random() < 0.2:
        a = "absent"
    q = {"k": k, "fb": b, "fa": a, "c": c}
    return dict(q, p=p, rev=rng.random() < 0.4) if k == "apply" else q


def swap(rng, xs, lines):
    """xs with some of it exchanged for something of the same length; newlines stay"""
    xs = list(xs)
    if not xs:
        return xs
    r = rng.random()
    if r < 0.5:                              # one for another throughout
        if lines:
            u, v = rng.choice("".join(xs)), rng.choice("qX\u00e9 ")
            return xs if u in "\r\n" else [l.replace(u, v) for l in xs]
        u, v = rng.choice(xs), rng.choice([81, 88, 32, 255])
        return xs if u in (10, 13) else [v if x == u else x for x in xs]
    i, j = rng.randrange(len(xs)), rng.randrange(len(xs))
    if lines:                                # two lines, or what a line consists of
        if r < 0.75 and xs[i][-1:] == xs[j][-1:] == "\n":
            xs[i], xs[j] = xs[j], xs[i]
        elif xs[i][-1:] == "\n":
            xs[i] = "".join(rng.choice("qXy") for _ in xs[i][:-1]) + "\n"
    elif xs[i] not in (10, 13) and xs[j] not in (10, 13):
        xs[i], xs[j] = (xs[j], xs[i]) if r < 0.75 else (rng.choice([81, 88, 255]), xs[j])
    return xs


def alike(rng, q):
    """a question that is easily taken for q"""
    q = dict(q)
    if q["k"] == "line":
        return dict(q, l=q["l"].replace(rng.choice("abx/"), rng.choice("cyz")))
    r = rng.random()
    b, a = ("b", "a") if q["k"] == "uni" else ("fb", "fa")
    if r < 0.15:
        q["c"] = max(0, q["c"] + rng.choice([-1, 1]))
    elif r < 0.25:
        q[b], q[a] = q[a], q[b]
    elif r < 0.35 and q["k"] == "apply":
        q["rev"] = not q["rev"]
    else:
        for k in rng.choice([[a], [b], [a, b], ["p"] if "p" in q else [a]]):
            if q[k] != "absent":
                q[k] = swap(rng, q[k], q["k"] == "uni")
    if q[b] == q[a] == "absent":
        q[b] = []
    return q


ENVS = [{}, {"LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8", "TZ": "Asia/Tokyo", "HOME": "/nonexistent", "COLUMNS": "9", "TERM": "dumb"},
        {"LANG": "C", "LC_ALL": "C", "TZ": "America/St_Johns", "RUST_LOG": "trace", "RUST_BACKTRACE": "full", "NO_COLOR": "1", "TMPDIR": "/tmp",
         "USER": "somebody", "QUOTING_STYLE": "c", "POSIXLY_CORRECT": "1", "DIFF_OPTIONS": "-w", "PATCH_VERSION_CONTROL": "t"}]


def plan(rng, nq, threads):
    ps = []
    for _ in range(threads):
        p = [q for q in range(nq) for _ in range(rng.choice([1, 1, 2]))]
        rng.shuffle(p)
        ps.append(p)
    return ps


def run(pid):
    c = Check(pid)
    rng = c.rng
    c.add_design(design("SameMachine"), "three threads, three questions, processes with a state of their own")
    exe = build("exec_same")["exec_same"]
    cases = []
    for _ in range(scale(1200, 9000)):
        nq = rng.randint(2, 6)
        qs = [question(rng) for _ in range(nq)]
        for k in range(1, nq):
            if rng.random() < 0.4:
                qs[k] = alike(rng, qs[rng.randrange(k)])
        cases.append({"nq": nq, "_qs": qs})
    runs = []
    for n, threads in enumerate((1, 4, 1)):  # three processes, each with a different past and surroundings
        cs = [dict(x, _plan=plan(rng, x["nq"], threads)) for x in cases]
        order = list(range(len(cs)))
        if n:
            rng.shuffle(order)
        recs = execute(exe, [cs[k] for k in order], env=ENVS[n])
        back = [None] * len(cs)
        for k, r in zip(order, recs):
            back[k] = r
        runs.append(back)
    recs = []
    for rs in zip(*runs):
        bad = [r for r in rs if r is None or r.get("panic")]
        recs.append(bad[0] if bad else dict(rs[0], ev=[e for r in rs for e in r["ev"]]))
    t = validate("TraceSame", recs)
    c.add_traces("the same questions in three processes", "same", "TraceSame", cases, recs, t)
    return c.finish()
