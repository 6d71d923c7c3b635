from vlib import *
import gens


def text_cases(rng, pid, n):
    cases = []
    for _ in range(n):
        b, a, p = (gens.whole(gens.eol(rng, x)) for x in gens.scenario(rng))
        cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": gens.context(rng), "rev": rng.random() < 0.4})
    for _ in range(n // 2):
        b, a, p, c = gens.campaign(rng)
        b, a, p = (gens.whole(gens.eol(rng, x)) for x in (b, a, p))
        cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": c, "rev": rng.random() < 0.3})
    return cases


def tiny_cases(rng, n):
    """a domain small enough to be enumerated: two different lines"""
    pairs = [x for x in generate("GenPairs", {"K": 2, "N": 3}) if x[0] != x[1]]
    files = [[]]
    for _ in range(4):
        files += [f + [x] for f in files for x in (1, 2) if len(f) == len(files[-1])]
    files = [list(t) for t in {tuple(f) for f in files}]
    files.sort()
    dom = [(b, a, p, c, r) for b, a in pairs for p in files for c in (0, 1, 2) for r in (False, True)]
    total = len(dom)
    if n < total:
        dom = rng.sample(dom, n)
    L = lambda s: ["%d\n" % x for x in s]
    return [{"k": "ap", "_b": L(b), "_a": L(a), "p": L(p), "c": c, "rev": r} for b, a, p, c, r in dom], total


def large_cases(rng, n, pid):
    cases = []
    for _ in range(n):
        size = rng.choice([150, 300, 300] + ([700] if THOROUGH else []))
        b, a = gens.large_text_pair(rng, size)
        alpha = ["l%d\n" % rng.randrange(size) for _ in range(5)] + ["x\n", "\n"]
        p = gens.whole(gens.damaged(rng, b, a, alpha))
        c = rng.choice([0, 1, 2, 3, 3, 5] + ([20, 100, 127, 128, 255] if pid != "C06" else []))
        cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": c, "rev": rng.random() < 0.4,
                      "_full": True})
    for _ in range(n):
        b, a, p = (gens.whole(gens.eol(rng, x)) for x in gens.inflated(rng, rng.choice([10, 130, 520, 1100]), 1500))
        cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": rng.choice([0, 1, 2, 3, 3, 5, 20]), "rev": rng.random() < 0.4})
    for m in (12, 130, 257, 520, 1030) * scale(4, 20):
        b, a, p = (gens.whole(gens.eol(rng, x)) for x in gens.hopeless(rng, m))
        cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": rng.choice([0, 1, 2, 3, 9]), "rev": rng.random() < 0.4})
    for _ in range(n * (8 if pid != "C06" else 5)):   # contexts up to the largest
        c = gens.wide_context(rng) if pid != "C06" else min(30, gens.wide_context(rng))
        b, a, p = (gens.whole(gens.eol(rng, x)) for x in gens.wide(rng, c))
        cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": c, "rev": rng.random() < 0.3})
    for _ in range(n * 6):
        b, a, p = (gens.whole(gens.eol(rng, x)) for x in gens.edges(rng, 1500))
        cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": rng.choice([0, 1, 2, 3, 3, 5]), "rev": rng.random() < 0.4})
    for _ in range(n * 3):
        b, a = gens.pieces(rng, gens.size(rng, 600), gens.size(rng, 300))
        p = gens.whole(gens.damaged(rng, b, a, ["u1.%d\n" % rng.randrange(9), "x\n", "\n"]))
        cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": rng.choice([0, 1, 2, 3, 3, 5]), "rev": rng.random() < 0.4,
                      "_full": True})
    for m in [gens.size(rng, 120) for _ in range(n * 2)] + [257, 290, 300] * scale(1, 5) + [520] * scale(0, 3):
        c = rng.choice([0, 1, 2, 3]) if m < 200 else 0
        b, a, p = gens.many(rng, m, c, rng.choice([0.95, 1]) if m == 300 else None, m >= 200)
        if max(len(b), len(a), len(p)) <= 1500:
            cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": c, "rev": rng.random() < 0.2, "_full": True})
    for d in [gens.size(rng, 2100) for _ in range(n)]:
        b, a, p, c = gens.far(rng, d)
        cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": c, "rev": rng.random() < 0.2})
    for d in (12, 60, 101, 130, 257, 520, 1030) * scale(3, 15):
        b, a, p, c = gens.far(rng, d)
        cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": c, "rev": rng.random() < 0.2})
    return cases


def run_text(pid):
    c = Check(pid)
    c.add_design(design("ApplyMachine", CFG[pid]), "all diffs of sequences of two lines, small files")
    exe = build("exec_text")["exec_text"]
    tiny, total = tiny_cases(c.rng, scale(2500, 10 ** 9))
    rnd = text_cases(c.rng, pid, scale(4000, 40000))
    big = large_cases(c.rng, scale(30, 200), pid)
    module = "TraceExplain" if pid == "C06" else "TraceText"
    env = {"FOCUS": pid}
    c.notes["enumerated_domain"] = {"size": total, "run": len(tiny)}
    for what, cases in (("enumerated small diffs and files", tiny), ("generated diffs and files", rnd),
                        ("large files", big)):
        recs = execute(exe, cases)
        t = validate(module, recs, env)
        c.add_traces(what, "exec_text", module, cases, recs, t, env)
    return c.finish()


APPLY = """SPECIFICATION Spec
CONSTANTS
    ITEMS = {1, 2}
    MAXLEN = %d
    MAXFILE = %d
    CONTEXTS = {%s}
    REVERSED = {%s}
INVARIANTS %s
PROPERTIES %s
"""
CFG = {}


def _cfg(pid, inv, props=""):
    small = APPLY % (scale(2, 3), scale(4, 5), "0, 1, 2", "FALSE, TRUE" if THOROUGH else "FALSE", inv, props)
    CFG[pid] = small if props else small.replace("PROPERTIES", "")


_cfg("C06", "C06_Placed C06_NoOverlap C06_LinesKept", "C06_Completes")
_cfg("C07", "C07_Clean C07_Nearest C07_LeastReduction")
_cfg("C08", "C08_OnlyIfNotApplicable C08_AllFoundNothingChanged C08_NotFailedIfThere", "C08_UnchangedThere")
_cfg("C09", "C09_CountedOnce C09_MarkersOnOwnLine", "C09_Block")


def run_round(pid):
    c = Check(pid)
    rng = c.rng
    c.add_design(design("RoundTrip", scale(None, open(f"{SPEC}/RoundTrip.cfg").read().replace("MAXLEN = 3", "MAXLEN = 4"))),
                 "all pairs of sequences of two items")
    cases = []
    if pid == "C04":
        exe = build("exec_text")["exec_text"]
        module, name = "TraceRound", "exec_text"
        exact = generate("GenPairs", {"K": 3, "N": 4})
        exact = exact if THOROUGH else rng.sample(exact, 900)
        for b, a in exact:
            b, a = (gens.whole(gens.eol(rng, ["%d\n" % x for x in s])) for s in (b, a))
            cases.append({"b": b, "a": a})
        for _ in range(scale(3000, 30000)):
            b, a = gens.text_pair(rng, rng.choice([4, 10, 16, 40]))
            cases.append({"b": b, "a": a})
        for _ in range(scale(30, 250)):
            b, a = gens.large_text_pair(rng, rng.choice([100, 300, 600]))
            cases.append({"b": b, "a": a, "c": rng.choice([0, 2, 3, 10, 127, 128, 255])})
        for cc in (63, 64, 127, 128, 254, 255):
            for gap in (2 * cc - 1, 2 * cc, 2 * cc + 1):
                b, a = gens.spaced(rng, gap, cc)
                cases.append({"b": b, "a": a, "c": cc})
        for _ in range(scale(40, 300)):
            b, a, _ = gens.inflated(rng, rng.choice([30, 260, 1100]))
            cases.append({"b": gens.eol(rng, b), "a": gens.eol(rng, a)})
        for _ in range(scale(250, 2500)):
            b, a = gens.pieces(rng, gens.size(rng, 3000), gens.size(rng, 2500))
            cases.append({"b": gens.eol(rng, b), "a": gens.eol(rng, a), "c": gens.any_context(rng)})
        for _ in range(scale(150, 1500)):
            cx = rng.choice([0, 1, 2, 3, 3, 5])
            b, a, _ = gens.many(rng, gens.size(rng, 500), cx)
            cases.append({"b": gens.eol(rng, b), "a": gens.eol(rng, a), "c": cx})
        for n in (3000, 9000, 20000, 40000, 66000):   # one very long clump
            b, a, _ = gens.edges(rng, 30)
            x = ["v%d\n" % i for i in range(n)]
            at = rng.randint(0, len(b))
            b, a = rng.choice([(b[:at] + x + b[at:], a), (b, a[:at] + x + a[at:])])
            cases.append({"b": gens.eol(rng, b), "a": gens.eol(rng, a), "c": rng.choice([0, 1, 3])})
        b = gens.distinct(66000)                # beyond what 16 bits number
        a = b[:700] + ["new\n"] + b[700:65700] + b[65702:65900] + ["other\n"] + b[65901:]
        cases.append({"b": b, "a": a, "c": 3})
        for n in (600, 5000, 9000) * scale(4, 20):
            b, a = gens.pair(rng, gens.alike(rng, n), 8)
            cases.append({"b": gens.eol(rng, b), "a": gens.eol(rng, a)})
        for _ in range(scale(6, 40)):           # lines longer than any buffer
            b, a = gens.pair(rng, ["x" * 9000 + "\n", "y" * 8191 + "\n", "z" * 8192 + "\n", "s\n"], 8)
            cases.append({"b": gens.eol(rng, b), "a": gens.eol(rng, a)})
    else:
        exe = build("exec_bytes")["exec_bytes"]
        module, name = "TraceRoundBytes", "exec_bytes"
        exact = generate("GenPairs", {"K": 3, "N": 4})
        exact = exact if THOROUGH else rng.sample(exact, 900)
        m = {1: 0, 2: 255, 3: 10}
        for b, a in exact:
            cases.append({"b": [m[x] for x in b], "a": [m[x] for x in a]})
        for _ in range(scale(3000, 30000)):
            b, a = gens.byte_pair(rng, rng.choice([6, 16, 40]))
            cases.append({"b": b, "a": a})
        for _ in range(scale(12, 100)):
            b = [rng.randrange(256) for _ in range(rng.choice([256, 600, 1200]))]
            cases.append({"b": b, "a": gens.edit(rng, b, list(range(256)), 8), "c": rng.choice([0, 2, 30, 128, 255])})
        for n in (600, 1100, 4097, 5000):          # long runs of changed bytes
            at, r = rng.randint(0, 20), [rng.randrange(256) for _ in range(40)]
            run_ = [rng.randrange(256) for _ in range(n)]
            b, a = rng.choice([(r, r[:at] + run_ + r[at:]), (r[:at] + run_ + r[at:], r), (r[:at] + [7] * n, r[:at] + [9] * n)])
            cases.append({"b": b, "a": a, "c": rng.choice([0, 2, 128])})
        for _ in range(scale(60, 600)):
            b, a = (x[:2500] for x in gens.as_bytes(rng, *gens.pieces(rng, gens.size(rng, 1000), gens.size(rng, 700))))
            cases.append({"b": b, "a": a, "c": gens.any_context(rng)})
        for n in [300, 1100, 2500, 4200, 4200, 4200, 9000, 9000, 17000, 33500, 66500] * scale(1, 4):
            b, a = gens.large_bytes(rng, n)
            cases.append({"b": b, "a": a, "c": gens.any_context(rng)})
        cases.append({"b": list(range(256)), "a": list(range(255, -1, -1))})
        cases.append({"b": [], "a": list(range(256))})
    for x in cases:
        x["k"] = "rt"
        x.setdefault("c", gens.context(rng))
    recs = execute(exe, cases)
    t = validate(module, recs)
    c.add_traces("round trips", name, module, cases, recs, t)
    return c.finish()


def run_bytes(pid):
    c = Check(pid)
    rng = c.rng
    c.add_design(design("ByteMachine"), "all byte diffs of small sequences applied to all small files")
    exe = build("exec_bytes")["exec_bytes"]
    cases = []
    for _ in range(scale(5000, 50000)):
        alpha = gens.byte_alphabet(rng)
        b, a = gens.pair(rng, alpha, rng.choice([4, 8, 16]))
        p = gens.damaged(rng, b, a, alpha)
        cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": gens.context(rng), "rev": rng.random() < 0.4})
    tiny, total = tiny_cases(rng, scale(2500, 10 ** 9))
    for x in tiny:
        for f in ("_b", "_a", "p"):
            x[f] = [int(v) for v in x[f]]
    c.notes["enumerated_domain"] = {"size": total, "run": len(tiny)}
    for _ in range(scale(10, 60)):
        b = [rng.randrange(256) for _ in range(600)]
        a = gens.edit(rng, b, list(range(256)), 6)
        cases.append({"k": "ap", "_b": b, "_a": a, "p": gens.damaged(rng, b, a, [0, 1, 255]),
                      "c": rng.choice([0, 2, 20, 200, 255]), "rev": rng.random() < 0.4})
    for _ in range(scale(300, 3000)):
        b, a, p = gens.as_bytes(rng, *gens.edges(rng, 1200))
        cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": gens.any_context(rng), "rev": rng.random() < 0.3})
    for _ in range(scale(200, 2000)):
        cx = gens.any_context(rng)
        b, a, p = gens.as_bytes(rng, *gens.wide(rng, cx))
        cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": cx, "rev": rng.random() < 0.3})
    for m in [gens.size(rng, 300) for _ in range(scale(40, 300))] + [260, 300]:
        cx = rng.choice([0, 1, 2, 3])
        b, a, p = gens.many(rng, m, cx, None if m < 260 else rng.choice([0, 1]), m >= 260)
        p = p if rng.random() < 0.3 else [y for y in p if y != "s\n"]
        b, a, p = gens.as_bytes(rng, b, a, p)
        cases.append({"k": "ap", "_b": b[:4000], "_a": a[:4000], "p": p, "c": cx, "rev": rng.random() < 0.3})
    for n in [400, 4200, 9000, 17000] * scale(3, 12):
        b, a = gens.large_bytes(rng, n)
        p = list(b if rng.random() < 0.7 else a)
        for _ in range(rng.choice([0, 1, 2])):
            p[rng.randrange(len(p))] = rng.randrange(256)
        cases.append({"k": "ap", "_b": b, "_a": a, "p": p, "c": gens.any_context(rng), "rev": rng.random() < 0.3})
    for what, cs in (("enumerated small diffs and files", tiny), ("generated diffs and files", cases)):
        recs = execute(exe, cs)
        t = validate("TraceBytes", recs)
        c.add_traces(what, "exec_bytes", "TraceBytes", cs, recs, t)
    return c.finish()


def run(pid):
    if pid in ("C04", "C05"):
        return run_round(pid)
    if pid == "C10":
        return run_bytes(pid)
    return run_text(pid)
