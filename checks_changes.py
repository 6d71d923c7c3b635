from vlib import *
import gens


def numbered(rec):
    """lines as numbers: what they are does not matter here"""
    if not isinstance(rec, dict) or rec.get("panic") or rec["k"] != "t":
        return rec
    num = {}
    n = lambda ls: [num.setdefault(l, len(num) + 1) for l in ls]
    rec = dict(rec, b=n(rec["b"]), a=n(rec["a"]))
    rec["cl"] = [[dict(x, b=n(x["b"]), a=n(x["a"])) for x in v] for v in rec["cl"]]
    return rec


def sized(rng, b, a, cs=()):
    k = rng.choice("ttty")
    if k == "y":
        b, a = gens.as_bytes(rng, b, a)
    return {"k": k, "b": b, "a": a, "q": [], "cs": sorted(set(cs))}


def change_cases(rng, pid):
    cases = []
    exact = generate("GenPairs", {"K": 3, "N": scale(4, 5) if pid != "C03" else 4})
    if not THOROUGH and len(exact) > 1300:
        exact = rng.sample(exact, 1300)
    for b, a in exact:
        k = rng.choice("ty")
        if k == "t":
            b = ["%d\n" % x for x in b]
            a = ["%d\n" % x for x in a]
        cases.append({"k": k, "b": b, "a": a})
    for _ in range(scale(1200, 12000)):
        k = rng.choice("ttty")
        b, a = gens.text_pair(rng, 14) if k == "t" else gens.byte_pair(rng, 16)
        cases.append({"k": k, "b": b, "a": a})
    for _ in range(scale(60, 600)):
        k = rng.choice("ty")
        b, a = gens.text_pair(rng, 45) if k == "t" else gens.byte_pair(rng, 60)
        cases.append({"k": k, "b": b, "a": a})
    for c in cases:
        b, a = c["b"], c["a"]
        if pid == "C02":
            q = [[0, len(b), 0, len(a)]]
            for _ in range(3):
                b0, b1 = sorted((rng.randint(0, len(b)), rng.randint(0, len(b))))
                a0, a1 = sorted((rng.randint(0, len(a)), rng.randint(0, len(a))))
                q.append([b0, b1, a0, a1])
            c["q"] = q
        else:
            c["q"] = []
        c["cs"] = sorted({0, 1, rng.choice([2, 3, 4, 5]), rng.choice([2, 3, 6, 20, 127, 128, 255])}) if pid == "C03" else []
    big = []
    if pid == "C01":
        for _ in range(scale(12, 80)):
            b, a = gens.large_text_pair(rng, rng.choice([200, 500, 1200]))
            big.append({"k": "t", "b": b, "a": a, "q": [], "cs": []})
        for _ in range(scale(6, 30)):
            b = [rng.randrange(256) for _ in range(1500)]
            big.append({"k": "y", "b": b, "a": gens.edit(rng, b, list(range(256)), 8), "q": [], "cs": []})
        for _ in range(scale(40, 400)):
            b, a, _ = gens.inflated(rng, rng.choice([30, 260, 1100]))
            big.append({"k": "t", "b": b, "a": a, "q": [], "cs": []})
        for n in (600, 5000, 9000) * scale(4, 20):
            b, a = gens.pair(rng, gens.alike(rng, n), 8)
            big.append({"k": "t", "b": b, "a": a, "q": [], "cs": []})
        for _ in range(scale(450, 4000)):
            b, a = gens.pieces(rng, gens.size(rng, 4000), gens.size(rng, 2500))
            big.append(sized(rng, b, a))
        for n in (300, 1000, 3000, 8000):
            b, a = (x[:12000] for x in gens.as_bytes(rng, *gens.pieces(rng, n, n // 3)))
            big.append({"k": "y", "b": b, "a": a, "q": [], "cs": []})
        for n in (300, 1100, 4200, 4200, 9000, 9000, 17000, 33500, 66500):
            b, a = gens.large_bytes(rng, n)
            big.append({"k": "y", "b": b, "a": a, "q": [], "cs": []})
    elif pid == "C02":
        for _ in range(scale(6, 40)):
            b, a = gens.large_text_pair(rng, rng.choice([60, 150]))
            big.append({"k": "t", "b": b, "a": a, "q": [[0, len(b), 0, len(a)], [3, len(b) - 5, 7, max(7, len(a) - 2)]], "cs": []})
        for _ in range(scale(14, 80)):       # items that occur very often
            b, a = gens.popular_pair(rng)
            n, m = len(b), len(a)
            k = "t"
            if rng.random() < 0.4:
                k, num = "y", {x: y for y, x in enumerate(sorted(set(b + a)))}
                b, a = [num[x] % 256 for x in b], [num[x] % 256 for x in a]
            big.append({"k": k, "b": b, "a": a, "q": [[0, n, 0, m], [n // 2, n, 0, m], [n * 3 // 4, n, m // 3, m]], "cs": []})
        for _ in range(scale(40, 300)):
            b, a, _ = gens.inflated(rng, 30, 130)
            big.append({"k": "t", "b": b, "a": a, "q": [[0, len(b), 0, len(a)], [len(b) // 3, len(b), 0, len(a)]], "cs": []})
        for _ in range(scale(500, 5000)):
            b, a = gens.nested(rng, rng.choice([2, 3, 4])) if rng.random() < 0.3 else gens.spine(rng, rng.randint(2, 12))
            if rng.random() < 0.2:
                b, a = a, b
            big.append({"k": "t", "b": b, "a": a, "q": [], "cs": []})
        for _ in range(scale(25, 200)):      # large: nothing but what holds between neighbours
            b, a, _ = gens.inflated(rng, 1100, 2500)
            big.append({"k": "t", "b": b, "a": a, "q": [], "cs": []})
        for _ in range(scale(500, 4000)):
            b, a = gens.pieces(rng, gens.size(rng, 1500), gens.size(rng, 600))
            x = sized(rng, b, a)
            n, m = len(x["b"]), len(x["a"])
            x["q"] = [[0, n, 0, m], [gens.size(rng, n) - 1, n, 0, m], [0, n, 0, gens.size(rng, m)]] if n and m else []
            big.append(x)
        for _ in range(scale(200, 2000)):      # large: nothing but what holds between neighbours
            b, a = gens.pieces(rng, gens.size(rng, 4000), gens.size(rng, 2500))
            big.append(sized(rng, b, a))
    else:
        for c in (1, 2, 3, 63, 64, 100, 127, 128, 200, 254, 255) * scale(1, 4):
            for gap in (2 * c - 1, 2 * c, 2 * c + 1):
                b, a = gens.spaced(rng, gap, c)
                big.append({"k": "t", "b": b, "a": a, "q": [], "cs": [c]})
        for _ in range(scale(10, 60)):
            b, a = gens.large_text_pair(rng, rng.choice([100, 400, 700]))
            big.append({"k": "t", "b": b, "a": a, "q": [], "cs": [0, rng.randint(1, 20), rng.randint(20, 255)]})
        for _ in range(scale(40, 300)):
            b, a, _ = gens.inflated(rng, rng.choice([30, 260, 1100]), 1500)
            big.append({"k": "t", "b": b, "a": a, "q": [],
                        "cs": sorted({rng.randint(0, 5), rng.randint(6, 140), rng.choice([128, 200, 254, 255])})})
        for _ in range(scale(350, 3000)):
            b, a = gens.pieces(rng, gens.size(rng, 2500), gens.size(rng, 1200))
            big.append(sized(rng, b, a, [gens.wide_context(rng), rng.choice([0, 1, 3])]))
        for _ in range(scale(200, 2000)):      # many changes, in a clump or in clumps of their own
            c = rng.choice([0, 1, 2, 3, 3, 5, 10])
            b, a, _ = gens.many(rng, gens.size(rng, 400), c)
            big.append(sized(rng, b, a, [c, c + 1, gens.wide_context(rng)]))
        for c in (2, 60, 100, 127, 128, 180, 255):
            b, a = gens.chain(rng, c)
            big.append({"k": "t", "b": b, "a": a, "q": [], "cs": [c]})
    return cases + big


def run(pid):
    c = Check(pid)
    if THOROUGH:
        cfg = open(f"{SPEC}/DiffMachine.cfg").read()
        c.add_design(design("DiffMachine", cfg.replace("MAXLEN = 4", "MAXLEN = 5")), "two items, length 5")
        c.add_design(design("DiffMachine", cfg.replace("{1, 2}", "{1, 2, 3}", 1)), "three items, length 4")
    else:
        c.add_design(design("DiffMachine"), "two items, length 4, contexts 0 to 2")
    exe = build("exec_changes")["exec_changes"]
    cases = change_cases(c.rng, pid)
    recs = [numbered(r) for r in execute(exe, cases)]
    env = {"FOCUS": pid}
    t = validate("TraceChanges", recs, env)
    c.add_traces("change lists" if pid != "C03" else "clumps", "exec_changes", "TraceChanges", cases, recs, t, env)
    return c.finish()
