from vlib import *
from checks_doc import Pairs, tree, text_of, TOP
import gens


def pairs(x):
    """dicts to Pairs"""
    if isinstance(x, dict):
        return Pairs([(k, pairs(v)) for k, v in x.items()])
    return [pairs(v) for v in x] if isinstance(x, list) else x


def far(rng):
    k = rng.random()
    if k < 0.5:
        return rng.choice([10 ** 3, 10 ** 4, 10 ** 6, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 10 ** 12, 2 ** 53])
    return int(10 ** rng.uniform(2, 15))


def shifted(rng, n):
    return max(0, n + rng.choice([-3, -2, -1, -1, 1, 1, 2, 3, rng.randint(-40, 40)]))


def item(rng, text, some):
    if not text:
        return rng.choice([0, 1, 65, 255] + some)
    l = rng.choice(some + ["new\n", "}\n", "\n", "x", "two\nlines\n", "in\nside", "", "=======\n", ">>>>>>>\n", "<<<<<<<\n", "\u00e9\n", "\n\n"])
    return l[:-1] if l.endswith("\n") and rng.random() < 0.15 else l


def distort(rng, cl, others, text, some, near=False):
    """clumps that no pair of files need have; -> clumps, may they be refused or not.
    near: no positions far away"""
    cl = json.loads(json.dumps(cl))
    free = False
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        k = rng.random()
        x = rng.choice(cl) if cl else None
        side = rng.choice(["before", "after"])
        if k < 0.12 and x:
            sides = rng.choice([["before"], ["after"], ["before", "after"]])
            for y in (cl if rng.random() < 0.4 else [x]):
                for f in sides:
                    y[f]["start"] = shifted(rng, y[f]["start"])
        elif near and k < 0.22:
            pass
        elif k < 0.2 and x:
            n = far(rng)
            for f in rng.choice([["before"], ["after"], ["before", "after"]]):
                x[f]["start"] = n
        elif k < 0.21 and x:     # all of them, as they are, but far away
            n = far(rng)
            for y in cl:
                for f in rng.choice([["before"], ["after"], ["before", "after"], ["before", "after"]]):
                    y[f]["start"] += n
        elif k < 0.22 and x:
            free = True
            x[side]["start"] = rng.choice([2 ** 64 - 1, 2 ** 63, 2 ** 63 - 1, 2 ** 62, 2 ** 61, 2 ** 60, 2 ** 54]) + rng.randint(-9, 0)
        elif k < 0.25 and x:
            x[side]["start"] = 0
        elif k < 0.33:
            rng.shuffle(cl)
        elif k < 0.4 and x:
            cl.insert(rng.randint(0, len(cl)), json.loads(json.dumps(x)))
        elif k < 0.43 and x:
            cl.remove(x)
        elif k < 0.5 and others:
            cl.insert(rng.randint(0, len(cl)), json.loads(json.dumps(rng.choice(others))))
        elif k < 0.55 and x:
            x["before"], x["after"] = x["after"], x["before"]
        elif k < 0.58 and x:
            x[side] = json.loads(json.dumps(x["before" if side == "after" else "after"]))
        elif k < 0.61 and len(cl) > 1:
            y = rng.choice(cl)
            x[side], y[side] = y[side], x[side]
        elif k < 0.65 and x:
            x[side]["items"] = []
        elif k < 0.72 and x:
            n = min(len(x["before"]["items"]), len(x["after"]["items"]))
            c0 = rng.randint(0, min(n, 255))
            x["context_lengths"] = [c0, rng.randint(0, min(255, n - c0))]
        elif k < 0.74 and x:
            x["context_lengths"] = [rng.choice([0, 1, 3, 200, 255]), rng.choice([0, 1, 3, 255])]
        elif x:
            it = x[side]["items"]
            q = rng.random()
            n = rng.randrange(len(it)) if it else 0
            if q < 0.4 or not it:
                it.insert(rng.randint(0, len(it)), item(rng, text, some))
            elif q < 0.6:
                it[n] = item(rng, text, some)
            elif q < 0.75:
                del it[n]
            elif q < 0.85:
                rng.shuffle(it)
            elif text:
                it[n] = it[n][:-1] if it[n].endswith("\n") else it[n] + "\n"
            elif it:
                it[n] = (it[n] + 1) % 256
    # contexts that have become too long are mostly mended
    for x in cl:
        n = min(len(x["before"]["items"]), len(x["after"]["items"]))
        if near or rng.random() < 0.94:
            c0 = min(x["context_lengths"][0], n)
            x["context_lengths"] = [c0, min(x["context_lengths"][1], n - c0)]
    return cl, free


def invented(rng, text, some):
    """clumps from nothing"""
    cl = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])):
        b, a = [[item(rng, text, some) for _ in range(rng.choice([0, 1, 1, 2, 4]))] for _ in "ba"]
        if text:
            b, a = [[l if "\n" in l or rng.random() < 0.1 else l + "\n" for l in x] for x in (b, a)]
        n = min(len(b), len(a))
        c0 = rng.randint(0, n)
        cl.append({"context_lengths": [c0, rng.randint(0, n - c0)],
                   "before": {"start": rng.randint(0, 12), "items": b}, "after": {"start": rng.randint(0, 12), "items": a}})
    return cl


def giant(rng, text):
    """a clump whose contexts are as long as they can be, and a file"""
    def one():
        return f"{rng.randint(0, 999)}\n" if text else rng.randrange(256)

    l, r = [rng.choice([255, 254, rng.randint(100, 255)]) for _ in "lr"]
    left, right = [[one() for _ in range(n)] for n in (l, r)]
    b, a = [left + [one() for _ in range(rng.choice([0, 1, 2]))] + right for _ in "ba"]
    n = rng.randint(0, 3)
    cl = [{"context_lengths": [l, r], "before": {"start": n, "items": b}, "after": {"start": n, "items": a}}]
    if text:        # (the specification considers every part of the context to be ignored at every line)
        f = rng.choice([[], [one()], b[:1], b[-1:], b[l:-r][:2], a[l:-r][:2]])
    else:
        f = [one() for _ in range(rng.choice([n, 0, 2]))] + rng.choice([b, b, a])
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            if f:
                f[rng.choice([0, 1, -1, -2])] = one()
    return cl, list("".join(f).encode()) if text else f


def file_for(rng, text, b, a, p):
    k = rng.random()
    f = b if k < 0.3 else a if k < 0.5 else p if k < 0.8 else b + a if k < 0.86 else b[:3] * 3 if k < 0.9 else \
        rng.sample(b, len(b)) if k < 0.96 else []
    return list("".join(gens.whole(f)).encode()) if text else list(f)


def run(pid):
    c = Check(pid)
    rng = c.rng
    cfg = open(f"{SPEC}/AnyMachine.cfg").read()
    c.add_design(design("AnyMachine"), "all small clumps, whatever their positions, content and context, applied to small files")
    two = cfg.replace("ITEMS = {1, 2}", "ITEMS = {1}").replace("MANY = FALSE", "MANY = TRUE")
    c.add_design(design("AnyMachine", two), "pairs of clumps of one line repeated, likewise")
    exe = build("exec_diff")["exec_diff"]
    pool = []
    for _ in range(scale(260, 2000)):
        text = rng.random() < 0.75
        if rng.random() < 0.15:
            b, a, p, _ = gens.campaign(rng)
        else:
            b, a, p = gens.scenario(rng)
        ctx = rng.choice([0, 1, 2, 3, 3, 5])
        if not text:
            alpha = gens.byte_alphabet(rng)
            b = [rng.choice(alpha) for _ in range(rng.randint(0, 12))]
            a, p = [gens.edit(rng, b, alpha, rng.choice([1, 2, 4])) for _ in "ap"]
            fb, fa = [0xff] + b, [0xff] + a
            b, a, p = fb, fa, [0xff] + p
        else:
            fb, fa = [list("".join(gens.whole(x)).encode()) for x in (b, a)]
        pool.append((text, b, a, p, {"k": "new", "nb": "b", "na": "a", "lb": "b", "la": "a", "fb": fb, "fa": fa, "c": ctx, "doc": 1}))
    recs = execute(exe, [x[4] for x in pool])
    docs = {True: [], False: []}
    for (text, b, a, p, case), r in zip(pool, recs):
        if r and r.get("doc"):
            d = json.loads(bytes(r["doc"]))
            kind = next(iter(d))
            if kind in ("TextChange", "ByteChange"):
                docs[kind == "TextChange"].append((d, b, a, p))
    # is the layout of documents the one the specification knows?
    cases = []

    def case(d, f, free=False):
        x = pairs(d)
        cases.append({"k": "any", "_doc": list(text_of(x).encode()), "_p": f, "rev": rng.random() < 0.4, "tree": tree(x, str), "free": free})

    for text in (True, False):
        for d, b, a, p in docs[text][:30]:
            case(d, list("".join(gens.whole(b)).encode()) if text else b)
    probe = execute(exe, cases)
    seen = [{"k": "load", "dm": "tree", "tree": r["tree"], "v": r["v"]} for r in probe if r and "v" in r]
    if validate("TracePersist", seen).rejected:
        c.notes["layout_known"] = False          # distorted documents say nothing, only these
        t = validate("TraceAny", probe)
        bad = {n: why for n, why in t.rejected.items() if probe[n].get("panic")}
        t.rejected = bad
        c.add_traces("documents", "exec_diff", "TraceAny", cases, probe, t)
        return c.finish()
    cases = []
    for _ in range(scale(16000, 160000)):
        text = rng.random() < 0.7
        if not docs[text]:
            continue
        d, b, a, p = rng.choice(docs[text])
        kind = next(iter(d))
        free = False
        some = list(b + a) or ["q\n" if text else 7]
        cl = d[kind]["clumps"]
        if rng.random() < 0.15:
            cl = invented(rng, text, some)
        if rng.random() < 0.9:
            others = rng.choice(docs[text])[0][kind]["clumps"] if rng.random() < 0.6 else []
            cl, free = distort(rng, cl, others, text, some)
        case({kind: {**d[kind], "clumps": cl}}, file_for(rng, text, b, a, p), free)
    for n in range(scale(12, 90)):
        text = n % 2 > 0
        if docs[text]:
            d = docs[text][0][0]
            kind = next(iter(d))
            cl, f = giant(rng, text)
            case({kind: {**d[kind], "clumps": cl}}, f)
    recs = execute(exe, cases)
    t = validate("TraceAny", recs)
    c.add_traces("strange documents", "exec_diff", "TraceAny", cases, recs, t)
    ok = [r for r in recs if r and "v" in r]
    c.notes["refused"] = sum(1 for r in ok if r["v"]["kind"] == "refused")
    c.notes["applied"] = {k: sum(1 for r in ok if r["v"]["kind"] == k) for k in ("TextChange", "ByteChange")}
    c.notes["ways"] = [sum(r["st"][n] for r in ok if "st" in r) for n in range(5)]
    return c.finish()
