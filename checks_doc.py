from vlib import *
import gens

NAMES = ["f", "g.txt", "a b", "quo\"te", "back\\slash", "\u00e9\u65e5", "tab\there", "new\nline", "-x", "\U0001f600", "'", "\x01"]
BAD = [[0xff], [0xc3], [0xc3, 10], [0xe2, 0x82], [0xed, 0xa0, 0x80], [0xf4, 0x90, 0x80, 0x80], [0xc0, 0xaf],
       [0xe0, 0x80, 0x80], [0x80], [0xf0, 0x8f, 0xbf, 0xbf], [0xf8, 0x88, 0x80, 0x80, 0x80], [0xfe], [0xed, 0xbf, 0xbf]]


def enc_text(rng, big=False):
    return "".join(gens.whole(gens.eol(rng, gens.seq(rng, gens.alphabet(rng), rng.randint(0, 10))))).encode()


def some_file(rng, near=None):
    k = rng.random()
    if near is not None and k < 0.6:
        lines = near.decode("utf-8", "replace").splitlines(keepends=True)
        return "".join(gens.whole(gens.eol(rng, gens.edit(rng, lines, gens.alphabet(rng), 2)))).encode()
    if k < 0.75:
        return enc_text(rng)
    if k < 0.8:
        return b""
    d = list(enc_text(rng))
    at = rng.randint(0, len(d))
    d[at:at] = rng.choice(BAD)
    if k < 0.9:
        return bytes(d)
    return bytes(rng.choice(gens.byte_alphabet(rng)) for _ in range(rng.randint(0, 14)))


def state(rng, near=None):
    k = rng.random()
    return "absent" if k < 0.17 else "dir" if k < 0.2 else "loop" if k < 0.22 else "dangling" if k < 0.24 \
        else list(some_file(rng, near))


def new_case(rng, files=True):
    fb = state(rng)
    fa = state(rng, bytes(fb) if isinstance(fb, list) else None)
    if rng.random() < 0.05 and isinstance(fb, list):
        fa = list(fb)
    c = {"k": "new", "fb": fb, "fa": fa, "c": gens.context(rng)}
    c.update(names(rng))
    if rng.random() < 0.04:                   # the one file twice
        c["fa"], c["la"] = c["fb"], c["lb"]
        c["na"] = c["nb"] if rng.random() < 0.6 else c["lb"]
    return c


def late(rng):
    """lines of text, and perhaps something that is not text near the end or anywhere"""
    n = gens.size(rng, 12000)
    k = rng.random()
    f = []
    while len(f) < n:
        f += [rng.randrange(33, 127) for _ in range(rng.choice([0, 1, 3, 10, 30, 80] if k < 0.7 else [0, 1, 2, 200, 1000]))] + [10]
    if rng.random() < 0.3:
        f.pop()
    text = list(f)
    if rng.random() < 0.75:
        at = rng.choice([len(f), len(f) - min(len(f), gens.size(rng, 300)), rng.randint(0, len(f)), min(len(f), gens.size(rng, len(f) + 1))])
        f[at:at] = rng.choice(BAD + [[0xc3, 0xa9], [0xe2, 0x82, 0xac], [0xf0, 0x9f, 0x98, 0x80], [0]])
    return f, text


def names(rng):
    """two paths, where they lead, and the directories needed"""
    nb, na = rng.sample(NAMES, 2)
    k = rng.random()
    if k < 0.5:
        return {"nb": nb, "na": na, "lb": nb, "la": na, "_dirs": []}
    db, da = rng.choice([("", "sub"), ("old", "new"), ("old", "new"), ("d", "d/e"), ("a b/c", "a b"), ("x", "")])
    if rng.random() < 0.6:
        na = nb                               # the same name in two directories
    lb, la = (d + "/" + n if d else n for d, n in ((db, nb), (da, na)))
    up = lambda p: rng.choice([p, p, p, "./" + p, ("%s/../%s" % ((db or da).split("/")[0], p)), p.replace("/", "//")])
    return {"nb": up(lb), "na": up(la), "lb": lb, "la": la, "_dirs": sorted({x for x in (db, da, da.split("/")[0], db.split("/")[0]) if x})}


# ---------------------------------------------------------------- documents

def enc(s):
    return "".join(ch if ch == "\n" or (" " <= ch <= "~" and ch != "\\") else "\\%x;" % ord(ch) for ch in s)


TOP = 10 ** 9                  # numbers above are all the same in views and trees


def tree(x, enc=enc):
    if isinstance(x, Pairs):
        return {"t": "o", "v": [[enc(k), tree(v, enc)] for k, v in x.items]}
    if isinstance(x, list):
        return {"t": "a", "v": [tree(v, enc) for v in x]}
    if isinstance(x, str):
        return {"t": "s", "v": enc(x)}
    if isinstance(x, bool):
        return {"t": "b", "v": x}
    if isinstance(x, int) and 0 <= x < 1 << 64:
        return {"t": "n", "v": min(x, TOP), "big": x > TOP, "far": x > 2 ** 53}
    return {"t": "x"}


class Pairs:
    def __init__(self, items):
        self.items = [list(kv) for kv in items]


def text_of(x):
    if isinstance(x, Pairs):
        return "{" + ",".join(json.dumps(k) + ":" + text_of(v) for k, v in x.items) + "}"
    if isinstance(x, list):
        return "[" + ",".join(text_of(v) for v in x) + "]"
    return json.dumps(x)


def nodes(x, path=()):
    yield path
    if isinstance(x, Pairs):
        for n, kv in enumerate(x.items):
            yield from nodes(kv[1], path + (n,))
    elif isinstance(x, list):
        for n, v in enumerate(x):
            yield from nodes(v, path + (n,))


def get(x, path):
    for n in path:
        x = x.items[n][1] if isinstance(x, Pairs) else x[n]
    return x


def put(x, path, v):
    if not path:
        return v
    o = get(x, path[:-1])
    if isinstance(o, Pairs):
        o.items[path[-1]][1] = v
    else:
        o[path[-1]] = v
    return x


def other_value(rng, v):
    if rng.random() < 0.5:                      # the same type
        if isinstance(v, bool):
            return not v
        if isinstance(v, int):
            return rng.choice([0, 1, 255, 256, 257, 65536, 3000000000, (1 << 64) - 1, 1 << 64, -1, v + 256])
        if isinstance(v, str):
            return rng.choice(["", "x", "x\n", v + "y", "\u20ac"])
        if isinstance(v, list) and v:
            return rng.choice([v[:-1], v + v[:1], []])
    return rng.choice([None, True, 3, -1, 1.5, "s", [], [1], Pairs([]), ["a"], 256])


def damage(rng, doc):
    """one damaged document: (bytes, descriptor)"""
    k = rng.random()
    if k < 0.2:
        n = rng.randint(0, len(doc) - 1)
        return doc[:n], {"dm": "cut"}
    if k < 0.24:
        return doc + rng.choice([b"x", b"}", b" ]", b",", b"\n{}", b"0", b"\0", b"\"\"", b"/"]), {"dm": "junk"}
    if k < 0.26:
        return doc + doc, {"dm": "twice"}
    if k < 0.3:
        n = rng.randint(0, len(doc))
        return doc[:n] + bytes(rng.choice(BAD)) + doc[n:], {"dm": "utf8"}
    if k < 0.33:
        return rng.choice([b" ", b"\n\n", b"\t"]) + doc + rng.choice([b"\n", b"", b" \r\n"]), {"dm": "ws"}
    x = json.loads(doc, object_pairs_hook=Pairs)
    path = rng.choice(list(nodes(x)))
    o = get(x, path)
    if isinstance(o, Pairs) and o.items and rng.random() < 0.7:
        n = rng.randrange(len(o.items))
        q = rng.random()
        if q < 0.35:
            del o.items[n]
        elif q < 0.6:
            o.items.insert(rng.randint(0, len(o.items)), list(o.items[n]))
        elif q < 0.8:
            o.items[n][0] = rng.choice(["other", "", o.items[n][0].upper(), "path", "TextAdd", "before", "bytes", "lines"])
        else:
            rng.shuffle(o.items)
    else:
        x = put(x, path, other_value(rng, o))
    return text_of(x).encode(), {"dm": "tree", "tree": tree(x)}


def specified(d):
    """unknown fields, and structures given as lists, may be loaded or refused; so may
    \"compressed\" documents, which nothing makes"""
    def odd(t, names):
        return t["t"] == "o" and any(kv[0] not in names for kv in t["v"]) or t["t"] == "a"

    if d["dm"] != "tree":
        return True
    t = d["tree"]
    if t["t"] != "o" or len(t["v"]) != 1:
        return True
    body = t["v"][0][1]
    if odd(body, {"before_path", "after_path", "clumps", "compressed", "path", "lines", "bytes"}):
        return False
    for k, v in body.get("v", []) if body["t"] == "o" else []:
        if k == "compressed" and t["v"][0][0].startswith("Text") or k == "compressed" and v == {"t": "b", "v": True}:
            return False
        if k == "clumps" and v["t"] == "a":
            for x in v["v"]:
                if odd(x, {"context_lengths", "before", "after"}):
                    return False
                if x["t"] == "o" and any(kv[0] in ("before", "after") and odd(kv[1], {"start", "items"}) for kv in x["v"]):
                    return False
                # positions that no file can have, but numbers can
                if x["t"] == "o" and any(y[0] == "start" and y[1].get("far") for kv in x["v"] if kv[1]["t"] == "o" for y in kv[1]["v"]):
                    return False
    names = {"TextChange": {"before_path", "after_path", "clumps"}, "ByteChange": {"before_path", "after_path", "clumps", "compressed"},
             "TextAdd": {"path", "lines"}, "ByteAdd": {"path", "bytes", "compressed"}}
    names["TextRemove"], names["ByteRemove"] = names["TextAdd"], names["ByteAdd"]
    return t["v"][0][0] not in names or not odd(body, names[t["v"][0][0]])


def c14(pid):
    c = Check(pid)
    rng = c.rng
    c.add_design(design("PersistMachine"), "small diffs of every kind, stored, damaged in one place, loaded")
    cases = []
    for _ in range(scale(2500, 25000)):
        x = new_case(rng)
        ps = [f for f in (x["fb"], x["fa"]) if isinstance(f, list)]
        ps.append(list(some_file(rng, bytes(ps[0]) if ps else None)))
        x["_ps"] = ps
        x["doc"] = 1
        cases.append(x)
    cases.append({"k": "new", "nb": "b", "na": "a", "lb": "b", "la": "a", "fb": list(range(256)), "fa": list(range(255, -1, -1)), "c": 3, "doc": 1,
                  "_ps": [list(range(256))]})
    cases.append({"k": "new", "nb": "b", "na": "a", "lb": "b", "la": "a", "fb": "absent", "fa": list(range(256)), "c": 3, "doc": 1, "_ps": []})
    every = "".join(chr(n) for n in list(range(0x180)) + [0x2028, 0x2029, 0xfeff, 0xfffe, 0xffff, 0xd7ff, 0xe000, 0x10ffff]).encode()
    cases.append({"k": "new", "nb": "b", "na": "a", "lb": "b", "la": "a", "fb": "absent", "fa": list(every), "c": 3, "doc": 1, "_ps": []})
    cases.append({"k": "new", "nb": "b", "na": "a", "lb": "b", "la": "a", "fb": list(every), "fa": list(every + b"x\n"), "c": 1, "doc": 1, "_ps": [list(every)]})
    for _ in range(scale(8, 40)):
        b, a = gens.large_text_pair(rng, 400)
        b, a = list("".join(b).encode()), list("".join(a).encode())
        cases.append({"k": "new", "nb": "b", "na": "a", "lb": "b", "la": "a", "fb": b, "fa": a, "c": rng.choice([0, 3, 200, 255]), "doc": 1, "_ps": [b, a]})
    for _ in range(scale(150, 1500)):            # many clumps, long clumps, wide contexts
        y = rng.random() < 0.3
        b, a = gens.pieces(rng, gens.size(rng, 500), gens.size(rng, 300)) if rng.random() < 0.6 else gens.many(rng, gens.size(rng, 200), rng.choice([0, 1, 3]))[:2]
        b, a = [x[:1500] for x in gens.as_bytes(rng, b, a)] if y else [list("".join(gens.whole(gens.eol(rng, x))).encode()) for x in (b, a)]
        cases.append({"k": "new", **names(rng), "fb": b, "fa": a, "c": gens.any_context(rng), "doc": 1, "_ps": [b, a]})
    for n in (5000, 20000, 70000):               # long contents
        f, _ = late(rng)
        f = (f * (n // len(f) + 1))[:n]
        g = rng.choice(["absent", []])
        cases.append({"k": "new", **names(rng), **dict(zip(("fb", "fa"), (f, g) if rng.random() < 0.5 else (g, f))), "c": 3, "doc": 1, "_ps": [f]})
    exe = build("exec_diff")["exec_diff"]
    recs = execute(exe, cases)
    docs = [(bytes(r.pop("doc")), r["v2"]) for r in recs if r and not r.get("panic") and r.get("doc") and "v2" in r]
    t = validate("TracePersist", recs)
    c.add_traces("storing and loading", "exec_diff", "TracePersist", cases, recs, t)
    small = [d for d in docs if len(d[0]) < 2500]
    loads, extra, known = [], [], 0
    for doc, w in small[:2]:                   # every truncation of some documents
        for n in range(len(doc)):
            loads.append({"k": "load", "_doc": list(doc[:n])})
            extra.append({"dm": "cut", "w": w})
    # is the layout of documents the one the specification knows? (if not, a damaged
    # tree says nothing, and documents are only cut and added to)
    same = [{"k": "load", "_doc": list(d)} for d, _ in rng.sample(small, min(60, len(small)))]
    probe = execute(exe, same)
    for r, x in zip(probe, same):
        r.update(dm="tree", tree=tree(json.loads(bytes(x["_doc"]), object_pairs_hook=Pairs)), w=r.get("v"))
    layout = not validate("TracePersist", probe).rejected
    c.notes["layout_known"] = layout
    for _ in range(scale(6000, 60000)):
        doc, w = rng.choice(small)
        d, desc = damage(rng, doc)
        if desc["dm"] == "tree" and not layout:
            continue
        if not specified(desc):
            desc = {"dm": "any"}
        loads.append({"k": "load", "_doc": list(d)})
        extra.append({**desc, "w": w})
    lrecs = execute(exe, loads)
    for r, e in zip(lrecs, extra):
        if r is not None:
            r.update(e)
    t = validate("TracePersist", lrecs)
    c.notes["damages"] = {k: sum(1 for e in extra if e["dm"] == k) for k in {e["dm"] for e in extra}}
    c.notes["loaded_trees"] = sum(1 for r in lrecs if r and r.get("dm") == "tree" and r.get("v", {}).get("kind") != "refused")
    c.add_traces("damaged documents", "exec_diff", "TracePersist", loads, lrecs, t)
    return c.finish()


def c15(pid):
    c = Check(pid)
    rng = c.rng
    c.add_design(design("ClassifyMachine"), "all combinations of kinds of files, changing")
    cases = []
    kinds = ["absent", "dangling", "dir", "loop", [], [65, 10], [65, 10, 66], [0xc3, 0xa9, 10], [0xff, 10], [65, 10, 0xc3]]
    for fb in kinds:
        for fa in kinds:
            cases.append({"k": "new", "nb": "f", "na": "g", "lb": "f", "la": "g", "fb": fb, "fa": fa, "c": 2})
    for _ in range(scale(3000, 30000)):
        cases.append(new_case(rng))
    for _ in range(scale(14, 60)):               # text and almost text across buffer sizes
        n = rng.choice([8190, 8191, 8192, 16383])
        tail = rng.choice([[0xc3, 0xa9, 10], [0xe2, 0x82, 0xac], [0xc3], [10, 0xff], [0xe2, 0x82, 10], [10]])
        f = [rng.randrange(33, 127) for _ in range(n)] + tail
        g = rng.choice(["absent", [65, 10], f, f[:n]])
        cases.append({"k": "new", "nb": "f", "na": "g", "lb": "f", "la": "g", **dict(zip(("fb", "fa"), (f, g) if rng.random() < 0.5 else (g, f))),
                      "c": 1})
    for n in range(scale(240, 2400)):
        f, text = late(rng)
        at = rng.randint(0, len(text))
        g = rng.choice(["absent", "absent", "absent", "dangling", [], [65, 10], text if n % 3 else f, text[:at], text[at:], [0xff]])
        if isinstance(g, list) and len(g) > 20 and len(f) > 6000:
            g = g[:20]
        cases.append({"k": "new", **names(rng), **dict(zip(("fb", "fa"), (f, g) if rng.random() < 0.5 else (g, f))), "c": gens.any_context(rng)})
    for _ in range(scale(150, 1500)):            # many clumps, long clumps
        y = rng.random() < 0.4
        b, a = gens.pieces(rng, gens.size(rng, 700), gens.size(rng, 300)) if rng.random() < 0.6 else gens.many(rng, gens.size(rng, 300), 1)[:2]
        b, a = [x[:1500] for x in gens.as_bytes(rng, b, a)] if y else [list("".join(gens.whole(gens.eol(rng, x))).encode()) for x in (b, a)]
        cases.append({"k": "new", **names(rng), "fb": b, "fa": a, "c": gens.any_context(rng)})
    exe = build("exec_diff")["exec_diff"]
    recs = execute(exe, cases)
    for x, r in zip(cases, recs):
        for f, t in (("fb", "tb"), ("fa", "ta")):
            if r is not None:
                r[t] = x[f] if isinstance(x[f], str) else "file"
                r[f] = [] if isinstance(x[f], str) else x[f]
    t = validate("TraceClassify", recs)
    c.add_traces("diffs of two paths", "exec_diff", "TraceClassify", cases, recs, t)
    c.notes["kinds"] = {k: sum(1 for r in recs if r and r.get("v", {}).get("kind") == k)
                        for k in ("TextChange", "ByteChange", "TextAdd", "TextRemove", "ByteAdd", "ByteRemove", "error")}
    return c.finish()


def run(pid):
    return {"C14": c14, "C15": c15}[pid](pid)
