from vlib import *
import gens


def cut(rng, data, most):
    ps = []
    while data:
        n = rng.randint(1, most)
        ps.append({"p": "d", "d": data[:n]})
        data = data[n:]
    return ps


def c11(pid):
    c = Check(pid)
    rng = c.rng
    cfg = open(f"{SPEC}/ReaderMachine.cfg").read()
    c.add_design(design("ReaderMachine", cfg.replace("MAXLEN = 4", "MAXLEN = 6") if THOROUGH else cfg),
                 "all texts over five bytes in all pieces")
    cases = []
    bad = [[0xff], [0xc3], [0xc3, 10], [0xe2, 0x82], [0xed, 0xa0, 0x80], [0xf4, 0x90, 0x80, 0x80], [0xc0, 0xaf],
           [0xe0, 0x80, 0x80], [0x80], [0xf0, 0x8f, 0xbf, 0xbf], [0xf5, 0x80, 0x80, 0x80], [0xef, 0xbf]]
    for _ in range(scale(3500, 40000)):
        k = rng.random()
        if k < 0.6:
            data = list("".join(gens.whole(gens.eol(rng, gens.seq(rng, gens.alphabet(rng), rng.randint(0, 10))))).encode())
        elif k < 0.8:
            data = list("".join(gens.seq(rng, gens.WEIRD + ["\ufffd", "\ud7ff\n", "\ue000", "\U0010ffff\n", "\x80"],
                                         rng.randint(0, 8))).encode())
        else:
            data = [rng.choice([10, 13, 65, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0x98, 0x80]) for _ in range(rng.randint(0, 10))]
        if rng.random() < 0.12:
            at = rng.randint(0, len(data))
            data[at:at] = rng.choice(bad)
        ps = cut(rng, data, rng.choice([1, 2, 3, 7, 1000]))
        for _ in range(rng.choice([0, 0, 1, 3])):
            ps.insert(rng.randint(0, len(ps)), {"p": "i"})
        if rng.random() < 0.15:
            ps.insert(rng.randint(0, len(ps)), {"p": "e", "n": rng.randrange(16)})
        cases.append({"ps": ps})
    for _ in range(scale(12, 60)):          # lines and characters across the usual buffer sizes
        n = rng.choice([8190, 8191, 8192, 8193, 16383, 16384])
        line = [65] * n
        tail = rng.choice([[10], [0xc3, 0xa9, 10], [13, 10, 66], [0xe2, 0x82, 0xac], [10, 10], []])
        data = line + tail + [66, 10]
        ps = cut(rng, data, rng.choice([4096, 8192, 100000]))
        if rng.random() < 0.3:
            ps.insert(rng.randint(0, len(ps)), {"p": rng.choice("ie"), "n": rng.randrange(16)})
        cases.append({"ps": ps})
    for n in (65535, 65536, 70000, 140000):      # very long lines, and very many
        data = [65] * n + rng.choice([[0xc3, 0xa9, 10, 66], [10], [0xe2, 0x82, 0xac, 13, 10]])
        cases.append({"ps": cut(rng, data, rng.choice([65536, 8192, 1 << 20]))})
    for n in (1200, 2500):
        data = [y for _ in range(n) for y in rng.choice([[10], [65, 10], [0xc3, 0xa9, 10], [13, 10]])]
        cases.append({"ps": cut(rng, data, rng.choice([4096, 100000]))})
    chars = [[10], [65], [13, 10], [0xc3, 0xa9], [0xe2, 0x82, 0xac], [0xf0, 0x9f, 0x98, 0x80], [0], [13], [65, 10], [66]]
    for _ in range(scale(220, 2200)):       # of every size, in pieces of every size
        n = gens.size(rng, scale(6000, 40000))
        kinds = [rng.choice(chars) for _ in range(rng.choice([1, 2, 4]))] + [rng.choice([[65], [10], [67, 68, 10]])]
        data = []
        while len(data) < n:
            data += rng.choice(kinds) if rng.random() < 0.5 else rng.choice(kinds) * gens.size(rng, n)
        data = data[:n]
        while data and data[-1] >= 0x80:
            data.pop()
        r = rng.random()
        if r < 0.3:                          # broken somewhere, perhaps very late
            at = rng.choice([len(data), max(0, len(data) - gens.size(rng, 40)), min(len(data), gens.size(rng, n)), rng.randint(0, len(data))])
            data[at:at] = rng.choice(bad)
        ps = cut(rng, data, rng.choice([gens.size(rng, n), n, max(16, n // 20)]) if n < 2000 else max(50, gens.size(rng, n)))
        for _ in range(rng.choice([0, 0, 1, 3])):
            ps.insert(rng.randint(0, len(ps)), {"p": "i"})
        if rng.random() < 0.2:
            ps.insert(rng.choice([len(ps), rng.randint(0, len(ps))]), {"p": "e", "n": rng.randrange(16)})
        cases.append({"ps": ps})
    exe = build("exec_read")["exec_read"]
    recs = execute(exe, cases)
    t = validate("TraceReader", recs)
    c.add_traces("readings", "exec_read", "TraceReader", cases, recs, t)
    return c.finish()


def subsequence_query(rng, d, alpha):
    at = rng.randint(0, len(d) + 2)
    k = rng.random()
    if k < 0.5:
        x = d[at:at + rng.randint(0, 3)]
        if k < 0.1 and x:
            x = x[:-1] + [rng.choice(alpha)]
    elif k < 0.7:
        x = []
    else:
        x = [rng.choice(alpha) for _ in range(rng.randint(1, 3))]
    return {"o": "h", "n": at, "x": x}


def part(rng, d):
    n = rng.choice([rng.randint(0, len(d)), gens.size(rng, len(d)) if d else 0])
    m = rng.choice([rng.randint(n, len(d)), n, len(d), len(d)])
    return {"o": "p", "n": n, "m": m, "all": rng.random() < 0.6}


def c12(pid):
    c = Check(pid)
    rng = c.rng
    cfg = open(f"{SPEC}/ConsumeMachine.cfg").read()
    if THOROUGH:
        cfg = cfg.replace("DEPTH = 4", "DEPTH = 5")
    r = design("ConsumeMachine", cfg)
    c.add_design(r, "all histories of operations, to be replayed")
    hist = [(int(m.group(1)), json.loads(json.loads('"' + m.group(2) + '"')))
            for m in re.finditer(r'^"H (\d+) (.*)"$', r.out, re.M)]
    c.notes["histories_from_tlc"] = len(hist)
    if not hist:
        raise ToolError("TLC printed no histories")
    cases = []
    for n, h in hist if THOROUGH or len(hist) < 3000 else rng.sample(hist, 3000):
        k = rng.choice("ty")
        d = ["%d\n" % i for i in range(n)] if k == "t" else list(range(n))
        cases.append({"k": k, "d": d, "ops": h})
    for _ in range(scale(2500, 25000)):
        k = rng.choice("ty")
        alpha = gens.alphabet(rng) if k == "t" else gens.byte_alphabet(rng)
        d = gens.seq(rng, alpha, rng.randint(0, 12))
        if k == "t":
            d = gens.whole(gens.eol(rng, d))
        at, ops = 0, []
        for _ in range(rng.randint(1, 14)):
            o = rng.random()
            if o < 0.4:
                n = rng.randint(0, len(d)) if rng.random() < 0.5 else min(len(d), at + rng.randint(0, 2))
                ops.append({"o": "w", "n": n})
                at = max(at, n)
            elif o < 0.6:
                n = rng.randint(0, min(3, len(d) - at))
                ops.append({"o": "s", "n": n})
                at += n
            elif o < 0.68:
                ops.append({"o": "r"})
                at = len(d)
            elif o < 0.78:
                ops.append(part(rng, d))
            else:
                ops.append(subsequence_query(rng, d, alpha))
        cases.append({"k": k, "d": d, "ops": ops})
    for n in (256, 512, 1000, 1024, 1500, 4096, 5000) * scale(3, 15):      # large ones
        n += rng.choice([-1, 0, 1, 7])
        k = rng.choice("tty")
        d = gens.distinct(n) if k == "t" else [rng.randrange(256) for _ in range(n)]
        spots = sorted(rng.randint(0, n) for _ in range(4)) + [n]
        ops, at = [], 0
        for s in spots:
            o = rng.choice("wwsh")
            m = rng.choice([1, 3, 260, 1030])
            x = d[s:s + m]
            if x and rng.random() < 0.5:
                x = x[:-1] + [d[0]]
            ops.append({"o": "h", "n": s, "x": x})
            if o == "w":
                ops.append({"o": "w", "n": s})
                at = max(at, s)
            elif o == "s":
                m = rng.choice([0, 1, max(0, s - at), rng.randint(0, n - at)])
                ops.append({"o": "s", "n": m})
                at += m
        ops.append({"o": "r"})
        cases.append({"k": k, "d": d, "ops": ops})
    for _ in range(scale(260, 2600)):        # and of every size
        n = gens.size(rng, scale(3000, 12000))
        k = rng.choice("tty")
        if k == "t":
            d = gens.distinct(n) if rng.random() < 0.6 else [rng.choice(["\n", "x\n", "y\n"]) for _ in range(n)]
        else:
            d = [rng.randrange(rng.choice([2, 256])) for _ in range(n)]
        ops, at = [], 0
        for _ in range(rng.randint(1, 7)):
            s = rng.choice([at, min(n, at + gens.size(rng, n)), rng.randint(0, n), max(0, n - gens.size(rng, n)), n])
            o = rng.choice("wwsshh")
            if o == "w":
                ops.append({"o": "w", "n": s})
                at = max(at, s)
            elif o == "s":
                m = min(n - at, rng.choice([0, 1, gens.size(rng, n), n]))
                ops.append({"o": "s", "n": m})
                at += m
            else:
                x = d[s:s + gens.size(rng, n)]
                if x and rng.random() < 0.6:     # different near one of its ends
                    e = min(len(x) - 1, rng.choice([0, 0, 1, gens.size(rng, len(x))]))
                    x[rng.choice([e, len(x) - 1 - e])] = "other\n" if k == "t" else rng.randrange(256)
                elif rng.random() < 0.3:         # longer than what is left
                    x = x + ["more\n" if k == "t" else 0]
                ops.append({"o": "h", "n": s + rng.choice([0, 0, 0, 0, 1]), "x": x})
        if rng.random() < 0.4:
            ops.append(part(rng, d))
        ops.append({"o": "r"})
        cases.append({"k": k, "d": d, "ops": ops})
    exe = build("exec_consume")["exec_consume"]
    recs = execute(exe, cases)
    t = validate("TraceConsume", recs)
    c.add_traces("histories", "exec_consume", "TraceConsume", cases, recs, t)
    return c.finish()


def c13(pid):
    c = Check(pid)
    rng = c.rng
    c.add_design(design("WriterMachine"), "all outputs of up to five bytes, all ways of accepting them")
    cases = []

    def writers(n):
        ws = [{"b": -1, "m": 1 << 30, "i": 0, "z": False}]
        for _ in range(n):
            b = rng.choice([-1, 0, 1, 2, 3, 5, 8, 13, rng.randint(1001, 1999), rng.randint(1001, 1999), 1999, 2000])
            ws.append({"b": b, "m": rng.choice([1, 2, 3, 7, 1 << 30]), "i": rng.choice([0, 0, 2, 3, 5]),
                       "z": rng.random() < 0.25, "k": rng.randrange(16), "o": rng.random() < 0.4})
        return ws

    for _ in range(scale(1500, 15000)):
        k = rng.choice(["t", "t", "t", "y", "tf", "yf"])
        case = {"k": k, "c": gens.context(rng), "rev": rng.random() < 0.4, "ws": writers(5)}
        if k[0] == "t":
            b, a, p = (gens.whole(gens.eol(rng, x)) for x in gens.scenario(rng))
            case.update(_b=b, _a=a, _p=p)
        else:
            alpha = gens.byte_alphabet(rng)
            b, a = gens.pair(rng, alpha, 16)
            case.update(_b=b, _a=a, _p=gens.damaged(rng, b, a, alpha))
        cases.append(case)
    for n in (130, 520, 1030) * scale(6, 30):
        k = rng.choice(["t", "t", "tf"])
        case = {"k": k, "c": rng.choice([0, 2, 3]), "rev": rng.random() < 0.4, "ws": writers(3)}
        for x in case["ws"]:
            x["m"] = max(x["m"], 64)
        if rng.random() < 0.5:
            b, a, p = gens.hopeless(rng, n)
        else:
            b, a, p = gens.inflated(rng, n, 1300)
        b, a, p = (gens.whole(gens.eol(rng, x)) for x in (b, a, p))
        cases.append(dict(case, _b=b, _a=a, _p=p))
    for n in range(scale(60, 600)):          # of every size
        k = rng.choice(["t", "t", "tf", "y", "yf"])
        case = {"k": k, "c": gens.any_context(rng), "rev": rng.random() < 0.4, "ws": writers(3)}
        for x in case["ws"]:
            x["m"] = rng.choice([x["m"], 1 << 30, gens.size(rng, 9000)])
            x["m"] = max(x["m"], 20)
            if rng.random() < 0.3:
                x["b"] = gens.size(rng, 999)
        r = rng.random()
        if r < 0.3:
            b, a, p = gens.many(rng, gens.size(rng, 260), case["c"] % 5)
            case["c"] %= 5
        elif r < 0.5:
            b, a, p = gens.wide(rng, case["c"])
        elif r < 0.7:
            b, a, p = gens.edges(rng, 900)
        else:
            b, a = gens.pieces(rng, gens.size(rng, 900), 300)
            p = b if rng.random() < 0.5 else gens.damaged(rng, b, a, ["x\n", "y\n"]) if len(b) < 250 else a
        if k[0] == "y":
            b, a, p = gens.as_bytes(rng, b, a, p)
        else:
            b, a, p = (gens.whole(gens.eol(rng, x)) for x in (b, a, p))
        cases.append(dict(case, _b=b, _a=a, _p=p))
    exe = build("exec_write")["exec_write"]
    recs = execute(exe, cases)
    t = validate("TraceWriter", recs)
    c.add_traces("outputs to limited writers", "exec_write", "TraceWriter", cases, recs, t)
    return c.finish()


def run(pid):
    return {"C11": c11, "C12": c12, "C13": c13}[pid](pid)
