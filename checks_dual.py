from vlib import *
import gens


def run(pid):
    c = Check(pid)
    rng = c.rng
    cfg = open(f"{SPEC}/CoordinateMachine.cfg").read()
    c.add_design(design("CoordinateMachine", cfg.replace("N = 4", "N = 6") if THOROUGH else cfg),
                 "all sides within bounds, all ignored context, both directions")
    cases = []
    for _ in range(scale(3000, 30000)):
        k = rng.choice("ttty")
        if k == "t":
            b, a, p = (gens.whole(gens.eol(rng, x)) for x in gens.scenario(rng))
        else:
            alpha = gens.byte_alphabet(rng)
            b, a = gens.pair(rng, alpha, 16)
            p = gens.damaged(rng, b, a, alpha)
        cases.append({"k": k, "_b": b, "_a": a, "_p": p, "c": gens.context(rng), "d": rng.choice([0, 1, 5, -1, -2])})
    for _ in range(scale(10, 100)):
        b, a = gens.large_text_pair(rng, 300)
        p = gens.whole(gens.damaged(rng, b, a, ["x\n", "l7\n"]))
        cases.append({"k": "t", "_b": b, "_a": a, "_p": p, "c": rng.choice([10, 127, 128, 255]), "d": 3})
    for _ in range(scale(160, 1600)):        # of every size
        k, n, r = rng.choice("tty"), gens.any_context(rng), rng.random()
        if r < 0.25:
            n = n % 6
            b, a, p = gens.many(rng, gens.size(rng, 280), n)
        elif r < 0.5:
            b, a, p = gens.wide(rng, n)
        elif r < 0.7:
            b, a, p = gens.edges(rng, 600)
        else:
            b, a = gens.pieces(rng, gens.size(rng, 700), gens.size(rng, 300))
            p = rng.choice([b, a, b[gens.size(rng, 9):], ["s\n"] * gens.size(rng, 40) + b])
        if rng.random() < 0.5:
            a, b = b, a
        if k == "t":
            b, a, p = (gens.whole(gens.eol(rng, x)) for x in (b, a, p))
        elif r < 0.25:
            k = "t"
        else:
            b, a, p = gens.as_bytes(rng, b, a, p)
        cases.append({"k": k, "_b": b, "_a": a, "_p": p, "c": n, "d": rng.choice([0, 1, 5, -1, -2, gens.size(rng, 400), -gens.size(rng, 400)])})
    exe = build("exec_coord")["exec_coord"]
    recs = execute(exe, cases)
    t = validate("TraceCoord", recs)
    c.add_traces("coordinates and exchanged diffs", "exec_coord", "TraceCoord", cases, recs, t)
    return c.finish()
