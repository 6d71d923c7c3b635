from vlib import *
import difflib
import gens

NO_EOL = "\\ No newline at end of file\n"


def marked(m, l):
    return [m + l] if l.endswith("\n") else [m + l + "\n", NO_EOL]


def body(rng, b, a):
    out = []
    for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, b, a, autojunk=False).get_opcodes():
        old = [x for l in b[i1:i2] for x in marked("-", l)]
        new = [x for l in a[j1:j2] for x in marked("+", l)]
        if tag == "equal":
            out += [x for l in b[i1:i2] for x in marked(" ", l)]
        elif rng.random() < 0.5:
            out += old + new
        else:
            out += new + old
    return out


def number(rng, n):
    s = str(n)
    return "0" * rng.randint(1, 3) + s if rng.random() < 0.04 else s


def side(rng, st, n):
    if n == 1 and rng.random() < 0.7:
        return number(rng, st)
    return number(rng, st) + "," + number(rng, n)


def header(rng, bs, bl, as_, al):
    g = lambda: " " if rng.random() < 0.85 else rng.choice(["  ", "\t", " \t "])
    tail = rng.choice(["\n"] * 6 + [" fn main() {\n", " @@ -1 +1 @@\n", "\r\n", "\t\n", " \u00e9\n", "x\n"])
    return "@@" + g() + "-" + side(rng, bs, bl) + g() + "+" + side(rng, as_, al) + g() + "@@" + tail


def start(rng, n):
    k = rng.random()
    if n == 0:
        return rng.choice([0, 0, 1, 5, 700])
    if k < 0.6:
        return rng.randint(1, 40)
    if k < 0.8:
        return gens.size(rng, 999999999)
    return rng.choice([1, 1, 9, 10, 99, 255, 256, 257, 65536, 65537, 999999999])


def clump(rng):
    while True:
        k = rng.random()
        if k < 0.02:                                     # of every size
            if rng.random() < 0.5:
                b, a = gens.pieces(rng, gens.size(rng, 700), gens.size(rng, 400))
            else:
                b, a, _ = gens.wide(rng, gens.size(rng, 300))
            b, a = gens.whole(gens.eol(rng, b)), gens.whole(gens.eol(rng, a))
        elif k < 0.06:                                     # long context, long sides
            n = rng.choice([254, 255, 256, 257, 300, 511, 513])
            lead, trail = gens.distinct(rng.choice([0, 3, n]), "h"), gens.distinct(rng.choice([0, 3, n]), "t")
            x, y = gens.text_pair(rng, 4)
            b, a = gens.whole(lead + x + trail), gens.whole(lead + y + trail)
        elif k < 0.14:                                   # sides of many lines
            b, a, _ = gens.inflated(rng, rng.choice([10, 30, 130]), 300)
            b, a = gens.whole(gens.eol(rng, b)), gens.whole(gens.eol(rng, a))
        elif k < 0.3:                                    # lines that look like something else
            b, a = gens.pair(rng, rng.sample(gens.SYNTAX, rng.randint(2, 9)), 10)
            b, a = gens.whole(gens.eol(rng, b)), gens.whole(gens.eol(rng, a))
        else:
            b, a = gens.text_pair(rng, rng.choice([2, 4, 8, 14]))
        if b != a and b + a:
            return b, a


HEADERS = ["@@ -1 +1 @\n", "@ -1 +1 @@\n", "@@ -1 +1\n", "@@ -1 1 @@\n", "@@ 1 +1 @@\n", "@@ +1 -1 @@\n", "@@-1 +1 @@\n", "@@ -1+1 @@\n",
           "@@ -1 +1@@\n", "@@ -, +1 @@\n", "@@ -1, +1 @@\n", "@@ -1,1, +1 @@\n", "@@ -1,-1 +1 @@\n", "@@ -a +1 @@\n", "@@ -1 +1,x @@\n",
           " @@ -1 +1 @@\n", "@@@ -1 +1 @@@\n", "*** 1,3 ****\n", "--- a\n", "+++ b\n", "\n", "", "@@\n", "@@ -1,2,3 +1 @@\n", "@@ - 1 + 1 @@\n",
           "@@ -1 +1 +1 @@\n", "@@ --1 +1 @@\n", "@@ -1 ++1 @@\n", "@@ -0x1 +1 @@\n", "@@ -1.0 +1 @@\n", "diff\n", "x@@ -1 +1 @@\n"]
HUGE = ["4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551614",
        "18446744073709551615", "18446744073709551616", "99999999999999999999", "100000000000000000000", "0" * 30 + "1",
        "0" * 30 + "18446744073709551616"]


def parse_case(rng):
    b, a = clump(rng)
    bl, al = len(b), len(a)
    ls = body(rng, b, a)
    k = rng.random()
    h = None
    if k < 0.45:
        pass
    elif k < 0.5:
        h = rng.choice(HEADERS)
    elif k < 0.56:                                       # enormous numbers
        n = [str(start(rng, bl)), str(bl), str(start(rng, al)), str(al)]
        n[rng.randrange(4)] = rng.choice(HUGE)
        h = "@@ -%s,%s +%s,%s @@\n" % tuple(n)
    elif k < 0.66:                                       # lengths that are not the body's
        if rng.random() < 0.5:
            bl = max(0, bl + rng.choice([-2, -1, 1, 2]))
        else:
            al = max(0, al + rng.choice([-2, -1, 1, 2]))
    else:
        for _ in range(rng.choice([1, 1, 1, 2])):
            if not ls:
                break
            at = rng.randrange(len(ls))
            q = rng.random()
            if ls[at].startswith("\\"):
                if q < 0.4:
                    del ls[at]
                elif q < 0.6:
                    ls[at] = rng.choice(["\\\n", "\\ Kein Zeilenumbruch\n", "\\ No newline", "\\no newline\n"])
            elif q < 0.25:
                del ls[at]
            elif q < 0.4:
                ls.insert(at, rng.choice("+- ") + rng.choice(["x\n", "\n", "\u00e9\n"]))
            elif q < 0.55:
                ls[at] = rng.choice("+- ") + ls[at][1:]
            elif q < 0.75:
                ls[at] = rng.choice(["\n", "x\n", "@@ -1 +1 @@\n", "*\n", "\u00e9x\n", "\tx\n", "!x\n", "--- a\n", "+++ b\n", "\r\n", "0\n"])
            elif q < 0.88:
                ls = ls[:at]
            elif at + 1 == len(ls) or not ls[at + 1].startswith("\\"):
                ls.insert(at + 1, NO_EOL)                # a marker in the middle
        ls = [l for n, l in enumerate(ls) if not (n and l[:1] == "\\" and ls[n - 1][:1] == "\\")]
    if bl + al == 0:
        bl = 1
    if h is None:
        h = header(rng, start(rng, bl), bl, start(rng, al), al)
    ends = rng.random()
    suffix = [] if ends < 0.5 else rng.sample(["@@ -9 +9 @@\n", " x\n", "-x\n", "+y\n", "--- a\n", "\n", "junk\n"], rng.randint(1, 3))
    prefix = rng.sample(["--- a\n", "+++ b\n", "junk\n", "@@ -1 +1 @@\n", "-x\n", "+y\n", "\n"], rng.randint(0, 4))
    if rng.random() < 0.03:
        prefix = prefix + ["junk\n"] * gens.size(rng, 700)
    if rng.random() < 0.03:
        suffix = suffix + rng.choice([[" x\n"], ["-x\n"], ["+y\n"], ["\n"], ["@@ -9 +9 @@\n"]]) * gens.size(rng, 300)
    lines = prefix + [h] + ls + suffix
    text = "".join(lines)
    if rng.random() < 0.05 and text.endswith("\n"):
        text = text[:-1]
    n = text.count("\n") + (not text.endswith("\n") and text != "")
    at = len(prefix) if rng.random() < 0.9 else rng.randint(0, n)
    return {"k": "parse", "_text": text, "_at": min(at, n)}




def c18(pid):
    c = Check(pid)
    rng = c.rng
    cfg = open(f"{SPEC}/UnifiedMachine.cfg").read()
    c.add_design(design("UnifiedMachine", cfg.replace("MAXLEN = 3", "MAXLEN = 4") if THOROUGH else cfg),
                 "clumps of all small diffs, written, damaged in one line, parsed line by line")
    cases = [parse_case(rng) for _ in range(scale(5000, 60000))]
    # every header of a small set of shapes
    for gap in ("", " ", "\t", "  "):
        for bl in ("", ",0", ",1", ",2", ","):
            for al in ("", ",0", ",1", ",2", ","):
                if bl == al == ",0":
                    continue
                for ls in ("-x\n+y\n", "-x\n", "+y\n", " x\n-y\n+z\n", "-x\n+y\n+z\n", "-x\n-y\n+z\n", "-x\n-y\n"):
                    cases.append({"k": "parse", "_text": f"@@{gap}-3{bl}{gap}+4{al}{gap}@@\n{ls}", "_at": 0})
    exe = build("exec_unified")["exec_unified"]
    recs = execute(exe, cases)
    t = validate("TraceParse", recs)
    c.add_traces("parsed clumps", "exec_unified", "TraceParse", cases, recs, t)
    c.notes["results"] = {k: sum(1 for r in recs if r and r.get("res") == k) for k in ("clump", "none", "error")}
    return c.finish()


def c19(pid):
    c = Check(pid)
    rng = c.rng
    cfg = open(f"{SPEC}/UnifiedMachine.cfg").read()
    c.add_design(design("UnifiedMachine", cfg.replace("MAXLEN = 3", "MAXLEN = 4") if THOROUGH else cfg),
                 "clumps of all small diffs, written, damaged in one line, parsed line by line")
    cases = []
    for n in range(scale(2500, 25000)):
        b, a = gens.text_pair(rng, rng.choice([3, 8, 14]))
        cases.append({"k": "emit", "_b": b, "_a": a, "c": gens.context(rng)})
    for n in range(scale(150, 1500)):
        k = gens.context(rng)
        b, a = gens.spaced(rng, rng.choice([0, 1, 2 * k - 1, 2 * k, 2 * k + 1]) % 20, k)
        cases.append({"k": "emit", "_b": gens.whole(gens.eol(rng, b)), "_a": gens.whole(gens.eol(rng, a)), "c": k})
    for n in range(scale(25, 250)):
        b, a = gens.large_text_pair(rng, rng.choice([260, 300, 600]))
        cases.append({"k": "emit", "_b": gens.whole(b), "_a": gens.whole(a), "c": rng.choice([0, 3, 120, 127, 128, 200, 255])})
    for n in range(scale(300, 3000)):
        b, a, _ = gens.inflated(rng, rng.choice([10, 30, 130, 520]), 900)
        if n % 2:
            b, a = gens.pair(rng, rng.sample(gens.SYNTAX, rng.randint(2, 9)), 12)
        cases.append({"k": "emit", "_b": gens.whole(gens.eol(rng, b)), "_a": gens.whole(gens.eol(rng, a)), "c": gens.context(rng)})
    for n in range(scale(260, 2600)):            # of every size, with contexts of every size
        k, r = gens.any_context(rng), rng.random()
        if r < 0.35:
            b, a = gens.pieces(rng, gens.size(rng, 900), gens.size(rng, 500))
        elif r < 0.55:
            k = k % 6
            b, a, _ = gens.many(rng, gens.size(rng, 280), k)
        elif r < 0.75:
            b, a, _ = gens.wide(rng, k)
        elif r < 0.85:
            b, a, _ = gens.edges(rng, 900)
        else:
            b, a = gens.spaced(rng, max(0, rng.choice([2 * k, k]) + rng.choice([-1, 0, 1, 2])), k)
        if rng.random() < 0.5:
            a, b = b, a
        if r >= 0.35 and rng.random() < 0.2:     # further down
            top = gens.distinct(gens.size(rng, 1200), "T")
            b, a = top + b, top + a
        cases.append({"k": "emit", "_b": gens.whole(gens.eol(rng, b)), "_a": gens.whole(gens.eol(rng, a)), "c": k})
    exe = build("exec_unified")["exec_unified"]
    recs = execute(exe, cases)
    t = validate("TraceEmit", recs)
    c.add_traces("written clumps", "exec_unified", "TraceEmit", cases, recs, t)
    c.notes["clumps"] = sum(len(r.get("us", [])) for r in recs if r)
    return c.finish()


PATHS = ["a", "a/b.c", "/abs/x", "/dev/null", "b/\u00e9\u65e5.txt", "-", "---", "+++", "a-b", "a+b", "2024-01-02", "x.orig", "..", "@@", "\\", "a,b",
         "a:b", "C:\\x", "'q'", "a\"b", "\U0001f600", "a" * 300]
QUOTED = ["a b", "a", " ", "a\tb", "a  b/c d", "x ", " x", "--- a", "\u00e9 \u65e5", "2024-01-02 03:04:05 +0000"]
DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def stamp(rng):
    d = lambda n: "".join(rng.choice("0123456789") for _ in range(n))
    k = rng.random()
    zone = rng.choice(["+", "-"]) + d(4)
    if k < 0.4:
        return f"{d(4)}-{d(2)}-{d(2)} {d(2)}:{d(2)}:{d(2)} {zone}"
    if k < 0.7:
        return f"{d(4)}-{d(2)}-{d(2)} {d(2)}:{d(2)}:{d(2)}.{d(9)} {zone}"
    return f"{rng.choice(DAYS)} {rng.choice(MONTHS)} {d(2)} {d(2)}:{d(2)}:{d(2)} {d(4)} {zone}"


def mutate(rng, s):
    if not s:
        return s
    at = rng.randrange(len(s))
    q = rng.random()
    if q < 0.4:
        return s[:at] + s[at + 1:]
    if q < 0.7:
        return s[:at] + rng.choice("0aA-+:. _9z\"") + s[at + 1:]
    return s[:at] + rng.choice("0aA-+:. _9z\"") + s[at:]


def path_line(rng):
    mark = rng.choice(["---", "+++"])
    q = rng.random() < 0.4
    path = rng.choice(QUOTED + [p for p in PATHS if '"' not in p]) if q else rng.choice(PATHS)
    sep = rng.choice([" ", "\t", "\t", "  ", " \t"])
    st = stamp(rng) if rng.random() < 0.65 else ""
    tail = rng.choice(["\n"] * 5 + ["\r\n", " \n", " more\n", "\tx\n", ""])
    k = rng.random()
    if rng.random() < 0.04:
        n = gens.size(rng, 5000)
        r = rng.random()
        path = (rng.choice(["d/", "x", "\u00e9", "a b"]) * n)[:n] if r < 0.5 else path
        sep = sep * min(n, 300) if 0.4 < r < 0.7 else sep
        tail = " " + "more" * n + "\n" if r > 0.6 else tail
        q = q or " " in path
    if k < 0.45:
        pass
    elif k < 0.75:
        st = mutate(rng, st) if st else rng.choice(["2024", "yesterday", "2024-01-02", "Mon Jan 01", "+0000", "(revision 3)", "12:00:00"])
    elif k < 0.9:
        mark = rng.choice(["--", "----", "-- -", "+++-", "++", "++++", "***", " ---", " +++", "-+-", "+--", "===", "\u2014\u2014\u2014", "@@", "", "---\t"])
    else:
        return rng.choice(["--- \n", "---\n", "--- \"\" \n", "--- \"a\n", "--- \"a b\n", "--- a\"b c\" d\n", "+++ \"a b\"c d\n", "+++ \"\"\"\" x\n", "\n", "",
                           "-- a\n", "--- \"a\"\"b\" c\n", "+++\n", "+++ \n", "+++ \"\" x\n", "+++ \"a b\n", "-a\n", "+a\n", " a\n", "@@ -1 +1 @@\n",
                           "diff --git a/x b/x\n", "index 0..1\n", "--- \t\n"])
    return mark + " " + (f'"{path}"' if q else path) + sep + st + tail


def c20(pid):
    c = Check(pid)
    rng = c.rng
    c.add_design(design("PathMachine"), "path lines put together, with one character of the time stamp broken")
    cases = []
    for _ in range(scale(8000, 120000)):
        cases.append({"k": "path", "_line": path_line(rng)})
    for s in ("2024-01-02 03:04:05 +0000", "2024-01-02 03:04:05.123456789 -1130", "Mon Jan 02 03:04:05 2024 +0000"):
        for at in range(len(s)):                  # every one character change of kind
            for ch in "0aA-+:. _":
                cases.append({"k": "path", "_line": f"--- a\t{s[:at]}{ch}{s[at + 1:]}\n"})
            cases.append({"k": "path", "_line": f"+++ \"a b\" {s[:at]}\n"})
    exe = build("exec_unified")["exec_unified"]
    recs = execute(exe, cases)
    t = validate("TracePath", recs)
    c.add_traces("path lines", "exec_unified", "TracePath", cases, recs, t)
    c.notes["recognised"] = {"before": sum(1 for r in recs if r and r.get("before")), "after": sum(1 for r in recs if r and r.get("after")),
                             "stamped": sum(1 for r in recs if r and any(x and x[1] for x in (r.get("before"), r.get("after"))))}
    return c.finish()


def run(pid):
    return {"C18": c18, "C19": c19, "C20": c20}[pid](pid)
