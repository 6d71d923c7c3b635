"""Seeded generators of cases. Text is a list of lines, bytes a list of numbers."""

PLAIN = ["%s\n" % c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"]
WEIRD = ["\n", "\r\n", "x\r\n", "x\n", "x \n", "\tx\n", "\u00e9\n", "e\u0301\n", "\u65e5\u672c\u8a9e\n", "\U0001f600\n",
         "\\ No newline at end of file\n", "-a\n", "+a\n", " a\n", "a\n", "@@ -1 +1 @@\n", "--- a\n", "+++ b\n",
         "<<<<<<<\n", "=======\n", ">>>>>>>\n", "\0\n", "a\0b\n", "\u2028x\n", "\u0085x\n", "\ufeffx\n", "\"q\"\n",
         "\\n\n", "\\\n", "a\rb\n", "\x0b\n", "\x0c\n", "\x1a\n", "x\x1a", "-- \n", "\r", "x\r", "\x1b[0m\n", "\x7f\n", "\uffff\n"]

SYNTAX = ["- \n", "-\n", "+ \n", "+\n", "-- \n", "++ \n", "-- a\n", "++ b\n", " \n", "  \n", "\n", "@@ -1 +1 @@\n", "@ -1,2 +1,2 @@\n",
          " @@ -1 +1 @@\n", "\\\n", "\\ No newline at end of file\n", " No newline at end of file\n", "--- a\n", "+++ b\n", "*** a\n",
          "diff --git a/a b/b\n", "index 1..2\n", "From x\n", "x\n", "y\n", "\t\n", "-x\n", "+x\n", "Only in a: b\n"]


def alphabet(rng):
    k = rng.random()
    if rng.random() < 0.04:
        return rng.sample(SYNTAX, rng.randint(2, 8))
    if rng.random() < 0.06:
        if rng.random() < 0.5:
            return ["%s\r\n" % c for c in "abcd"[:rng.randint(1, 4)]] + ["\r\n"]
        return alike(rng, rng.choice([30, 260, 600]))
    if k < 0.35:
        return PLAIN[:rng.randint(1, 3)]
    if k < 0.6:
        return PLAIN[:rng.randint(4, 10)]
    if k < 0.8:
        return rng.sample(WEIRD, rng.randint(2, 8))
    if k < 0.9:
        return PLAIN[:3] + rng.sample(WEIRD, 3)
    return PLAIN


def byte_alphabet(rng):
    k = rng.random()
    if k < 0.4:
        return [0, 255][:rng.randint(1, 2)] + ([10] if rng.random() < 0.3 else [])
    if k < 0.7:
        return rng.sample(range(256), rng.randint(3, 8))
    return list(range(256))


def seq(rng, alpha, n):
    if rng.random() < 0.15 and n > 1:       # a repeated pattern
        p = [rng.choice(alpha) for _ in range(rng.randint(1, max(1, n // 2)))]
        return (p * n)[:n]
    return [rng.choice(alpha) for _ in range(n)]


def edit(rng, s, alpha, k=1):
    s = list(s)
    for _ in range(k):
        at = rng.randint(0, len(s))
        n = min(len(s) - at, rng.choice([0, 1, 1, 1, 2, 3]))
        op = rng.random()
        if op < 0.3:
            s[at:at] = [rng.choice(alpha) for _ in range(rng.choice([1, 1, 2, 3]))]
        elif op < 0.55:
            del s[at:at + n]
        elif op < 0.85:
            s[at:at + n] = [rng.choice(alpha) for _ in range(rng.choice([1, 1, 2]))]
        elif op < 0.93:                      # move a block
            blk = s[at:at + n]
            del s[at:at + n]
            to = rng.randint(0, len(s))
            s[to:to] = blk
        else:                                # duplicate a block
            s[at:at] = s[at:at + n]
    return s


def eol(rng, lines):
    """sometimes without final end of line"""
    lines = list(lines)
    if lines and lines[-1].endswith("\r\n") and rng.random() < 0.3:
        return lines + ["\x1a"]
    if lines and rng.random() < 0.35 and lines[-1].endswith("\n") and len(lines[-1]) > 1:
        lines[-1] = lines[-1][:-1]
    return lines


def whole(lines):
    """lines without end of line in the middle get one"""
    return [l if l.endswith("\n") or n == len(lines) - 1 else l + "\n" for n, l in enumerate(lines)]


def pair(rng, alpha, big=12):
    k = rng.random()
    n = rng.randint(0, big)
    b = seq(rng, alpha, n)
    if k < 0.08:
        a = list(b)
    elif k < 0.2:
        a = seq(rng, alpha, rng.randint(0, big))
    elif k < 0.24:
        b, a = [], seq(rng, alpha, rng.randint(0, 4))
    elif k < 0.28:
        a = []
    elif k < 0.36:
        a = b + seq(rng, alpha, rng.randint(1, 3)) if rng.random() < 0.5 else seq(rng, alpha, rng.randint(1, 3)) + b
    else:
        a = edit(rng, b, alpha, rng.choice([1, 1, 2, 2, 3, 4, 6]))
    return b, a


def text_pair(rng, big=12):
    b, a = pair(rng, alphabet(rng), big)
    return whole(eol(rng, b)), whole(eol(rng, a))


def byte_pair(rng, big=16):
    return pair(rng, byte_alphabet(rng), big)


def distinct(n, tag="l"):
    return ["%s%d\n" % (tag, i) for i in range(n)]


def large_text_pair(rng, n):
    """mostly distinct lines, changes far apart and near boundaries"""
    k = rng.random()
    b = distinct(n)
    if k < 0.5:
        for i in range(n):
            if rng.random() < 0.3:
                b[i] = rng.choice(["\n", "}\n", "x\n"])
    a = list(b)
    for _ in range(rng.randint(1, 6)):
        at = rng.choice([0, 1, len(a) // 2, len(a) - 1, len(a), rng.randint(0, len(a))])
        at = max(0, min(at, len(a)))
        op = rng.random()
        if op < 0.4:
            a[at:at] = ["new%d\n" % rng.randint(0, 99) for _ in range(rng.choice([1, 3, 40]))]
        elif op < 0.7:
            del a[at:at + rng.choice([1, 2, 50])]
        else:
            a[at:at + 2] = ["chg%d\n" % rng.randint(0, 99)]
    return eol(rng, b), eol(rng, a)


def popular_pair(rng):
    """sequences in which some items occur a great many times"""
    k = rng.random()
    n = rng.choice([30, 60, 120, 130, 260])
    if k < 0.3:                               # one item over and over
        b = ["x\n"] * n
        a = ["x\n"] * rng.choice([n, n - 3, n // 2, n + 7])
    elif k < 0.6:                             # blank lines between others
        b = ["\n" if i % 2 else "l%d\n" % i for i in range(n)]
        a = list(b)
    elif k < 0.8:
        p = ["p%d\n" % rng.randrange(3) for _ in range(rng.randint(2, 5))]
        b = (p * n)[:n]
        a = (p * n)[:rng.choice([n, n // 2])]
    else:
        b = ["p%d\n" % rng.randrange(2) for _ in range(n // 2)]
        a = ["p%d\n" % rng.randrange(2) for _ in range(n // 2)]
    for _ in range(rng.randint(1, 4)):
        at = rng.choice([0, len(a) // 2, len(a) - 1, rng.randint(0, len(a))])
        a[at:at + rng.choice([0, 1, 9])] = ["new%d\n" % rng.randrange(9)]
    return b, a


def context(rng):
    return rng.choice([0, 0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 7])


def spaced(rng, gap, c):
    """two changes with exactly gap unchanged lines between them"""
    lead = distinct(rng.choice([0, 1, c, c + 1, c + 5, 300]), "h")
    mid = distinct(gap, "m")
    tail = distinct(rng.choice([0, 1, c, c + 1, c + 5, 300]), "t")
    def ch():
        k = rng.random()
        if k < 0.33:
            return ["old\n"], ["new\n"]
        if k < 0.66:
            return [], ["new\n"]
        return ["old\n"], []
    o1, n1 = ch()
    o2, n2 = ch()
    o2 = [x.upper() for x in o2]
    n2 = [x.upper() for x in n2]
    return lead + o1 + mid + o2 + tail, lead + n1 + mid + n2 + tail


# ------------------------------------------------------------ files to patch

def damaged(rng, b, a, alpha):
    """a file near b or a: partly patched, displaced, truncated, edited ..."""
    import difflib
    k = rng.random()
    if k < 0.05:
        return list(b)
    if k < 0.12:
        return list(a)
    if k < 0.45:                              # each change done or not done
        sm = difflib.SequenceMatcher(None, b, a, autojunk=False)
        p = []
        for tag, i1, i2, j1, j2 in sm.get_opcodes():
            if tag == "equal" or rng.random() < 0.5:
                p += b[i1:i2]
            elif rng.random() < 0.92:
                p += a[j1:j2]
        base = p
    elif k < 0.65:
        base = list(b)
    elif k < 0.8:
        base = list(a)
    elif k < 0.86:
        return seq(rng, alpha, rng.randint(0, 14))
    elif k < 0.9:
        return (list(b) + list(a)) if rng.random() < 0.5 else (list(a) + list(b))
    elif k < 0.93:
        base = list(b) + list(b)
    else:
        base = list(b) if rng.random() < 0.5 else list(a)
    r = rng.random()
    if r < 0.2:                               # displace
        base = seq(rng, alpha, rng.randint(1, 6)) + base
    elif r < 0.3:
        base = base[rng.randint(0, len(base)):]
    elif r < 0.42:
        base = base[:rng.randint(0, len(base))]
    elif r < 0.85:
        base = edit(rng, base, alpha, rng.randint(1, 4))
    return base


def scenario(rng):
    """b, a, p for applying: few or many clumps, repeated or distinct lines, damage
    of the context of changes, displaced parts"""
    k = rng.random()
    if k < 0.45:
        alpha = alphabet(rng)
        b, a = pair(rng, alpha, rng.choice([4, 8, 12, 20]))
        return b, a, damaged(rng, b, a, alpha)
    n = rng.choice([8, 12, 20, 30, 45])
    alpha = PLAIN[:3] + ["}\n", "\n"]
    b = distinct(n)
    if k < 0.75:
        for i in range(n):
            if rng.random() < 0.4:
                b[i] = rng.choice(alpha)
    a = edit(rng, b, alpha + ["new\n"], rng.randint(1, 5))
    if rng.random() < 0.35:
        return b, a, damaged(rng, b, a, alpha)
    # damage next to the changes
    p = list(b) if rng.random() < 0.6 else list(a)
    other = a if p == b else b
    spots = [i for i in range(len(p)) if i >= len(other) or p[i] != other[i]][:1]
    spots += [i for i in range(len(p)) if p[i] not in other]
    for _ in range(rng.randint(1, 3)):
        at = (rng.choice(spots) if spots else rng.randint(0, len(p))) + rng.choice([-4, -3, -2, -2, -1, 1, 2, 2, 3, 4])
        at = max(0, min(at, len(p)))
        op = rng.random()
        if op < 0.5 and at < len(p):
            p[at] = "damage\n"
        elif op < 0.75:
            p[at:at] = ["extra\n"] * rng.randint(1, 3)
        elif at < len(p):
            del p[at]
    if rng.random() < 0.4:                    # displace everything from some line on
        at = rng.randint(0, len(p))
        if rng.random() < 0.6:
            p[at:at] = ["moved%d\n" % i for i in range(rng.randint(1, 9))]
        else:
            del p[at:at + rng.randint(1, 4)]
    return b, a, p


def campaign(rng):
    """several changes, and a file in which each is undone, done or spoilt, its context
    damaged, its place shifted, and copies of it stand nearby. -> b, a, p, c"""
    c = rng.choice([0, 1, 2, 3, 3, 4, 5, 6])
    k = rng.randint(2, 5)
    common = ["}\n", "\n", "x\n"]
    plain = rng.random() < 0.6
    uid = [0]

    def gap(n):
        r = []
        for _ in range(n):
            uid[0] += 1
            r.append("g%d\n" % uid[0] if plain or rng.random() < 0.5 else rng.choice(common))
        return r

    gaps = [gap(rng.choice([0, 1, c, c + 2, 2 * c]))]
    changes = []
    for i in range(k):
        o = ["o%d\n" % i] * rng.choice([0, 1, 1, 1, 2])
        n = ["n%d\n" % i] * rng.choice([0, 1, 1, 1, 2] if o else [1, 2])
        changes.append((o, n))
        gaps.append(gap(rng.choice([2 * c, 2 * c + 1, 2 * c + 2, 2 * c + 4, 2 * c + 7, 3 * c + 9, max(0, 2 * c - 1)])))
    if rng.random() < 0.3:
        gaps[-1] = gap(rng.randint(0, c))
    b, a, p = list(gaps[0]), list(gaps[0]), []
    done = rng.random()                       # how likely a change is done already
    calm = rng.random() < 0.5
    g = list(gaps[0])
    for i, (o, n) in enumerate(changes):
        b += o + gaps[i + 1]
        a += n + gaps[i + 1]
    pre = list(gaps[0])
    for i in range(k + 1):
        g = list(gaps[i])
        # damage near the ends of the gap
        for side in (0, 1):
            if g and c and rng.random() < (0.15 if calm else 0.35):
                for _ in range(rng.choice([1, 1, 2])):
                    d = rng.randint(0, min(len(g), c + 1) - 1)
                    g[d if side == 0 else len(g) - 1 - d] = "damage%d\n" % rng.randrange(3)
        # a shift in the middle
        if rng.random() < (0.35 if calm else 0.6):
            at = rng.choice([0, len(g) // 2, len(g) // 2, len(g)])
            if rng.random() < 0.6:
                g[at:at] = ["s\n"] * rng.choice([1, 1, 2, 3, 4, 5, 6, 9])
            else:
                del g[at:at + rng.choice([1, 1, 2, 3])]
        # a copy of a change with some of its context
        if rng.random() < 0.25:
            j = rng.randrange(k)
            t = rng.randint(0, c + 1)
            copy = gaps[j][len(gaps[j]) - t:] + changes[j][rng.random() < 0.4] + gaps[j + 1][:rng.randint(0, c + 1)]
            at = rng.choice([0, len(g) // 2, len(g)])
            g[at:at] = copy
        p += g
        if i < k:
            r = rng.random()
            p += ["spoilt\n"] if r < 0.12 else changes[i][1] if r < 0.12 + 0.88 * done else changes[i][0]
    return b, a, p, c


# ------------------------------------------------------------ sizes

SIZES = [1, 1, 1, 2, 5, 9, 10, 30, 60, 130, 260, 520, 1100]


def inflate(rng, most, *seqs):
    """every item becomes a block of lines: the same structure, but large"""
    sizes = [s for s in SIZES if s <= most]
    blocks = {}
    for s in seqs:
        for x in s:
            if x not in blocks:
                n = rng.choice(sizes)
                t = "" if rng.random() < 0.85 else "same"
                blocks[x] = ["b%d.%s\n" % (len(blocks), t or i) for i in range(n)]
    return [[l for x in s for l in blocks[x]] for s in seqs]


def inflated(rng, most, lines=2500):
    """b, a, p: few items, many lines"""
    while True:
        alpha = ["%d" % i for i in range(rng.choice([3, 5, 8]))]
        b, a = pair(rng, alpha, rng.choice([3, 6, 9]))
        p = damaged(rng, b, a, alpha)
        b, a, p = inflate(rng, most, b, a, p)
        if max(len(b), len(a), len(p)) <= lines:
            break
    k = rng.random()
    if k < 0.5 and p:                            # and a little damage
        for _ in range(rng.randint(1, 3)):
            at = rng.randint(0, len(p))
            p[at:at + rng.choice([0, 1, 2])] = ["damage\n"] * rng.choice([0, 1, 3])
    return b, a, p


def far(rng, dist):
    """the place of the change is dist lines from where it is expected, and copies of it elsewhere"""
    c = rng.choice([1, 2, 3])
    n = 2 * dist + 60
    b = distinct(n)
    at = rng.choice([n // 2, dist + 20, n - dist - 20])
    a = list(b)
    a[at:at + rng.choice([0, 1, 2])] = ["new\n"] * rng.choice([0, 1, 2])
    if a == b:
        a[at] = "new\n"
    p = list(b) if rng.random() < 0.75 else list(a)
    block = p[at - c:at + c + 2]
    p[at - c:at + c + 2] = ["gone\n"] * rng.choice([0, len(block), 3])
    spots = [at - dist] if rng.random() < 0.5 else [at + dist]
    if rng.random() < 0.4:
        spots = [at - dist, at + dist + rng.choice([-1, 0, 1])]
    for s in sorted(spots, reverse=True):
        s = max(0, min(len(p), s))
        p[s:s] = block
    return b, a, p, c


def alike(rng, n=600):
    """lines that differ only at the far end of a long common part"""
    common = "p" * n
    k = rng.random()
    if k < 0.4:
        return ["%s%d\n" % (common, i) for i in range(4)] + ["%s\n" % common]
    if k < 0.7:
        return ["%d%s\n" % (i, common) for i in range(4)]
    return ["%s%d%s\n" % (common, i, common) for i in range(3)] + ["%s%d\n" % (common, i) for i in range(2)] + ["s\n"]


def chain(rng, c):
    """several changes with about twice the context between them"""
    b, a = [], []
    for i in range(rng.randint(3, 5)):
        g = ["g%d.%d\n" % (i, j) for j in range(rng.choice([0, c, 2 * c - 1, 2 * c, 2 * c + 1, 2 * c + 5] if i else [0, c, c + 3]))]
        k = rng.random()
        b += g + (["o%d\n" % i] if k < 0.7 else [])
        a += g + (["n%d\n" % i] if k > 0.3 else [])
    g = ["t%d\n" % j for j in range(rng.choice([0, 1, c, c + 1]))]
    return b + g, a + g


def nested(rng, depth):
    """common runs within the parts left and right of longer common runs"""
    uid = [0]

    def noise():
        uid[0] += 1
        return ["z%d.%d\n" % (uid[0], i) for i in range(rng.choice([0, 0, 1, 1, 2]))]

    def part(d):
        if d == 0 or rng.random() < 0.12:
            uid[0] += 1
            c = ["c%d\n" % uid[0]] * rng.choice([0, 1, 1, 1])
            return noise() + c + noise(), noise() + c + noise()
        lb, la = part(d - 1)
        rb, ra = part(d - 1)
        uid[0] += 1
        run = ["r%d.%d\n" % (uid[0], i) for i in range(d + rng.choice([0, 1, 1, 2]))]
        return lb + noise() + run + noise() + rb, la + noise() + run + noise() + ra

    return part(depth)


def hopeless(rng, n):
    """a large change, and a file in which it cannot be found"""
    ctx = distinct(rng.randint(0, 8), "k")
    old = ["old%d\n" % i for i in range(rng.choice([0, 1, 3, n]))]
    new = ["new%d\n" % i for i in range(rng.choice([n, n, 1]) if len(old) == n else n)]
    at = rng.randint(0, len(ctx))
    b, a = ctx[:at] + old + ctx[at:], ctx[:at] + new + ctx[at:]
    p = ["p%d\n" % i for i in range(rng.randint(0, 12))]
    p[rng.randint(0, len(p)):0] = rng.choice([[], ctx[:2], old[:1], new[:2], old[1:]])
    if rng.random() < 0.3:
        b, a = a, b
    return b, a, p


def spine(rng, depth):
    """ever shorter common runs, each in what is left at one side of the one before"""
    uid = [0]

    def noise():
        uid[0] += 1
        return ["z%d.%d\n" % (uid[0], i) for i in range(rng.choice([0, 0, 0, 1, 2]))]

    way = rng.random()
    b, a = noise(), noise()
    for d in range(1, depth + 1):
        uid[0] += 1
        run = ["r%d.%d\n" % (uid[0], i) for i in range(d)]
        uid[0] += 1
        c = ["c%d\n" % uid[0]] * rng.choice([0, 1, 1])          # on the other side
        ob, oa = noise() + c + noise(), noise() + c + noise()
        if rng.random() < way:
            b, a = b + noise() + run + ob, a + noise() + run + oa
        else:
            b, a = ob + run + noise() + b, oa + run + noise() + a
    return b, a


# ------------------------------------------------------------ across the sizes

ROUND = [10, 12, 16, 20, 24, 25, 32, 40, 48, 50, 60, 64, 80, 100, 120, 128, 150, 200, 250, 255, 256, 300, 400, 500, 512, 600,
         750, 800, 1000, 1024, 1500, 2000, 2048, 2500, 3000, 4000, 4096, 5000, 8000, 8192, 10000, 16384, 20000, 32768, 50000, 65535]


def size(rng, most):
    """1 .. most, every order of magnitude as likely as any other"""
    import math
    k = rng.random()
    if k < 0.5:
        n = int(math.exp(rng.uniform(0, math.log(most + 1))))
    elif k < 0.75:
        n = (1 << rng.randint(0, most.bit_length() - 1)) + rng.choice([-2, -1, 0, 1, 1, 2])
    else:
        n = rng.choice([x for x in ROUND if x <= most] or [1]) + rng.choice([-1, 0, 1, 1, 3])
    return max(1, min(most, n))


def tame(data, most=900):
    """data, cut short if a byte diff of it would take seconds"""
    from collections import Counter
    while data and max(Counter(data).values()) > most:
        data = data[:len(data) * 2 // 3]
    return data


def pieces(rng, total, most):
    """b and a made of common, own, moved and repeated pieces of every size"""
    uid = [0]
    popular = ["\n", "}\n", "x\n"][:rng.randint(1, 3)]
    salt = rng.choice([0, 0, 0, 0.1, 0.5])      # popular lines among the others
    weights = [rng.random() ** 2 for _ in range(7)]
    weights[0] += 0.5

    def new(n):
        uid[0] += 1
        return [rng.choice(popular) if salt and rng.random() < salt else "u%d.%d\n" % (uid[0], i) for i in range(n)]

    b, a, old, later_b, later_a = [], [], [], [], []
    while max(len(b), len(a)) < total:
        n = size(rng, min(most, max(1, total - max(len(b), len(a)))))
        k = rng.choices(range(7), weights)[0]
        if k == 0:                               # common
            r = new(n)
            b, a = b + r, a + r
            old.append(r)
        elif k == 1:
            b = b + new(n)
        elif k == 2:
            a = a + new(n)
        elif k == 3:                             # replaced
            b, a = b + new(n), a + new(size(rng, most))
        elif k == 4:                             # moved
            r = new(n)
            if rng.random() < 0.5:
                b, later_a = b + r, later_a + [r]
            else:
                a, later_b = a + r, later_b + [r]
        elif k == 5 and old:                     # again
            r = rng.choice(old)
            i = rng.randint(0, len(r))
            r = rng.choice([r, r[i:], r[:i]])
            w = rng.random()
            b, a = b + (r if w < 0.7 else []), a + (r if w > 0.3 else [])
        else:
            r = [rng.choice(popular)] * min(n, 40)
            w = rng.random()
            b, a = b + (r if w < 0.7 else []), a + (r if w > 0.3 else [])
        if later_a and rng.random() < 0.3:
            a = a + later_a.pop(rng.randrange(len(later_a)))
        if later_b and rng.random() < 0.3:
            b = b + later_b.pop(rng.randrange(len(later_b)))
    for r in later_a:
        a = a + r
    for r in later_b:
        b = b + r
    return b, a


def as_bytes(rng, *seqs):
    """every line becomes one byte or two (popular ones one)"""
    code = {}
    res = []
    for s in seqs:
        r = []
        for x in s:
            if x not in code:
                code[x] = [rng.randrange(256)] if len(x) < 3 else [rng.randrange(256), rng.randrange(256)]
            r += code[x]
        res.append(r)
    return res


def many(rng, n, c, failing=None, replaced=False):
    """n changes, most of them in clumps of their own, and a file in which they are undone,
    done or spoilt. -> b, a, p"""
    fail = rng.choice([0, 0.02, 0.3, 0.9, 1]) if failing is None else failing
    done = rng.choice([0, 0.5, 1]) if rng.random() < 0.5 else rng.random()
    tight = 0 if replaced else rng.choice([0, 0, 0.05, 0.5, 1])
    shift = rng.choice([0, 0.01, 0.1])
    uid = [0]

    def gap(m):
        uid[0] += 1
        return ["g%d.%d\n" % (uid[0], j) for j in range(m)]

    g = gap(rng.choice([0, 1, c, c + 1]))
    b, a, p = list(g), list(g), list(g)
    for i in range(n):
        o = ["o%d\n" % i] * (1 if replaced else rng.choice([0, 1, 1, 2]))
        w = ["n%d\n" % i] * (1 if replaced else rng.choice([0, 1, 1, 2]) if o else 1)
        r = rng.random()
        x = ["spoilt%d\n" % i] if r < fail else w if rng.random() < done else o
        g = gap(max(0, 2 * c - 1) if rng.random() < tight else max(1, 2 * c) + rng.choice([0, 0, 1, 2, 3]))
        b, a = b + o + g, a + w + g
        p = p + x
        if r < fail and g and rng.random() < 0.7:
            p = p + ["lost\n"] + g[1:]
        else:
            p = p + g
        if rng.random() < shift:
            p = p + ["s\n"] * rng.choice([1, 1, 2, 5])
    return b, a, p


def wide(rng, c):
    """one or two changes with c lines of context, and a file in which some of the context,
    near or far from the change, is different. -> b, a, p"""
    lead, tail = distinct(rng.choice([c, c, c + 1, c + 9, max(0, c - 1), c // 2]), "h"), distinct(rng.choice([c, c, c + 1, c + 9, max(0, c - 1), c // 2]), "t")
    o, w = rng.choice([(["old\n"], ["new\n"]), ([], ["new\n"]), (["old\n"], []), (["old\n"] * 3, ["new\n"] * 2)])
    b, a = lead + o + tail, lead + w + tail
    x = w if rng.random() < 0.25 else o
    l, t = list(lead), list(tail)
    for s, side in ((l, 1), (t, 0)):             # side: where the change is
        if s and rng.random() < 0.75:
            d = min(len(s) - 1, size(rng, max(1, c)) - rng.choice([0, 1]))
            k = len(s) - 1 - d if side else d
            r = rng.random()
            if r < 0.5:
                s[k] = "damage\n"
            elif r < 0.7:
                s[k:k] = ["extra\n"]
            elif r < 0.85:
                del s[k]
            elif side:
                del s[:k + 1]
            else:
                del s[k:]
    p = l + x + t
    if rng.random() < 0.4:
        p = ["s\n"] * size(rng, 300) + p
    elif rng.random() < 0.3:
        p = p[rng.randint(0, min(len(p), 3)):]
    return b, a, p


def edges(rng, most):
    """a large piece put in, taken out or replaced; in the file to patch the piece differs at or
    near one of its ends. -> b, a, p"""
    n = size(rng, most)
    big = ["q%d\n" % i for i in range(n)]
    oth = ["r%d\n" % i for i in range(rng.choice([0, 1, size(rng, most)]))]
    ctx = distinct(rng.randint(0, 9), "k")
    at = rng.randint(0, len(ctx))
    b, a = ctx[:at] + big + ctx[at:], ctx[:at] + oth + ctx[at:]
    if rng.random() < 0.4:
        b, a = a, b
    p = list(b) if rng.random() < 0.6 else list(a)
    if p and rng.random() < 0.85:
        d = rng.choice([0, 0, 1, 2, size(rng, len(p))])
        k = rng.choice([at + d, at + n - 1 - d, len(p) - 1 - d, d])
        k = max(0, min(len(p) - 1, k))
        r = rng.random()
        if r < 0.6:
            p[k] = "damage\n"
        elif r < 0.8:
            del p[k]
        else:
            p[k:k] = ["extra\n"]
    if rng.random() < 0.3:
        p = ["s%d\n" % i for i in range(size(rng, 40))] + p
    return b, a, p


def wide_context(rng):
    return min(255, size(rng, 260) - rng.choice([0, 0, 1]))


def large_bytes(rng, n):
    """n or so bytes with a few changes of every size, far from each other or not"""
    b = [rng.randrange(256) for _ in range(n)]
    a = list(b)
    for _ in range(rng.randint(1, 6)):
        at = rng.choice([0, len(a), rng.randint(0, len(a)), len(a) - min(len(a), size(rng, n)), min(len(a), size(rng, n))])
        k, m = rng.random(), size(rng, max(1, min(n // 8, 900)))
        if k < 0.3:
            a[at:at] = [rng.randrange(256) for _ in range(m)]
        elif k < 0.6:
            del a[at:at + m]
        elif k < 0.85:
            a[at:at + m] = [rng.randrange(256) for _ in range(m)]
        elif k < 0.95:                           # moved
            blk = a[at:at + m]
            del a[at:at + m]
            to = rng.randint(0, len(a))
            a[to:to] = blk
        else:
            a = a[at:] if rng.random() < 0.5 else a[:at]
    return (b, a) if rng.random() < 0.7 else (a, b)


def any_context(rng):
    return context(rng) if rng.random() < 0.6 else wide_context(rng)
