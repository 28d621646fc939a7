"""Literals of the code under test.

New ones (not in literals.json, which was written from the tree the checks were made for) steer the
workload generators towards them: a number becomes sizes, counts, distances and field values, a text
becomes contents. What is judged does not depend on them.

  literals.py --write     writes literals.json from /repo
"""
import ast, collections, json, os, re, sys

REPO = "/repo"
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "literals.json")

TOKEN = re.compile(r"""
 (?P<com>//[^\n]*|/\*.*?\*/)
|(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
|(?P<str>b?"(?:[^"\\]|\\.)*")
|(?P<chr>b?'(?:[^'\\]|\\(?:u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.))')
|(?P<num>(?<![A-Za-z0-9_])(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*))(?P<suf>[iu](?:8|16|32|64|128|size))?
|(?P<max>\b[iu](?:8|16|32|64)\s*::\s*MAX\b|\bstd::[iu](?:8|16|32|64)::MAX\b)
|(?P<cast>\bas\s+[iu](?:8|16|32|64|128|size)\b)
|(?P<id>[A-Za-z_][A-Za-z0-9_]*)
|(?P<op><<|[*+\-|()])
|(?P<ws>\s+)
|(?P<other>.)
""", re.X | re.S)


def text(lit):
    """bytes of a string or character literal"""
    m = re.match(r"b?r(#*)\"(.*)\"\1$", lit, re.S)
    if m:
        return m.group(2).encode()
    b = lit.startswith("b")
    body = lit[2 if b else 1:-1]
    out = bytearray()
    i = 0
    while i < len(body):
        c = body[i]
        if c != "\\":
            out += c.encode()
            i += 1
            continue
        e = body[i + 1:i + 2]
        if e == "x":
            out.append(int(body[i + 2:i + 4], 16))
            i += 4
        elif e == "u":
            j = body.index("}", i)
            out += chr(int(body[i + 3:j].replace("_", ""), 16)).encode()
            i = j + 1
        elif e == "\n":
            i += 2
            while body[i:i + 1].isspace():
                i += 1
        else:
            out += {"n": b"\n", "r": b"\r", "t": b"\t", "0": b"\0"}.get(e, e.encode())
            i += 2
    return bytes(out)


def value(run):
    """value of a constant expression, or None"""
    while run and run[-1] in ("<<", "*", "+", "-", "|", "("):
        run = run[:-1]
    while run and run[0] in ("<<", "*", "+", "-", "|", ")"):
        run = run[1:]
    while run.count("(") > run.count(")"):
        i = run.index("(")
        run = run[:i] + run[i + 1:]
    while run.count(")") > run.count("("):
        i = len(run) - 1 - run[::-1].index(")")
        run = run[:i] + run[i + 1:]
    nums = [x for x in run if x[0].isdigit()]
    if len(nums) < 2 or len(run) > 30 or any(int(x) > 1 << 40 for x in nums):
        return None
    if any(run[i] == "<<" and run[i + 1].isdigit() and int(run[i + 1]) > 40 for i in range(len(run) - 1)):
        return None
    try:
        v = eval(compile(ast.parse(" ".join(run), mode="eval"), "", "eval"), {"__builtins__": {}})
    except Exception:
        return None
    return v if isinstance(v, int) and 0 <= v < 1 << 64 else None


def scan(src, out):
    run = []
    for m in TOKEN.finditer(src):
        k = m.lastgroup if m.lastgroup not in ("h", "suf") else ("raw" if m.lastgroup == "h" else "num")
        s = m.group(0)
        if k == "num":
            v = int(m.group("num").replace("_", ""), 0 if m.group("num")[:2].lower() in ("0x", "0b", "0o") else 10)
            out["i%d" % v] += 1
            run.append(str(v))
            continue
        if k == "op":
            run.append(s)
            continue
        if k in ("ws", "com", "cast"):
            continue
        v = value(run)
        if v is not None:
            out["i%d" % v] += 1
        run = []
        if k == "max":
            bits = int(re.search(r"[iu](\d+)", s).group(1))
            out["i%d" % (2 ** (bits - (1 if "i%d" % bits in s else 0)) - 1)] += 1
        elif k == "chr":
            b = text(s)
            out["i%d" % int.from_bytes(b, "big") if len(b) == 1 else "s" + b.hex()] += 1
        elif k in ("str", "raw"):
            out["s" + text(s).hex()] += 1


def collect(root):
    out = collections.Counter()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith(".rs"):
                with open(os.path.join(d, f), errors="replace") as h:
                    try:
                        scan(h.read(), out)
                    except (ValueError, IndexError):
                        pass
    return out


def novel(root=REPO):
    """lines for the monitors: what is there more often than when the checks were made"""
    base = collections.Counter(json.load(open(BASE)))
    r = []
    for k in sorted((collect(root) - base)):
        if k[0] == "i":
            v = int(k[1:])
            # small numbers are everywhere in the workloads
            if 8 < v < 1 << 64:
                r.append("i %d" % v)
        elif 2 <= len(k) - 1 <= 400:
            r.append("s " + k[1:])
    return r


if __name__ == "__main__":
    if sys.argv[1:] == ["--write"]:
        with open(BASE, "w") as f:
            json.dump(dict(sorted(collect(REPO).items())), f, indent=0)
            f.write("\n")
    else:
        print("\n".join(novel(sys.argv[1] if len(sys.argv) > 1 else REPO)))
