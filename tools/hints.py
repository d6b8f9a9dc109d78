"""The constants a source tree has more of than the tree the harness was written for.

They are handed to the generators as a dictionary, as fuzzers do with the
constants of a binary; no verdict depends on them. On the unchanged tree there
are none.

  hints.py write    note the constants of /repo's current tree in literals.json
"""
import json, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))
NOTED = os.path.join(HERE, "literals.json")
TOKEN = re.compile(r"""
    (?P<skip>//[^\n]*|/\*.*?\*/)
  | (?P<raw>`[^`]*`)
  | (?P<str>"(?:\\.|[^"\\\n])*")
  | (?P<chr>'(?:\\.[^']*|[^'\\\n])')
  | (?P<num>0[xX][0-9a-fA-F_]+|0[bB][01_]+|0[oO][0-7_]+|[0-9][0-9_]*(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?)
  | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<op><<|[*+\-])
  | (?P<other>\S)
""", re.X | re.S)


def unquote(s):
    try:
        return json.loads(s)
    except ValueError:
        return s[1:-1]


def number(s):
    s = s.replace("_", "")
    try:
        if re.match(r"0[0-7]+$", s):
            return int(s, 8)
        return int(s, 0)
    except ValueError:
        f = float(s)
        return int(f) if f == int(f) else None


def literals(root):
    ints, strs = {}, {}

    def note(d, k):
        d[k] = d.get(k, 0) + 1

    for base, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if not d.startswith(".") and d not in ("example", "testdata"))
        for f in sorted(files):
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            text = open(os.path.join(base, f), encoding="utf-8", errors="replace").read()
            text = re.sub(r'^import\s+(\([^)]*\)|\S*\s*"[^"]*")', "", text, flags=re.M)
            prev = []
            for m in TOKEN.finditer(text):
                k, s = m.lastgroup, m.group()
                if k == "skip":
                    continue
                v = None
                if k == "num":
                    v = number(s)
                elif k == "chr":
                    c = unquote('"' + s[1:-1] + '"')
                    v = ord(c) if len(c) == 1 else None
                elif k == "str":
                    note(strs, unquote(s))
                elif k == "raw":
                    note(strs, s[1:-1])
                if v is not None:
                    note(ints, v)
                    if len(prev) == 2 and prev[1] in ("<<", "*", "+", "-") and isinstance(prev[0], int):
                        a, o = prev
                        if o != "<<" or v < 63:
                            note(ints, a << v if o == "<<" else a * v if o == "*" else a + v if o == "+" else a - v)
                prev = (prev + [v if v is not None else s])[-2:]
    return {"ints": {str(k): n for k, n in sorted(ints.items())}, "strs": dict(sorted(strs.items()))}


def novel(root):
    """The dictionary for the harness, as JSON, or "" if nothing is new."""
    try:
        old = json.load(open(NOTED))
        new = literals(root)
    except Exception:
        return ""
    ints = [int(k) for k, n in new["ints"].items() if n > old["ints"].get(k, 0)]
    ints = [x for x in ints if x not in (0, 1) and abs(x) < 1 << 53]
    strs = [k for k, n in new["strs"].items() if n > old["strs"].get(k, 0) and 0 < len(k) <= 64 and "%" not in k]
    if len(ints) + len(strs) == 0:
        return ""
    return json.dumps({"ints": ints[:24], "strs": strs[:12]})


if __name__ == "__main__":
    root = sys.argv[2] if len(sys.argv) > 2 else "/repo"
    if sys.argv[1:2] == ["write"]:
        with open(NOTED, "w") as f:
            json.dump(literals(root), f, indent=0)
            f.write("\n")
    else:
        print(novel(root))
