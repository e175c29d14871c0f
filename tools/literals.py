"""The numbers and strings in the source of the code under test, as a
dictionary for the generators. Those that are not in literals.json (the tree
this was written for) are tried more often. It directs the search only; what
is right is decided by the oracles."""
import json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "literals.json")
NUM = r"(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)"
SUFFIX = r"(?:_?(?:u8|u16|u32|u64|i8|i16|i32|i64|usize|isize))?"


def value(t):
    t = re.sub(SUFFIX + "$", "", t).replace("_", "")
    try:
        return int(t, 0)
    except ValueError:
        try:
            return int(t)
        except ValueError:
            return None


def scan(root):
    nums, strs = set(), set()
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            for line in open(os.path.join(d, f), errors="replace"):
                line = re.sub(r"(^|\s)//.*", "", line)
                for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', line):
                    t = m.group(1)
                    try:
                        t = t.encode().decode("unicode_escape").encode("latin-1").decode("utf-8", "replace")
                    except (UnicodeError, ValueError):
                        pass
                    if 0 < len(t) <= 300:
                        strs.add(t)
                line = re.sub(r'"((?:[^"\\]|\\.)*)"', '""', line)
                for m in re.finditer(r"b?'(.)'", line):
                    nums.add(ord(m.group(1)))
                toks = [m for m in re.finditer(r"(?<![\w.])" + NUM + SUFFIX + r"\b(?!\.\d)", line)]
                # Tables are not of interest.
                if len(toks) > 6:
                    continue
                vals = [value(m.group(0)) for m in toks]
                nums.update(v for v in vals if v is not None)
                for i in range(len(toks) - 1):
                    a, b = vals[i], vals[i + 1]
                    op = line[toks[i].end():toks[i + 1].start()].strip(" )(")
                    if a is None or b is None:
                        continue
                    if op == "<<" and b < 64:
                        nums.update(((a << b) & (2**64 - 1), ((a << b) - 1) & (2**64 - 1)))
                    if op == "*":
                        nums.add(a * b & (2**64 - 1))
                        if i + 2 < len(toks) and vals[i + 2] is not None:
                            nums.add(a * b * vals[i + 2] & (2**64 - 1))
    return sorted(v for v in nums if 16 <= v < 2**64), sorted(strs)


def write(root, path):
    nums, strs = scan(root)
    try:
        base = json.load(open(BASE))
    except OSError:
        base = {"numbers": [], "strings": []}
    bn, bs = set(base["numbers"]), set(base["strings"])
    lines = ["%s %d" % ("n" if v in bn else "N", v) for v in nums]
    lines += ["s " + t.encode().hex() for t in strs if t not in bs]
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


if __name__ == "__main__":
    n, s = scan("/repo/src")
    json.dump({"numbers": n, "strings": s}, open(BASE, "w"), indent=0)
    print(len(n), len(s))
