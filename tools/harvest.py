"""Words and numbers that occur in the library's source, for use as inputs.

A change of behaviour is often bound to a particular word, value or amount.
Those written in the source are used as names, comments, arguments, values
and sizes in the jobs "found"; what the library has to answer to them is still
said by the specification alone, so nothing found here can raise an alarm by
itself.
"""
import json
import os
import re
import sys

TOKEN = re.compile(r'''
    (?P<line>//[^\n]*) | (?P<block>/\*.*?\*/)
  | b?r(?P<hash>\#*)"(?P<raw>.*?)"(?P=hash)
  | b?"(?P<str>(?:\\.|[^"\\])*)"
  | b?'(?P<chr>\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\])'
  | '[A-Za-z_]\w*
  | (?<![\w.])(?P<num>0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)(?P<suf>[iuf](?:8|16|32|64|128|size))?
  | [A-Za-z_]\w*
''', re.X | re.S)
ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def unescape(s):
    s = re.sub(r"\\\n\s*", "", s)

    def one(m):
        x = m.group(1)
        if x.startswith("u{"):
            return chr(min(int(x[2:-1].replace("_", ""), 16), 0x10FFFF))
        if x.startswith("x"):
            return chr(int(x[1:], 16))
        return ESC.get(x, x)
    return re.sub(r"\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)", one, s, flags=re.S)


def encode(s):
    return "".join(c if 32 <= ord(c) < 127 and c not in '{"\\' else "{%02X}" % ord(c) for c in s)


def sources(root):
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if not x.startswith("test"))
        for f in sorted(files):
            if f.endswith(".rs") and not f.startswith("test"):
                yield os.path.join(d, f)


def literals(root):
    words, numbers = [], []
    for path in sources(root):
        with open(path, errors="replace") as f:
            text = f.read()
        text = re.split(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{", text)[0]
        for m in TOKEN.finditer(text):
            if m.group("str") is not None:
                words.append(unescape(m.group("str")))
            elif m.group("raw") is not None:
                words.append(m.group("raw"))
            elif m.group("chr") is not None:
                words.append(unescape(m.group("chr")))
            elif m.group("num") is not None:
                numbers.append(m.group("num").replace("_", ""))
    return words, numbers


def found(root, most=220):
    raw, nums = literals(root)
    pieces = []
    for w in raw:
        for p in [w] + re.split(r"[\n\r]+", w) + w.split():
            p = p.strip("\n\r")
            if 0 < len(p) <= 48 and not any(0xD800 <= ord(c) <= 0xDFFF for c in p):
                pieces.append(p)
    words = sorted(set(pieces), key=lambda p: (len(p) > 16, p))[:most]
    ints, values = set(), set()
    for n in nums:
        try:
            ints.add(int(n, 0) if n[:2] in ("0x", "0b", "0o") else int(n))
        except ValueError:
            values.add(n)
            try:  # and numbers on either side of it
                values |= {"%.9g" % (float(n) * k) for k in (-1, 0.5, 0.99, 1.01, 2)}
            except (ValueError, OverflowError):
                pass
    values = {v for v in values if re.fullmatch(r"-?[0-9.]+(e[+-]?[0-9]+)?", v)}
    ints = {i for i in ints if i < 2**40}
    near = sorted({k for i in ints for k in (i - 1, i, i + 1, -i)})
    # the largest are the most telling
    values |= {str(k) for k in near}
    values = sorted(values, key=lambda v: (-len(v), v))[:160]
    sizes = sorted({k for i in ints for k in (i - 1, i, i + 1) if 1 <= k <= 3000}, reverse=True)[:14]
    many = sorted({i + 1 for i in ints if 3000 < i <= 200000})[:4]
    return dict(many=many or [5], words=[encode(w) for w in words], values=values, sizes=sizes or [5])


if __name__ == "__main__":
    print(json.dumps(found(sys.argv[1] if len(sys.argv) > 1 else "/repo/src"), indent=1))
