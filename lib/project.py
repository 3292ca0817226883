"""Projections of raw output text to the records the specification judges."""
import re

TOK = re.compile(r'\s+|"((?:[^"\\]|\\.)*)"|([A-Za-z_][A-Za-z0-9_]*)|([][(){}:,])', re.S)

def unescape(s):
    def sub(m):
        x = m.group(1)
        if x[0] == "u":
            return chr(int(x[2:-1], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x, x)
    return re.sub(r"\\(u\{[0-9a-fA-F]+\}|.)", sub, s, flags=re.S)

class Debug:
    """Reader of Rust's Debug output: names, tuples, structs, lists, strings."""
    def __init__(self, text):
        self.toks, i = [], 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise ValueError("at %d" % i)
            i = m.end()
            if m.group(1) is not None:
                self.toks.append(("s", unescape(m.group(1))))
            elif m.group(2):
                self.toks.append(("n", m.group(2)))
            elif m.group(3):
                self.toks.append(("p", m.group(3)))
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else ("end", "")

    def take(self, want=None):
        t = self.peek()
        if want is not None and t[1] != want:
            raise ValueError("expected %s got %s" % (want, t[1]))
        self.i += 1
        return t

    def items(self, close, one):
        out = []
        while self.peek() != ("p", close):
            out.append(one())
            if self.peek() == ("p", ","):
                self.take()
        self.take(close)
        return out

    def field(self):
        k = self.take()[1]
        self.take(":")
        return k, self.value()

    def value(self):
        k, v = self.take()
        if k == "s":
            return v
        if (k, v) == ("p", "["):
            return self.items("]", self.value)
        if k == "n":
            if self.peek() == ("p", "("):
                self.take()
                return (v, self.items(")", self.value))
            if self.peek() == ("p", "{"):
                self.take()
                return (v, dict(self.items("}", self.field)))
            return (v, [])
        raise ValueError("unexpected %s" % v)

def _token(t):
    name, args = t
    if name == "OpenBrace":
        return ["open"]
    if name == "CloseBrace":
        return ["close"]
    if name == "Property":
        return ["prop", args[0][1]["key"], args[0][1]["value"]]
    return [{"Comment": "comment", "BrushPlane": "face", "Unrecognized": "other"}[name], args[0]]

def diff(obs):
    if obs.get("st") != "ok":
        return obs
    try:
        text = obs["out"]
        m = re.search(r"(?m)^Diff \{", text)
        d = Debug(text[m.start():]).value()[1]
        return {"id": obs["id"], "st": "ok", "added": [_token(t) for t in d["added"]],
                "removed": [_token(t) for t in d["removed"]]}
    except (ValueError, KeyError, IndexError, TypeError, AttributeError):
        return {"id": obs["id"], "st": "unreadable", "msg": obs["out"][-600:]}

FGDTOK = re.compile(r'"[^"]*"|[()=:\[\],]|[^\s"()=:\[\],]+|"')

def fgd(obs):
    """Non-empty lines, each as its tokens; white space between tokens is dropped."""
    if obs.get("st") != "ok" or "text" not in obs:
        return obs
    lines = []
    for l in obs["text"].split("\n"):
        t = [l] if l.startswith("//") else FGDTOK.findall(l)
        if t:
            lines.append(t)
    return {"id": obs["id"], "st": "ok", "lines": lines, "saved": obs["saved"], "badpath": obs["badpath"]}

def wad(obs):
    o = {"failed": False, "unstable": False, "tex": [], "rgb": [], "pal": []}
    o.update({k: v for k, v in obs.items() if k != "msg"})
    return o

def wad_case(r):
    """What the specification needs of a WAD case: bytes instead of hex."""
    return {"id": r["id"], "kind": r.get("kind", "wad"), "missing": "path" in r,
            "f": [] if "path" in r else list(bytes.fromhex(r["hex"])),
            "white": [[[ord(c) for c in n] for n in l] for l in r.get("white", [])],
            "mips": r.get("mips", 4), "convert": r.get("convert", False),
            "supplied": [list(bytes.fromhex(r["palhex"]))[:768]] if "palhex" in r else [], "obs": r["obs"]}

def determinism_case(r):
    o = r["obs"]
    return {"id": r["id"], "touched": r["touched"], "obs": {"st": o["st"], "runs": o.get("runs", [])}}

BY_MODE = {"diff": diff, "fgd": fgd, "wad": wad}
