"""Writes spec/unicode.ndjson: white space, and lower-case forms of the letters
below U+0530 (and a few others) whose lower case is stable across Unicode versions."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
white = [c for c in map(chr, list(range(0x3001))) if c.isspace() and c not in "\n\x1c\x1d\x1e\x1f"]
low = {}
for n in list(range(0x41, 0x530)) + [0x1e9e, 0x2126, 0x212a, 0x212b, 0x24b6, 0xff21, 0xff3a]:
    c = chr(n)
    if c.lower() != c and n != 0x3a3:       # the lower case of a sigma depends on its place
        low[c] = c.lower()
json.dump({"white": white, "lower": low}, open(os.path.join(here, "spec", "unicode.ndjson"), "w"), separators=(",", ":"))
