"""Writes MANIFEST.json from the checks that exist in lib/suites.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import suites
T = "TLA+ specification checked with TLC; traces of the real code judged against it"
N = {
 "M": "TLC enumerates every short behaviour of the parser machine; those histories and seeded random and damaged maps are run through quarchitect::run and each outcome is judged by MapParser.tla. Holds for the inputs explored; trusts TLC and the harness projection.",
 "G": "Exact rational geometry in Geometry.tla (TLC explores the cuts of a cube exhaustively); TLC- and seed-generated brushes go through quarchitect::run and every corner, triangle and vertex attribute is compared in fixed point. Bounded to the generated shapes and the stated tolerances.",
 "L": "Scene.tla routes brushes; TLC enumerates all small routings, the same and random maps are run and judged.",
 "S": "Scene.tla states the expected scene for a map and configuration; TLC explores the tree building for every small map, and enumerated and random maps go through quarchitect::run and are judged node by node.",
 "W": "Wad.tla reads WAD bytes; TLC explores the parallel workers under every interleaving; generated and damaged WAD files are read by the real code under several thread counts and read faults and judged byte by byte.",
 "F": "Fgd.tla states the file; TLC enumerates definitions; the text written by the real code is judged.",
 "D": "Diff.tla states edit scripts; TLC checks minimality for all short inputs; the real diff of enumerated and random maps is judged.",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if hasattr(suites, pid):
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid,
                       "thorough_cmd": "python3 check.py %s thorough" % pid, "technique": T,
                       "level": "model_checking", "level_note": N[pid[0]]})
    else:
        na.append({"property": pid, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "cargo build --offline --quiet --manifest-path harness/Cargo.toml --target-dir .build/target",
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
