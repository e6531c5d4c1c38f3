"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os

FIRST_MISSED = {"p22-small-zoom": "zooms below 1 with odd sizes were added", "p22-neg-weights": "weights of both signs were added",
                "p12-eq-z": "comparisons with either side changed were added", "p20-oocd": "coincident points were added",
                "p01-proj-start": "lists whose mean neighbor count is whole were added", "p23-long": "images up to 300 boxes away were added",
                "p11-z-only": "", "p07-shared-images": "queries of another object and box in between were added", "p18-count16": "clusters beyond 65536 points were added",
                "p29-plane-y": "radii beyond one pair of planes only were added", "p20-first-equiv": "equivalents whose first is not the identity were added",
                "p20-sep-first": "equivalents whose first is not the identity were added", "p28-hex-reuse": "systems of equal sizes were added", "p13-ld-stale": "pairs of systems of equal size, with and without neighbors, were added", "p25-qp-uniq": ""}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | caught by | breaks | needs | strengthened |\n|---|---|---|---|---|")
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    print(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {FIRST_MISSED.get(i, '')} |")
