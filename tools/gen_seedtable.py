"""Writes the table of planted bugs into DESIGN.md (between the SEEDTABLE markers)."""
import glob
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = dict(l.split(" | ") for l in """
project-nearly-in-plane | vectors almost in the plane or across it
hardly-bent | bodies that hardly differ from their surroundings, at all angles (weak)
xz-view-y | marks: the views along an axis
patch-height-along | figures: plane figures carried into space by hand
almost-unit-launch | launch directions of length nearly 1
cylinder-matrix-cache | twins in a process whose earlier scene had nearly the same cylinders; pristine process
detector-dedupe | volleys: the same ray twice
near-axis-parallel | chosen incidence angles down to 1e-6
near-optics-swapped | slivers
path-point-dedupe | slivers far from the origin
sphere-floor-scaled | launch points just outside a surface
half-turn-axis | angles down to 1e-9 and within 1e-9 of a half turn, tighter tolerance
exit-index-squared | indices up to 4
history-ring | long-path suite
cylinder-almost-parallel | FineCylinderLine: error bars of the quadratic instead of a flat "may"
cylinder-short-chord | FineQuadric, chords of 1e-8 of the radius
grazing-mirror | grazing incidence down to 1e-5
steep-lens | grazing incidence down to 1e-5
ball-glass-air | reversal with random wavelengths and orders
zero-radius | zero radii and diameters in construction
thick-probe | thin suite: solids thinner than 1e-3
default-cap | marathon: more than a thousand interactions
out-of-reach | brink: budgets ending just before or behind a surface
membership-compiled | growing: trees changed between the questions
matched-index | indices within 1e-6 … 1e-2 of one
parent-cached-print | expressions printed between changes
list-filtered-once | changing: the same list object with other optics in it
floor-wider | close: exact worlds with rays 2^-12 … 2^-29 before a surface
tiny-budget | budgets of 1e-12 … 1e-3 of the scene's size
savgol-full-window | tolerance by the samples of the window, signals of very uneven size
tree-none-value | None among the values
plane-distance-memo | passing: many short-lived rays, each compared with a new copy of the scene
extension-pattern | extensions with wildcard characters
octant-rays | sides: a source's sides through full turns, at 45 degrees to the nearest float
index-probe-back | aged: worlds launched into after many other launches
lens-rim-flip | ideal lenses of focal lengths down to 1e-4 of their size
copy-on-first-run | crowd: many short-lived worlds one after another
order-whole | orders that are no whole numbers
repr-by-position | rays printed again after being turned or set by hand
list-remembered | runs without optics, with an empty list or none at all
annotation-kind | ignored optics of classes of the user's own, with a shape
normal-nearly-unit | direct: Ray.reflect() and Ray.refract() called by the user
crossings-memo | the same rays and points asked again after the tree was changed
interp-beyond | log-log interpolation beyond the table
axes-equal-tiny | tools of scales 1e-6 to 1e7, tolerances relative to it
""".strip().splitlines())

rows = []
for d in glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json")):
    m = json.load(open(d))
    name = os.path.basename(os.path.dirname(d))
    files = sorted(set(re.findall(r"^\+\+\+ b/(.*)$", open(os.path.join(os.path.dirname(d), "patch.diff")).read(), re.M)))
    rows.append((m["property"], name, m["needs"].strip().rstrip("."), ", ".join(files), MISSED.get(name, "")))
table = ["| property | plant | needs | in | missed first; strengthened by |", "|---|---|---|---|---|"]
table += ["| " + " | ".join(x.replace("|", "\\|") for x in r) + " |" for r in sorted(rows)]
path = os.path.join(VERIF, "DESIGN.md")
s = open(path).read()
s = re.sub(r"(<!-- SEEDTABLE -->\n).*?(<!-- /SEEDTABLE -->)", lambda m: m[1] + "\n".join(table) + "\n" + m[2], s, flags=re.S)
open(path, "w").write(s)
print(len(rows), "plants")
