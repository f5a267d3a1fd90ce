#!/usr/bin/env python3
"""Writes the overlay file that puts the harness into the build: overlay.py OUT REPO [-core]"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
out, repo = sys.argv[1], sys.argv[2]
core = "-core" in sys.argv
rep = {}
def put(src, dst):
    for f in sorted(os.listdir(src)):
        if not f.endswith(".go"):
            continue
        p = os.path.join(src, f)
        if core and "//verif:optional" in open(p).read():
            continue
        rep[os.path.join(repo, dst, f)] = p
put(os.path.join(here, "..", "spec"), "internal/verifspec")
put(os.path.join(here, "gen"), "internal/verifgen")
for d in ("actions", "builder", "overlays", "instructions", "commands"):
    p = os.path.join(here, d)
    if os.path.isdir(p):
        put(p, "internal/" + d)
put(os.path.join(here, "e2e"), "internal/verife2e")
json.dump({"Replace": rep}, open(out, "w"), indent=1)
