#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and na.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, TRUST, NA  # noqa: E402
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks = [dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
               technique=PROPS[i]["technique"], level=PROPS[i]["level"], level_note=PROPS[i]["note"] + " " + TRUST)
          for i in ids if i in PROPS]
na = [dict(property=i, reason=NA.get(i, "no check yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="./check --setup",
         hooks=dict(guard="none: the seams are put in with a go build -overlay generated by sim/tools/mkoverlay; /repo contains no hooks",
                    enable="go build -overlay <generated> -tags faketime (done by ./check)", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="All commits in /repo are fix: commits, listed in known-findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
