#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list of claimed ids below."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
RUN = "generated Rust programs compiled against /repo, generated inputs, independent reference matcher and parser"
CT = "generated Rust programs with one invalidating edit each, judged by rustc's diagnostics against the edit's known outcome"
TECH = {
 "C01": "property-based testing: " + RUN,
 "C02": "property-based testing: print/parse round trip over generated formats and values",
 "C03": "property-based testing: " + RUN,
 "C04": "property-based testing: " + RUN,
 "C05": "property-based testing: " + RUN + "; limits enumerated",
 "C06": "property-based testing: " + RUN + "; limits enumerated",
 "C07": "property-based testing: " + RUN,
 "C08": "property-based testing: generated regexes with samplers, " + RUN,
 "C09": "property-based testing: generated derived structs, " + RUN,
 "C10": "property-based testing: generated derived types with field attributes, conversion call trace compared with the reference",
 "C11": "property-based testing: generated derived enums, " + RUN,
 "C12": "property-based testing: generated autogen enums against a reference of the case styles",
 "C13": "property-based testing: generated compositions of types, " + RUN,
 "C14": "property-based testing: differential from_str against sscanf! and the reference",
 "C15": "property-based testing: generated input expressions, pointer offsets against the reference",
 "C16": "property-based testing: differential sscanf_get_regex! against sscanf! and the reference",
 "C17": "property-based testing: generated regex texts, " + RUN + ", metamorphic relation to sscanf!",
 "C18": "property-based testing: injected conversion failures, error chain against the reference",
 "C19": "property-based testing: " + CT + "; plus arbitrary format strings",
 "C20": "property-based testing: generated faulty format strings, caret position against the edit's position",
 "C21": "property-based testing: call histories and racing first uses against the reference",
 "C22": "property-based testing: differential deprecated names, " + RUN,
 "C23": "property-based testing: injected capture groups, " + RUN,
 "C25": "property-based testing: generated hand-written uses of the public traits against the reference and a counting invariant",
 "C24": "property-based testing: metamorphic context changes, " + RUN,
}
NOTE = "Generated-input search: what it reports it has executed on the real code; a break outside the generated shapes or too rare for the budget goes unseen. Trusts rustc, cargo, the regex crate and std's FromStr/Debug."
claimed = open("claimed.txt").read().split()
props = [json.loads(l) for l in open("properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "./check.sh setup",
 "checks": [{
   "property": p["id"],
   "quick_cmd": f"./check.sh {p['id']}",
   "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
   "technique": TECH[p["id"]],
   "level": "exploration",
   "level_note": NOTE,
 } for p in props if p["id"] in claimed],
 "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in claimed],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
