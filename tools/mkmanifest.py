"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("PBT: round trip parse/serialize against an independent sentence composer", "Definitions, field values, lengths, text and options are sampled; every definition is met in each run."),
 "C02": ("PBT: framing and checksum recomputed independently", "Sampled payloads and keyword sets over all definitions."),
 "C03": ("PBT + exhaustive single byte corruption of sampled sentences, all checksum strings up to 2-3 characters", "Every substitution is enumerated for sampled sentences; sentences themselves are sampled."),
 "C04": ("PBT: reference decoder (differential)", "Reference decoder written independently from the published field dictionary."),
 "C05": ("PBT: reference decoder of repeating groups, both directions, with false counts", "Sampled group sizes (0..130), truncations and counts."),
 "C06": ("PBT: build from keywords, independent field check, parse back", "Sampled keyword sets over all definitions that can be built; typed values include edges."),
 "C07": ("PBT: reference sign/letter relation, both directions", "Sampled positions and letters over every definition with a position or direction."),
 "C08": ("PBT: exact decimal arithmetic oracle for positions", "Sampled plus dense enumeration around whole minutes."),
 "C09": ("PBT: calendar/time oracle, exhaustive dates", "All dates 1969-2068 enumerated; times sampled plus all whole seconds."),
 "C10": ("PBT, stateful: list model of the stream", "Sampled streams plus every truncation of a fixed stream."),
 "C11": ("PBT, fault injection: list model of results, errors, handler calls, log", "Sampled fault sequences."),
 "C12": ("fuzzing: random, mutated and structured bytes (coverage-guided in the thorough tier); only documented exceptions", "Absence of crashes and hangs on what was generated."),
 "C13": ("PBT, stateful: byte queue model of a faulty segmented socket", "Sampled operation sequences; every two-way split of a fixed stream; real socket pairs."),
 "C14": ("PBT: chunk encoder round trip, exhaustive two/three-way splits", "Sampled chunkings/segmentations plus all splits of small streams."),
 "C15": ("PBT, stateful: observation invariant over mutation attempts", "Sampled attempt sequences."),
 "C16": ("PBT: eval(repr) round trip, str composed independently", "Sampled messages; every Latin-1 character enumerated."),
 "C17": ("PBT: reference lookup; exhaustive id/mode/validation matrix", "Matrix enumerated for three talkers and lengths; the rest sampled."),
 "C18": ("PBT: reference variant selection; exhaustive id/mode/length/first field matrix", "Matrix enumerated with filler values; the rest sampled."),
 "C19": ("PBT: exact decimal arithmetic and independent grammar", "Sampled degrees concentrated near rounding boundaries; sampled text."),
 "C20": ("PBT: reduced-latitude reference formula, round trip, mirror/rotation relations", "Sampled plus a quarter degree grid."),
 "C21": ("PBT: vector formula reference, symmetry and scaling relations", "Sampled plus a grid of special points."),
 "C22": ("PBT: own leap second table and integer arithmetic, round trip", "Sampled plus all half seconds around every leap second."),
 "C23": ("enumeration of all tables against the frozen release + generated sentences per definition", "Complete over entries; reachability sampled."),
 "C24": ("PBT: independent formulas", "Sampled."),
 "C25": ("PBT, stateful + concurrent: interleaved readers/parsers/threads against the reference; differential against new processes", "Sampled histories; thread schedules by preemption at 1 us switch interval."),
 "C26": ("PBT: differential reader/parser/constructor over all modes and validation settings", "Sampled; every definition in every mode."),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8")]
m = {"version": 1, "setup_cmd": "python3-vt -c 'import hypothesis, sys; sys.path.insert(0, \"harness\"); import ref'",
     "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": T[p["id"]][0], "level": "exploration",
                 "level_note": T[p["id"]][1] + " Trusts harness/ref.py and golden/tables.json; see DESIGN.md."} for p in props],
     "not_applicable": [],
     "notes": "No hooks in /repo. ./check.sh <id> --replay <file> re-runs one failing case."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
