#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property the harness registers, the rest under not_applicable."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {l.split()[0] for l in subprocess.check_output([root + "/target/debug/vp", "list"], text=True).splitlines()}
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
T = {
 "M01": ("generated archives, round trip against the input", "exploration"),
 "M02": ("generated name sets with engineered collisions, model map as oracle", "exploration"),
 "M03": ("generated archives, listings compared with the model", "exploration"),
 "M04": ("generated archives, metadata compared with model and independent parser", "exploration"),
 "M05": ("generated byte strings, round trip and independent decoders", "exploration"),
 "M06": ("generated signals, error bound and independent decoder", "exploration"),
 "M07": ("generated inputs, differential against independent cipher and hashes", "exploration"),
 "M08": ("systematic and random corruption of stored bytes (fault injection), original content as oracle", "fault_enumeration"),
 "M09": ("generated signed archives, byte changes, independent signer", "fault_enumeration"),
 "M10": ("structure-aware mutation fuzzing, crash / memory / time oracle", "exploration"),
 "M11": ("mutation fuzzing of compressed streams, crash / size / memory oracle", "exploration"),
 "M12": ("fault injection at every system call of a generated build, before/after oracle", "fault_enumeration"),
 "M13": ("generated embeddings, metamorphic comparison with the plain archive", "exploration"),
 "M14": ("generated attribute tables, independent codec", "exploration"),
 "M15": ("generated corruption of tables, independent digests", "fault_enumeration"),
 "M16": ("independent writer with free layout, content and metadata as oracle", "exploration"),
 "M17": ("generated query histories, fresh-archive answers as oracle", "exploration"),
 "M18": ("generated inputs, metamorphic comparison of builds", "exploration"),
 "M19": ("generated impossible and possible builds, prediction as oracle", "exploration"),
 "M20": ("generated call sequences, in-memory file as model", "exploration"),
 "M21": ("generated call sequences, handle registry as model", "exploration"),
 "M22": ("generated archives and damage, content and attributes as oracle", "exploration"),
 "M23": ("generated archives, differential against the Rust library", "exploration"),
 "M24": ("generated directory trees, round trip through the tool", "exploration"),
 "M25": ("generated hostile names, file-system snapshot as oracle", "exploration"),
 "M26": ("generated archives with injected damage, predicted exit status", "fault_enumeration"),
 "M27": ("generated texts, independent parser", "exploration"),
 "M28": ("generated concurrent histories, linearisability against models", "exploration"),
 "M29": ("generated archives, independent parser and invariants", "exploration"),
 "M30": ("generated archives and names, differential against the library", "exploration"),
 "M31": ("generated archives around and beyond 4 GiB, round trip and independent reader", "exploration"),
}
N = {"exploration": "Randomised search over generated cases with a fixed count per run: no counterexample among the cases the evidence file counts; nothing is proved about the rest. Trusts the harness's own reference code.",
     "fault_enumeration": "Faults are generated (position, kind) over generated archives and operations; no counterexample among those counted in the evidence file. Trusts the harness's own reference code."}
checks = [{"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
           "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + T[i][0],
           "level": T[i][1], "level_note": N[T[i][1]]} for i in ids if i in have]
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "hooks": {"guard": "cfg vp_hooks", "enable": 'RUSTFLAGS="--cfg vp_hooks" (set by run.sh)', "source_commits":
               [subprocess.check_output(["git", "-C", "/repo", "rev-parse", "5093ece"], text=True).strip()]},
     "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in have],
     "notes": "See DESIGN.md. Every check is a subcommand of the harness binary; work per run is a fixed number of generated cases, reproducible from VERIF_SEED."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1); open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks")
