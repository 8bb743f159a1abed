#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json
T = {
 "C01": "property-based testing: stateful edits against a reference document",
 "C02": "property-based testing: differential between an edited and a fresh buffer",
 "C03": "property-based testing: range reads against a reference document",
 "C04": "property-based testing: stateful histories against recorded texts (undo)",
 "C05": "property-based testing: stateful histories against recorded texts (undo and redo)",
 "C06": "property-based testing: stateful histories with operation groups against a reference history",
 "C07": "property-based testing: stateful histories against a model of the synchronised point",
 "C08": "property-based testing: file round-trips over generated contents and edit histories",
 "C09": "property-based testing with injected file faults, twin-buffer differential",
 "C10": "property-based testing: replace and reload against a reference cursor rule",
 "C11": "property-based testing: announced positions against the common prefix of texts",
 "C12": "property-based testing: stateful cursor commands against a reference document",
 "C13": "property-based testing: cursor commands against a desired-column model",
 "C14": "property-based testing: search against a naive reference over clusters",
 "C15": "property-based testing: token round-trip and position invariants over generated text and grammars",
 "C16": "property-based testing: differential against the parser applied line by line",
 "C17": "property-based testing: grammars that fail at generated places",
 "C18": "property-based testing: agreement of line views with a reference split",
 "C19": "property-based testing: algebraic laws over generated positions and ranges",
 "C20": "property-based testing: stateful workspace sequences against a list of twin buffers",
 "C21": "property-based testing: stateful open sequences over path spellings against a model",
 "C22": "property-based testing: stateful path changes against a component-wise model",
 "C23": "property-based testing: generated file names and grammars against an extension table",
 "C24": "property-based testing: fuzzing of call sequences with extreme arguments",
 "C25": "property-based testing: single deletes against a reference document",
 "C26": "property-based testing: stateful workspace sequences, identifier uniqueness over the history",
 "C27": "property-based testing: distances against a reference over clusters",
 "C28": "property-based testing: generated directories, definition folders and request sequences against a model",
 "C30": "property-based testing: stateful sequences with a directory-tree invariant after every call",
 "C31": "property-based testing: differential between scripts run alone and interleaved, concurrent or nested",
 "C29": "property-based testing: twin differential between a watched and an unwatched buffer",
}
NOTE = ("Generated-input search, not proof: the property held on every generated case (numbers, rule and samples in the "
        "evidence file; deterministic for a seed). Trusts the harness's reference model in /verif/harness, proptest, "
        "and the unicode-segmentation crate's definition of a grapheme cluster.")
EXTRA = {
 "C09": " Faults are real ones the process causes itself (resource limits, paths, file-system user id, /dev/full).",
 "C15": " Grammars are syntect's bundled ones and small generated ones.",
 "C16": " Trusts syntect's parser, which the reference side also uses.",
 "C23": " Trusts syntect's own lookup only to break ties between definitions that list the same extension.",
}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "bash tools/setup.sh",
 "checks": [
  {"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
   "technique": T[i], "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")} for i in ids],
 "not_applicable": [],
 "notes": "All checks run the same harness (harness/, proptest with its own sharded runner, shrinking and replay files). "
          "No hooks in /repo are needed; /repo has unguarded fix: commits, listed in known_findings.txt.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
