#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LINK = "TLA+ model of frames and link (TLC) + trace validation of the real codec against it"
NOTE_LINK = ("TLC checks the specification exhaustively over small argument sets and prints every first "
             "datagram as a run; these runs and random boundary-biased ones are executed by the real codec and "
             "each result is validated by TLC against the specification. Bounded by the argument sets and the "
             "number of random runs; trusts TLC, the executor's reporting and the specification's reading of "
             "the protocol.")
CHECKS = {p: (LINK, NOTE_LINK) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C17")}
try:
    from manifest_more import MORE
    CHECKS.update(MORE)
except ImportError:
    pass


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))]
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:", "--grep=^Verification hooks"],
                           stdout=subprocess.PIPE, check=True).stdout.decode().split()
    m = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "hooks": {"guard": "cfg(binate_verif)", "enable": "RUSTFLAGS=\"--cfg binate_verif\"",
                  "source_commits": hooks},
        "checks": [{"property": p, "quick_cmd": "python3 tools/check.py %s" % p,
                    "thorough_cmd": "python3 tools/check.py %s --thorough" % p,
                    "evidence_file": "evidence/%s.json" % p,
                    "technique": CHECKS[p][0], "level": "model_checking",
                    "level_note": CHECKS[p][1]} for p in props if p in CHECKS],
        "not_applicable": [{"property": p, "reason": "check under construction"}
                           for p in props if p not in CHECKS],
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
