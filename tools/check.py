#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property for the code in /repo.

Exit 0: held on everything explored. Exit 1 with VIOLATION lines: broken. Exit 2: the check
itself failed."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402
import checks_link  # noqa: E402
import checks_more  # noqa: E402
import checks_obj  # noqa: E402
import checks_par  # noqa: E402
import checks_session  # noqa: E402
import checks_tables  # noqa: E402

CHECKS = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C17"):
    CHECKS[p] = checks_link.check


def check_lengths(c):
    """C02 is about frames and about the values that make them up."""
    checks_link.check(c)
    checks_obj.check_values(c, aspect="C02")


CHECKS["C02"] = check_lengths
CHECKS.update({
    "C09": checks_obj.check_chunks, "C10": checks_obj.check_message, "C11": checks_obj.check_queue,
    "C12": checks_obj.check_ids, "C14": checks_obj.check_permits, "C16": checks_obj.check_builder,
    "C27": checks_obj.check_values, "C13": checks_par.check_ids, "C15": checks_par.check_permits,
})

for p in ("C23", "C24", "C25", "C26"):
    CHECKS[p] = checks_tables.check
for p in ("C18", "C19", "C20", "C21", "C22"):
    CHECKS[p] = checks_session.check
CHECKS.update({
    "C28": checks_more.check_among, "C29": checks_more.check_delivery, "C30": checks_more.check_twins,
    "C31": checks_more.check_memory,
})

# Of the parts that count: inductive invariants, at the real sizes.
INDUCTIVE = {
    "C09": ("IndChunks", ("Pieces",)), "C12": ("IndStreamId", ()), "C13": ("IndStreamId", ()),
    "C14": ("IndPermits", ("Sums",)), "C15": ("IndPermits", ("Sums",)), "C22": ("IndKeep", ("Once",)),
}


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" \
        else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = vlib.Check(pid, tier, seed)
    try:
        CHECKS[pid](c)
        if c.deep and pid in INDUCTIVE:
            c.induct(*INDUCTIVE[pid])
    except vlib.ToolError as e:
        vlib.log("check %s could not be completed: %s" % (pid, e))
        if not c.violations:
            return 2
    except Exception:
        traceback.print_exc()
        if not c.violations:
            return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
