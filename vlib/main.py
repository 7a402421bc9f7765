"""Entry point of all checks: python -m vlib.main <property> [tier]"""
import importlib
import os
import signal
import sys

from vlib.core import Ctx

MODULES = {"H": "vlib.checks_hl", "T": "vlib.checks_train", "B": "vlib.checks_buf", "D": "vlib.checks_data", "E": "vlib.checks_env", "C": "vlib.checks_coll", "R": "vlib.checks_pol"}


def main() -> int:
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(MODULES.get(prop, MODULES.get(prop[0], "")))
    ctx = Ctx(prop, tier, seed)
    mod.CHECKS[prop](ctx)
    return ctx.finish()


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    sys.exit(main())
