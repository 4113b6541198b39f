"""
Usage: check.py PROPERTY

Tier and seed are taken from VERIF_TIER and VERIF_SEED.
"""
import importlib
import os
import sys
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True

import core  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = core.Check(prop, tier, seed)
    try:
        check.env.use_shim()
        check.env.import_code()
        module = importlib.import_module(f"checks.{prop.lower()}")
        module.run(check)
        return check.finish()
    except Exception:
        text = traceback.format_exc()
        print(text)
        if core.blame(text.split("During handling")[0]):
            check.violation("check", None, "unexpected exception in the code under test",
                            {"traceback": text})
            return check.finish()
        return 2
    finally:
        check.env.close()


if __name__ == "__main__":
    sys.exit(main())
