#!/opt/venv/bin/python
"""check.py <PROPERTY> - decide one property on /repo's working tree."""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import vt  # noqa: E402,F401  (must precede any import of the library)
import logging  # noqa: E402
import warnings  # noqa: E402

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

import core  # noqa: E402

MODULES = {"M02": "splice", "M03": "splice", "M01": "bank", "M04": "bank", "F04": "bank", "W03": "bank",
           "F01": "wirechk", "F02": "wirechk", "F03": "wirechk",
           "D01": "detect", "D02": "detect", "D03": "detect", "D04": "detect", "M05": "devices", "R01": "redact", "R02": "redact", "X01": "dumps", "X02": "decode", "M06": "views", "T01": "mock",
           "W01": "commands", "W02": "commands", "P01": "poll", "P02": "poll", "C01": "session", "C02": "session", "C03": "session", "C04": "session", "C05": "session"}


def main():
    pid = sys.argv[1]
    chk = core.Check(pid)
    mod = __import__(MODULES[pid])
    mod.run(chk)
    return chk.finish()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except core.Machinery as e:
        print(f"MACHINERY-ERROR {e}")
        sys.exit(3)
    except Exception as e:
        traceback.print_exc()
        # An exception escaping from the library itself, where the harness expected none, is a
        # finding about the library; anything else is our own failure and no verdict.
        tb = traceback.extract_tb(e.__traceback__)
        if tb and os.path.realpath(tb[-1].filename).startswith(os.path.realpath(vt.REPO) + os.sep) \
                and not any(n in str(e) for n in ("FakeTransport", "VirtualLoop", "Net'", "Link'", "unexpected keyword", "positional arg")):
            print(f"  unexpected {type(e).__name__}: {e} from {tb[-1].filename}:{tb[-1].lineno}")
            rp = os.path.join(HERE, "evidence", f"{sys.argv[1]}.replay.json")
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            import json
            json.dump([{"what": traceback.format_exc()}], open(rp, "w"))
            print(f"VIOLATION property={sys.argv[1]} replay={rp}")
            sys.exit(1)
        sys.exit(4)
