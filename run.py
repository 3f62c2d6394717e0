#!/opt/venv/bin/python
"""run.py <property id> [--tier quick|thorough] [--replay FILE] [--only FAMILY]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
# one fixed hash seed: nothing may depend on set iteration order
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc import common  # noqa: E402


def main():
    prop = sys.argv[1]
    try:
        check = importlib.import_module("props." + prop.lower())
    except Exception:
        import traceback
        tb = traceback.format_exc()
        if "atlas_doc_parser" + os.sep in tb or "atlas_doc_parser'" in tb:
            # the code under test cannot even be imported
            return common.violation(prop, "import", None, tb)
        raise
    return common.main(check, sys.argv[2:])


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
