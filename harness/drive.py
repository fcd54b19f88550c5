"""Run items of any kind on the real code, one record per line, written as they come.

usage: drive.py ITEMS.json OUT.ndjson      (items: {id, kind, ...}; kind_<kind>.go(item) -> record)
"""
import importlib
from common import *

if __name__ == "__main__":
    src, dst = sys.argv[1:3]
    items = json.load(open(src))
    speed_up()
    with open(dst, "a") as f:
        for it in items:
            f.write(json.dumps({"begin": it["id"]}) + "\n"); f.flush()
            kind = importlib.import_module("kind_" + it["kind"])
            try:
                line = json.dumps(kind.go(it))
            except Exception as ex:
                # what the code returned could not even be looked at
                import traceback
                where = traceback.extract_tb(ex.__traceback__)[-1]
                line = json.dumps({"id": it["id"], "kind": it["kind"], "died": True, "endless": False,
                                   "error": f"{type(ex).__name__}: {ex} ({os.path.basename(where.filename)}:{where.lineno})"[:300]})
            f.write(line + "\n"); f.flush()
