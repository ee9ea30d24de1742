"""seeded.py [NAME...] [--checks C01,C02]: run checks against planted bugs in scratch copies of
/repo and record in tools/caught.json which of them report the bug (not part of any check)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = os.path.join(HERE, "tools", "caught.json")


def main():
    table = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    names = names or sorted(os.listdir(os.path.join(HERE, "seeded")))
    extra = [a[9:].split(",") for a in sys.argv if a.startswith("--checks=")]
    for name in names:
        folder = os.path.join(HERE, "seeded", name)
        meta = json.load(open(os.path.join(folder, "meta.json")))
        row = table.get(name, {"by": []})
        row.update(property=meta["property"], what=meta["what_it_breaks"])
        root = tempfile.mkdtemp(prefix="planted-")
        try:
            subprocess.check_call("cp -a /repo/. %s/" % root, shell=True)
            subprocess.check_call(["git", "-C", root, "apply", os.path.join(folder, "patch.diff")])
            by = set(row["by"])
            for check in sorted(set([meta["property"]] + (extra[0] if extra else row["by"]))):
                done = subprocess.run([os.path.join(HERE, "run"), check], text=True,
                                      env=dict(os.environ, MC_REPO=root), capture_output=True)
                found = done.returncode == 1 and "VIOLATION property=%s " % check in done.stdout
                (by.add if found else by.discard)(check)
                print(name, check, "caught" if found else "MISSED rc=%d" % done.returncode,
                      flush=True)
            row["by"] = sorted(by)
        finally:
            shutil.rmtree(root)
        table[name] = row
        for gone in set(table) - set(os.listdir(os.path.join(HERE, "seeded"))):
            del table[gone]
        with open(TABLE, "w") as file:
            json.dump(table, file, indent=1, sort_keys=True)
            file.write("\n")


if __name__ == "__main__":
    main()
