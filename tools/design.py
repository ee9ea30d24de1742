"""Writes DESIGN.md from tools/meta.py, the checks and the planted bugs' table."""
import ast
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import meta  # noqa: E402


def constants(path):
    found = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in (
                "RULE", "ASSUMPTIONS", "LEVEL"):
            found[node.targets[0].id] = ast.literal_eval(node.value)
    return found


def wrap(text, first="", rest=""):
    return textwrap.fill(" ".join(text.split()), 100, initial_indent=first,
                         subsequent_indent=rest or " " * len(first),
                         break_long_words=False, break_on_hyphens=False)


def caught():
    path = os.path.join(HERE, "tools", "caught.json")
    return json.load(open(path)) if os.path.exists(path) else {}


def sizes():
    path = os.path.join(HERE, "tools", "sizes.json")
    return json.load(open(path)) if os.path.exists(path) else {}


def main():
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "",
           "## Property by property", ""]
    size, bugs = sizes(), caught()
    for p in meta.P:
        c = constants(os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py"))
        out += ["### %s %s" % (p["id"], p["title"]), "", wrap(p["statement"]), ""]
        out.append(wrap("Decided by: " + p["technique"] + " (level %s)." % c.get(
            "LEVEL", "exploration"), "* ", "  "))
        out.append(wrap("Enumerated and compared: " + c["RULE"] + ".", "* ", "  "))
        for a in c.get("ASSUMPTIONS", []):
            out.append(wrap("Bound or assumption: " + a + ".", "* ", "  "))
        out.append(wrap("Beyond the tests: " + p["why"] + ".", "* ", "  "))
        for tier in ("quick", "thorough"):
            text = size.get(p["id"], {}).get(tier)
            if text:
                out.append(wrap("%s: %s." % (tier.capitalize(), text), "* ", "  "))
        mine = sorted(k for k, v in bugs.items() if p["id"] in v["by"])
        if mine:
            out.append(wrap("Catches planted: " + ", ".join(mine) + ".", "* ", "  "))
        out.append("")
    if bugs:
        out += ["## Planted bugs", "",
                "In `seeded/`; each compiles, passes the stable tests and fails its own "
                "demonstration.", "",
                "| bug | breaks | caught by | |", "|---|---|---|---|"]
        for name in sorted(bugs):
            b = bugs[name]
            out.append("| %s | %s: %s | %s | %s |" % (
                name, b["property"], b["what"], ", ".join(b["by"]) or "nobody", b.get("note", "")))
        out.append("")
    out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read().rstrip())
    with open(os.path.join(HERE, "DESIGN.md"), "w") as file:
        file.write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
