import os
import sys

from mc import choices
choices.install()          # before celest is imported

from mc import core


def main(argv):
    if argv and argv[0] == "--replay":
        return core.replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return core.run_property(argv[0], tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
