"""python3 -m rv.compile: compile the Quint models to the TLA+ modules TLC reads (spec/tla)."""
import os
import sys

from . import core


def main():
    os.makedirs(core.TLA, exist_ok=True)
    only = sys.argv[1:]
    for src, mods in core.MODELS.items():
        for m in mods:
            if only and m not in only:
                continue
            try:
                core.check_compiled(m)
                continue
            except core.ToolError:
                pass
            text = core.compile_model(m)
            with open(os.path.join(core.TLA, m + '.tla'), 'w') as f:
                f.write(text)
            print(m)


main()
