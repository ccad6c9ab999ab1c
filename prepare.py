#!/opt/venv/bin/python
"""Has the specification produce what the checks replay.  Run once, before the checks."""
import os
import pathlib
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent / "lib"))

import docs  # noqa: E402
import model  # noqa: E402
import relations  # noqa: E402

if __name__ == "__main__":
    start = time.monotonic()
    budget = float(os.environ.get("MF_CORPUS_S", "420"))
    total = docs.build_corpus(0.7 * budget)
    related = relations.build_corpus(0.3 * budget)
    model.run_all()
    print(f"{total} documents and {related} relations in {time.monotonic() - start:.0f} s")
