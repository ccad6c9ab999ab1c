"""Model checking of the specification itself (without the code), once, while preparing."""
import json
import time

import tlc

PATH = tlc.VERIF / "build" / "model.json"
DOCUMENTS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
             "C14", "C15", "C17", "C18", "C26"]
# Module, configuration, seconds it may take, which properties it is about
RUNS = [
    ("MC_Engine", "MC_EngineDeep", 400, DOCUMENTS),
    ("MC_Engine", "MC_EngineDeeper", 400, DOCUMENTS),
    ("MC_Threads", "MC_Threads", 120, ["C19"]),
    ("MC_Cli", "MC_Cli", 400, ["C20", "C21", "C22", "C23", "C24", "C25"]),
]


def run_all(log=print):
    found = {}
    for module, config, limit, properties in RUNS:
        start = time.monotonic()
        try:
            code, output = tlc.run_tlc(module, config, timeout=limit)
        except tlc.MachineryError as error:
            log(f"{config}: {error}")
            continue
        tlc.must(config, code, output)
        transitions, states = tlc.stats(output)
        found[config] = dict(states=states, transitions=transitions, properties=properties,
                             seconds=round(time.monotonic() - start))
        log(f"{config}: {states} states")
        PATH.parent.mkdir(exist_ok=True)
        PATH.write_text(json.dumps(found, indent=1))


def about(pid):
    """What the model checking of the specification covered, for the evidence."""
    if not PATH.exists():
        return {}
    return {
        config: {k: run[k] for k in ("states", "transitions")}
        for config, run in json.loads(PATH.read_text()).items()
        if pid in run["properties"]
    }
