"""What is known to be wrong with the code and wasn't repaired (see known_findings.json)."""
import json

import real
import tlc


def lines(pid):
    """Descriptions of those known findings of a property that are still there."""
    known = json.loads((tlc.VERIF / "known_findings.json").read_text())["known"]
    mine = [k for k in known if k["property"] == pid]
    answers = real.run([(k["text"], k["width"]) for k in mine])
    found = []
    for k, ((outcome, text), _) in zip(mine, answers):
        if "refused" in k:
            there = outcome == k["refused"]
        else:
            there = (outcome, text) == ("ok", k["delivers"])
            if there and "then" in k:
                through, direct = real.run([(text, k["then"]), (k["text"], k["then"])])
                there = through != direct
        if there:
            found.append(k["what"])
    return found

