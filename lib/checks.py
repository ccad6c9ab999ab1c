"""Which machinery decides which property."""
import cli
import diagnose
import docs
import findings
import interleave
import model
import relations


def outcome_of(result, **more):
    coverage = dict(
        states=result.states,
        transitions=result.transitions,
        traces_validated_against_impl=result.evaluations,
        replayed_from_corpus=result.replayed,
        judged_by_specification=result.judged,
        different_from_specification=result.mismatches,
        distinct_nontrivial=len(result.nontrivial),
        samples=result.samples or ["(ended at a violation)"],
    )
    coverage.update(result.notes)
    coverage.update(more)
    return dict(level="model_checking", violations=result.violations, coverage=coverage)


def run(pid, seed, tier):
    outcome = decide(pid, seed, tier)
    checked = model.about(pid)
    if checked:
        # (While preparing, not in this run)
        outcome["coverage"]["model_checked_beforehand"] = checked
    outcome["findings"] = findings.lines(pid)
    return outcome


def decide(pid, seed, tier):
    if pid in docs.OF_PROPERTY:
        return outcome_of(docs.check(pid, seed, tier))
    if pid in relations.RELATIONS:
        result = relations.check(pid, seed, tier)
        return outcome_of(result, related_runs=result.related)
    if pid in diagnose.JUDGES:
        return outcome_of(diagnose.check(pid, seed, tier))
    if pid == "C19":
        return outcome_of(interleave.check(pid, seed, tier))
    if pid in cli.MAKERS:
        return outcome_of(cli.check(pid, seed, tier))
    raise KeyError(pid)
