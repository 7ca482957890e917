"""C01: every operation sequence on a buffer queue agrees with an ordered map."""
TECHNIQUE = 'explicit-state exploration of the real queue against an ordered-map reference'
NOTE = 'Every reachable state of the queue within the item/page bounds is visited and every operation is executed from it on the real code (in-memory and sqlite parts included). Assumes single-threaded use, as in the framework.'
from mc import boot
from mc.core import pmap
from mc.tour import Tour
from .queues import QueueSystem, blocks


def configs(tier):
    if tier == "quick":
        return [(1, 6), (2, 7), (3, 8), (4, 9), (2, 9), (1, 8), (100, 5), (3, 11), (2, 6, (), False, True), (3, 8, (), False, True)]
    return [(1, 9), (2, 11), (3, 13), (4, 14), (5, 16), (7, 18), (100, 8), (3, 15), (2, 8, (), False, True), (3, 10, (), False, True)]


def large(tier):
    if tier == "quick":
        return [("blocks", 7, 4), ("blocks", 16, 3), ("blocks", 100, 2), ("blocks", 150, 2, (), True), ("blocks", 1100, 2, (), True)]
    return [("blocks", 7, 5), ("blocks", 16, 4), ("blocks", 33, 4), ("blocks", 100, 3), ("blocks", 150, 4, (), True), ("blocks", 1100, 3, (), True)]


def run(report, tier):
    boot.prepare()
    boot.quiet_logging()
    import ekosis.queues  # noqa
    budget = 240 if tier == "quick" else 2400

    def one(cfg):
        if cfg[0] == "blocks":
            return blocks(*cfg[1:])
        return Tour(f"queue page_size={cfg[0]} max_items={cfg[1]}{" equal contents" if len(cfg) > 2 else ""}", QueueSystem(*cfg), budget).run()

    for part in pmap(one, configs(tier) + large(tier)):
        report.add(part)
    report.notes["bounds"] = "page sizes and maximum fill per part; every (canonical state, operation) pair up to renaming of keys"
    report.assumptions += ["sqlite stores what it is given", "keys are exchangeable except for the awkward values in the key set"]
