"""C02: every history with orderly restarts (same or other page size) anywhere in it."""
TECHNIQUE = 'explicit-state exploration of operation sequences with restarts at every point'
NOTE = 'As C01, with orderly shutdown and reopening (same or different page size) as a further operation in every state; reading the reopened queue back completely.'
from mc import boot
from mc.core import pmap, digest
from mc.tour import Tour, canon
from .queues import QueueSystem, blocks, PendingQueueSystem


def configs(tier):
    if tier == "quick":
        return [("q", 1, 4, (1, 2)), ("q", 2, 6, (2,)), ("q", 2, 5, (2, 3)), ("q", 3, 7, (3,)), ("q", 2, 5, (2, 1)), ("q", 3, 6, (3, 100)),
                ("p", 1, 2, 3), ("p", 2, 1, 4)]
    return [("q", 1, 7, (1, 2)), ("q", 2, 9, (2,)), ("q", 2, 8, (2, 3)), ("q", 3, 11, (3,)), ("q", 2, 8, (2, 1)), ("q", 3, 9, (3, 100)),
            ("q", 4, 12, (4,)), ("q", 3, 9, (3, 2, 5)), ("p", 1, 2, 4), ("p", 2, 3, 5), ("p", 3, 3, 6)]


def large(tier):
    if tier == "quick":
        return [("blocks", 7, 4, (7, 3)), ("blocks", 16, 3, (16, 40)), ("blocks", 100, 3, (100, 7), True), ("blocks", 1100, 2, (1100,), True)]
    return [("blocks", 7, 5, (7, 3)), ("blocks", 16, 4, (16, 40)), ("blocks", 33, 4, (33, 10)), ("blocks", 100, 4, (100, 7), True), ("blocks", 1100, 3, (1100,), True)]


def run(report, tier):
    boot.prepare()
    boot.quiet_logging()
    import ekosis.queues  # noqa
    budget = 240 if tier == "quick" else 2400

    def one(cfg):
        if cfg[0] == "blocks":
            return blocks(*cfg[1:])
        if cfg[0] == "q":
            s = QueueSystem(cfg[1], cfg[2], restart_sizes=cfg[3], light=True)
            return Tour(f"queue page_size={cfg[1]} max_items={cfg[2]} restart_page_sizes={cfg[3]}", s, budget).run()
        s = PendingQueueSystem(cfg[1], cfg[2], cfg[3])
        return Tour(f"pending+error queue page_size={cfg[1]} retries<{cfg[2]} items={cfg[3]} with restarts", s, budget).run()

    for part in pmap(one, configs(tier) + large(tier)):
        report.add(part)
    report.notes["bounds"] = "page sizes and fill per part; restart is one of the operations in every state, so any number of restarts at any position"
    report.assumptions += ["sqlite stores what it is given"]
