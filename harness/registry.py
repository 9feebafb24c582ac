"""property id -> jobs (harness x bounds) and evidence metadata"""
REPLAY_DEADLINE_QUICK = 640
STOP_QUICK, STOP_THOROUGH = 560, 6 * 3600


class Job:
    def __init__(self, name, fn, args=(), max_paths=400, budget_s=60.0, timeout_ms=10000, trials=6, weight=1.0,
                 stub_rng=False, conformance=True):
        self.name, self.fn, self.args = name, fn, tuple(args)
        self.max_paths, self.budget_s, self.timeout_ms = max_paths, budget_s, timeout_ms
        self.trials, self.weight, self.stub_rng, self.conformance = trials, weight, stub_rng, conformance


META = {}
_BUILDERS = {}


def prop(pid, **meta):
    def deco(f):
        META[pid] = meta
        _BUILDERS[pid] = f
        return f

    return deco


def jobs(pid, tier="quick"):
    _load()
    return _BUILDERS[pid](tier)


_loaded = False


def _load():
    global _loaded
    if not _loaded:
        _loaded = True
        from . import props_lp, props_domain, props_analyzer, props_workflow, props_remote, props_viewer  # noqa
