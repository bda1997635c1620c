import os

import engine


def make(plan):
    def run(tier, result, deadline):
        explorations = plan(tier)
        only = os.environ.get('MC_ONLY')        # for development: explorations whose name contains it
        if only:
            explorations = [e for e in explorations if only in e.name]
        engine.explore(explorations, result, deadline)
    return run
