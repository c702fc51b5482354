"""C23 correlation functions: Runs.tla, RunsMC.tla, RunsTrace.tla."""
from . import runs


def run(ctx):
    runs.run(ctx, 450, 5000, "corr", (1, 2), "one two", "Idle Recorded Mirror Sides Falls Horizon Only")
