"""C24 runs of several programs, their directory and status: Runs.tla, RunsMC.tla, RunsTrace.tla."""
from . import runs


def run(ctx):
    runs.run(ctx, 550, 5000, "config", (1, 2), "both half",
             "Series Together Directed Fails")
