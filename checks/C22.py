"""C22 the filter program over a recorded series: Runs.tla, RunsMC.tla, RunsTrace.tla."""
from . import runs


def run(ctx):
    runs.run(ctx, 900, 6000, "filters", (2, 2), "filtered failed watched",
             "Reads Agrees Looking Fails")
