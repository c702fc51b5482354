"""C12 filter chains during a propagation: Runs.tla, RunsMC.tla, RunsTrace.tla."""
from . import runs


def run(ctx):
    runs.run(ctx, 550, 5000, "filters", (1, 2), "whole failed acted watched",
             "Series Conserved Looking Tables Fails")
