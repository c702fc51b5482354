"""C11 propagation output series and restart: Runs.tla, RunsMC.tla, RunsTrace.tla."""
from . import runs


def run(ctx):
    runs.run(ctx, 800, 6000, "series", (2, 3), "whole continued back failed driven",
             "Series Restart Conserved Reversed Fails")
