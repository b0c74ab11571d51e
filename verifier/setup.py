"""Checks that the tools are present and builds the IR of the current tree once."""
import sys
from . import build
if __name__ == '__main__':
    import z3, numpy
    try: print(build.build_ir())
    except build.BuildError as x: print('the tree does not build:', str(x)[:2000])
    sys.exit(0)
