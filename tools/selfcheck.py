"""setup_cmd: nothing to build; makes sure that everything the checks need is installed."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import tempfile  # noqa: E402
from vlib import sut  # noqa: E402

with tempfile.TemporaryDirectory() as d:
    sut.prepare(d)
    import hypothesis
    import lxml
    import matplotlib
    import numpy
    import PIL
    import scipy
    print('python', sys.version.split()[0], 'numpy', numpy.__version__, 'hypothesis', hypothesis.__version__)
