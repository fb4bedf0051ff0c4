"""Brings the simulator up inside this interpreter: seams first, then the heavy libraries, then the stand-ins."""
import os
import sys
import types
import warnings

_done = False


def boot():
    global _done
    if _done:
        return
    _done = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('MPLCONFIGDIR', '/opt/mplconfig')
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(v, '1')
    sys.dont_write_bytecode = True
    from . import seams
    seams.install()
    warnings.simplefilter('ignore')
    import numpy  # noqa
    import shapely, shapely.plotting, shapely.ops, shapely.affinity, shapely.geometry  # noqa
    import matplotlib.pyplot, matplotlib.animation  # noqa
    import networkx, triangle  # noqa
    import sympy.combinatorics.graycode  # noqa
    import json, glob, itertools, argparse, heapq, copy, csv, shutil, fnmatch, re, difflib, pathlib  # noqa
    from .stubs import networkit, pynndescent, pandas, scipy, tqdm
    sys.modules['tqdm'] = sys.modules['tqdm.auto'] = sys.modules['tqdm.std'] = tqdm
    tqdm.auto = tqdm.std = tqdm
    sys.modules.update(networkit.build_modules())
    sys.modules.update(scipy.build_modules())
    sys.modules['pynndescent'] = pynndescent
    sys.modules['pandas'] = pandas
    from . import tampstubs
    sys.modules.update(tampstubs.build_modules())
    from . import loader
    loader.install()
