"""Runs `python -m srg.database ARGS` with matplotlib's savefig wrapped: what is in the figure at the moment of saving
goes to the file named first.  Nothing of the repository is replaced."""
import json
import runpy
import sys

out, args = sys.argv[1], sys.argv[2:]
import matplotlib
matplotlib.use('Agg')
import matplotlib.figure
import numpy as np
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.patches import FancyArrowPatch

log = []
real = matplotlib.figure.Figure.savefig


def savefig(self, fname, *a, **kw):
    rec = {'file': str(fname), 'labels': [], 'nodes': [], 'edges': []}
    for ax in self.axes:
        for t in ax.texts:
            rec['labels'].append([t.get_text(), [float(x) for x in t.get_position()]])
        for c in ax.collections:
            if isinstance(c, LineCollection):
                for s in c.get_segments():
                    rec['edges'].append([[float(x) for x in s[0]], [float(x) for x in s[-1]]])
            elif isinstance(c, PathCollection):
                rec['nodes'] += [[float(x) for x in o] for o in np.asarray(c.get_offsets())]
        for q in ax.patches:
            if isinstance(q, FancyArrowPatch) and getattr(q, '_posA_posB', None):
                rec['edges'].append([[float(x) for x in e] for e in q._posA_posB])
    log.append(rec)
    return real(self, fname, *a, **kw)


matplotlib.figure.Figure.savefig = savefig
sys.argv = ['srg.database'] + args
try:
    runpy.run_module('srg.database', run_name='__main__', alter_sys=True)
finally:
    with open(out, 'w') as f:
        json.dump(log, f)
