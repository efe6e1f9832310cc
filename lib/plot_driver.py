"""Run one data or evaluation script of the repository and record what it draws.

    python plot_driver.py OUT.pkl SCRIPT [NAME=LITERAL ...]

Every figure is recorded when it is saved or shown, from the state of its artists (not from the calls that made them).
NAME=LITERAL replaces the value of an assignment `NAME = <literal>`, to run the same code on a smaller campaign (reported if there is none). Text is never typeset (no LaTeX here).
"""
import os
import sys
import ast
import pickle

out, script, over = sys.argv[1], sys.argv[2], dict(a.split('=', 1) for a in sys.argv[3:] if not a.startswith('-'))
options = [a for a in sys.argv[3:] if a.startswith('-')]
import numpy as np

record = {'lpips': 0, 'saved': {}, 'replaced': []}

import figures
record['figures'] = figures.RECORD

# the perceptual metric needs weights from the network: a functional that tells channels, rows and columns apart
import types
fake = types.ModuleType('lpips')


class LPIPS:
    def __init__(self, *a, **kw):
        pass

    def forward(self, a, b, *r, **kw):
        record['lpips'] += 1
        a, b = np.asarray(a, float), np.asarray(b, float)
        for x in (a, b):
            assert x.ndim == 4 and x.shape[0] == 1 and x.shape[1] == 3, f'LPIPS takes (1, 3, h, w), not {x.shape}'
            assert np.abs(x).max() <= 1 + 1e-6, 'LPIPS takes images in [-1, 1]'
        c, h, w = a.shape[1:]
        wt = (1 + np.arange(c))[:, None, None] * (1 + np.arange(h)[:, None] / h) * (1 + 3 * (np.arange(w) / w)[None] ** 2)
        return np.float64((wt * (a - b)[0] ** 2).mean())

    __call__ = forward

    def __getattr__(self, name):
        return lambda *a, **kw: self


fake.LPIPS = LPIPS
sys.modules['lpips'] = fake

# archives are recorded instead of written when they would be huge
if '-record-archives' in options:
    for n in ('savez', 'save', 'savez_compressed'):
        def rec(file, *a, _n=n, **kw):
            record['saved'][str(file)] = kw if kw else a[0]
        setattr(np, n, rec)

with open(script) as f:
    tree = ast.parse(f.read(), script)


def constants(nodes, name):
    """the places that give NAME a literal value: assignments, and defaults of arguments"""
    for node in nodes:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and node.targets[0].id == name \
                and isinstance(node.value, ast.Constant):
            yield node, 'value', None
        if isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.target.id == name and isinstance(node.value, ast.Constant):
            yield node, 'value', None
        if isinstance(node, ast.arguments):
            pos = node.posonlyargs + node.args
            for i, arg in enumerate(pos[len(pos) - len(node.defaults):]):
                if arg.arg == name and isinstance(node.defaults[i], ast.Constant):
                    yield node, 'defaults', i


for name, value in over.items():
    if name.startswith('int:'):
        continue
    places = list(constants(tree.body, name)) or list(constants(ast.walk(tree), name))
    if not places:
        print('CANNOT-SET', name, flush=True)
    for node, field, i in places:
        old = getattr(node, field) if i is None else getattr(node, field)[i]
        new = ast.copy_location(ast.Constant(ast.literal_eval(value)), old)
        if i is None:
            setattr(node, field, new)
        else:
            getattr(node, field)[i] = new
        record['replaced'].append(name)
if any(k.startswith('int:') for k in over):
    class Sizes(ast.NodeTransformer):
        def visit_Constant(self, n):
            k = f'int:{n.value}' if type(n.value) is int else None
            return ast.copy_location(ast.Constant(int(over[k])), n) if k in over else n
    tree = Sizes().visit(tree)
sys.argv = [script] + [o for o in options if o.startswith('--')]
sys.path.insert(0, os.path.dirname(script))
g = {'__name__': '__main__', '__file__': script}
exec(compile(tree, script, 'exec'), g)
print('SCRIPT-DONE', flush=True)
with open(out, 'wb') as f:
    pickle.dump(record, f)
