"""C30: saved results: every experiment script is run as a user runs it (scratch directory, command line) under a monitor of its saves
(lib/saves/sitecustomize.py): the same command twice, and every pair of commands that differ in one setting."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import importlib.util
import json
import subprocess
import tempfile
import time

spec = importlib.util.spec_from_file_location('images', os.path.join(VERIF, 'checks', 'C27_images.py'))
images = importlib.util.module_from_spec(spec)
spec.loader.exec_module(images)
FOLDERS = ('imgs/results_supr/arrs', 'imgs/results_supr/imgs', 'imgs/results_inpainting/arrs', 'imgs/results_inpainting/imgs',
           'sb_imgs/results', 'checkpoints', 'tmp_figs', 'figs', 'toy/results', 'toy/figs', 'sb/results', 'sb/figs')


def environment(c, log):
    env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF_')}
    return {**env, 'PYTHONPATH': os.pathsep.join([os.path.join(VERIF, 'lib', 'saves'), REPO]), 'PYTHONDONTWRITEBYTECODE': '1', 'JAX_PLATFORMS': 'cpu', 'MPLBACKEND': 'Agg',
            'VERIF_SAVES': log, 'PYTHONHASHSEED': str(int(c.rng.integers(1, 2 ** 31)))}


class Place:
    """A scratch directory with data and parameters in which commands are run one after the other."""
    def __init__(self, c, dataset=None, params=()):
        self.c = c
        self.top = tempfile.TemporaryDirectory(prefix='verif-res-')
        self.cwd = os.path.join(self.top.name, 'exp')
        for f in FOLDERS:
            os.makedirs(os.path.join(self.cwd, f))
        if dataset:
            images.write_data(self.top.name, dataset, c.seed + 17)
        n = {'mnist': 784, 'celeba-2': 12, 'celeba-4': 48}.get(dataset)
        for f in params:
            v = np.random.default_rng(5).uniform(.2, .8, n).astype(np.float32)
            np.savez(os.path.join(self.cwd, 'checkpoints', f), param=v, ema_param=v + .01, param_fwd=v, param_bwd=v[::-1])

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.top.cleanup()

    def run(self, script, args):
        """-> {file: [digest of what was written, ...]} or None after a violation"""
        c, what = self.c, ' '.join([script, *args])
        log = os.path.join(self.top.name, 'saves.log')
        open(log, 'w').close()
        driver = [os.path.join(VERIF, 'lib', 'imgs_driver.py'), os.path.join(self.top.name, 'audit.pkl')] if 'imgs' in script else []
        p = subprocess.run([sys.executable, '-W', 'ignore', *driver, os.path.join(REPO, 'experiments', script), *args], cwd=self.cwd, env=environment(c, log),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        c.ev('scripts_run')
        c.case('command', {'command': what})
        if p.returncode:
            c.fail(f'{script}: a documented command fails', command=what, output=p.stdout[-2500:])
            return None
        saves = {}
        for line in open(log):
            f, d = json.loads(line)
            f = os.path.relpath(f, self.cwd)
            if not f.startswith('..'):
                saves.setdefault(f, []).append(d)
                c.ev('files_saved')
        for f, ds in saves.items():
            c.expect(len(set(ds)) == 1, 'a run overwrites a result of its own with a different one', command=what, file=f, times=len(ds))
            c.expect(os.path.exists(os.path.join(self.cwd, f)), 'a saved file has disappeared', command=what, file=f)
        return saves


def settings(base, options):
    """the base command, and the commands that differ from it in the settings of one option ({name: value}, None for flags)"""
    out = [({}, list(base))]
    for o in options:
        a = list(base)
        for k, v in o.items():
            if v is None:
                a.append(k)
            else:
                a[a.index(k) + 1] = v
        assert a != list(base)
        out.append((o, a))
    return out


def compare(c, script, base, options, expected=(), place=None, repeat=(0,)):
    """place: arguments of Place; expected: {index of the command: files that the evaluation scripts read}"""
    seen = []
    with Place(c, **(place or {})) as pl:
        commands = settings(base, options)
        for i, (diff, args) in enumerate(commands):
            saves = pl.run(script, args)
            if saves is None:
                return
            c.expect(len(saves) > 0, 'nothing is saved', command=' '.join([script, *args]))
            for f in dict(expected).get(i, ()):
                c.expect(f in saves, 'the result that the tables and figures read is not there', command=' '.join([script, *args]), wanted=f, saved=sorted(saves))
                c.ev('names_found')
            for diff2, args2, saves2 in seen:
                common = [f for f in saves if f in saves2 and 'gibbs-init' not in f]
                c.ev('pairs_of_commands')
                for f in common:
                    c.expect(saves[f][-1] == saves2[f][-1] and '-true' in f, 'a command overwrites the result of another', one=' '.join([script, *args2]), other=' '.join([script, *args]), file=f)
            # Monte Carlo runs are different runs
            if '--id' in diff:
                a, b = [np.load(os.path.join(pl.cwd, next(iter(s)))) for s in (seen[0][2], saves)]
                c.expect(not np.array_equal(a['samples'], b['samples']), 'two Monte Carlo runs give the same samples', command=' '.join([script, *args]))
            seen.append((diff, args, saves))
        # once more in the same directory, with all these results lying around
        for i in repeat:
            again = pl.run(script, commands[i][1])
            if again is not None:
                first = seen[i][2]
                c.expect(again == first, 'the same command saves other results when it is run again', command=' '.join([script, *commands[i][1]]),
                         files=sorted(f for f in {*first, *again} if first.get(f) != again.get(f)))
                c.ev('repetitions')


T, S = 'toy/results/', 'sb/results/'
GP = ['--d', '2', '--sde', 'const', '--nsamples', '3', '--id', '0']
FEW = ['--nparticles', '10']
IM = ['--dataset', 'celeba-2', '--sde', 'lin', '--test_nsteps', '4', '--nsamples', '2', '--ny0s', '2', '--test_epoch', '7', '--test_seed', '996']
A, B = 'imgs/results_inpainting/arrs/celeba-2-1-lin-', 'imgs/results_supr/arrs/celeba-2-2-lin-'
CK = dict(dataset='celeba-2', params=[f'celeba-2_{s}_7.npz' for s in ('lin', 'const')])


def both(head, what):
    return [f'{head}{k}-{what}' for k in (0, 1)]


ID, SDE, MORE = {'--id': '1'}, {'--sde': 'lin'}, {'--nparticles': '100'}
EB, EF, MARG, RM = {'--explicit_backward': None}, {'--explicit_final': None}, {'--marg': None}, {'--rnd_mask': None}


def method(m):
    return {'--method': m}


def more(*options):
    return list(options) if THOROUGH else []


# (script, base command, options, files that the evaluation scripts read of the i-th command, place, commands that are repeated); the longest first
TABLE = [
    ('toy/gp_gibbs.py', GP + FEW + ['--nchains', '2'], [{**EB, **EF}, ID, MORE, EB, EF, MARG, *more(SDE, {**EB, **EF, **MARG}, {**EB, **EF, **ID})],
     {0: [T + 'gibbs-const-10-0.npz'], 1: [T + 'gibbs-eb-ef-const-10-0.npz'], 2: [T + 'gibbs-const-10-1.npz'], 4: [T + 'gibbs-eb-const-10-0.npz'], 5: [T + 'gibbs-ef-const-10-0.npz']}, None, (1,))]
for s, size, h in (('supr', ['--rate', '2'], B), ('inpainting', ['--rect_size', '1'], A)):
    rm = [RM] if s == 'supr' else []
    TABLE.append((f'imgs/{s}.py', IM + size + ['--nparticles', '2', '--method', 'filter'],
                  [{'--nparticles': '10'}, method('gibbs-eb-ef'), method('pmcmc-0.005'), MARG, method('gibbs'), method('pmcmc-0.5'), {'--sde': 'const'}, *rm,
                   *more(method('gibbs-eb'), method('gibbs-ef'), {**method('gibbs'), **MARG})],
                  {0: both(h + '2-', 'filter.npy') + both(h + '2-', 'true.npz'), 1: both(h + '10-', 'filter.npy'), 2: both(h + '2-', 'gibbs-eb-ef.npy'),
                   3: both(h + '2-', 'pmcmc-0.005.npy')}, CK, (0, 2, 3) if THOROUGH else (2,)))
P = 'sb_imgs/results/mnist-4-lin-'
SB = dict(dataset='mnist', params=[f'sb_mnist_{s}_7.npz' for s in ('lin', 'const')])
SBA = ['--rate', '4', '--sde', 'lin', '--test_nsteps', '3', '--sb_step', '7', '--nparticles', '3', '--nsamples', '2', '--y0_id', '1']
TABLE += [
    ('sb_imgs/supr.py', SBA + ['--method', 'filter'], [method('gibbs-eb-ef'), {'--y0_id': '2'}, *more({'--nparticles': '4'}, {'--sde': 'const'})],
     {0: [P + '3-1-true.npz'] + [P + f'3-1-filter-{x}.npy' for x in ('random', 'blank', 'interp')], 1: [P + f'3-1-gibbs-{m}-{x}.npy' for x in ('random', 'blank', 'interp') for m in ('eb-ef', 'init')]}, SB,
     (0, 1) if THOROUGH else (0,)),
    ('toy/gp_pmcmc.py', GP + FEW + ['--nchains', '2', '--delta', '0.005'], [ID, MORE, {'--delta': '0.001'}, {'--delta': '0.01'}, *more(SDE)],
     {0: [T + 'pmcmc-0.005-const-10-0.npz'], 3: [T + 'pmcmc-0.001-const-10-0.npz']}, None, (0,)),
    ('sb/gibbs.py', ['--d', '2', '--nsamples', '3', '--id', '0'] + FEW, [ID, EB, MORE], {0: [S + 'gibbs-10-0.npz'], 2: [S + 'gibbs-eb-10-0.npz']}, None, (0,)),
    ('sb/filter.py', ['--d', '2', '--nsamples', '3', '--id', '0', '--x0', 'heuristic'] + FEW, [ID, MORE, {'--x0': 'proper'}],
     {0: [S + 'filter-heuristic-10-0.npz'], 3: [S + 'filter-proper-10-0.npz']}, None, (0,))]
for s, size, h in (('supr', ['--rate', '2'], B), ('inpainting', ['--rect_size', '1'], A)):
    rm = [RM] if s == 'supr' else []
    TABLE += [
        (f'imgs/{s}_csgm.py', IM + size, [{'--sde': 'const'}, *rm], {0: both(h, 'csgm.npy') + both(h, 'true.npz')}, CK, (0,)),
        (f'imgs/{s}_twisted.py', IM + size + ['--nparticles', '2'], [{'--nparticles': '10'}, *rm, *more({'--sde': 'const'})], {0: both(h + '2-', 'twisted.npy')}, CK, (0,))]
TABLE += [
    ('toy/gp_filter.py', GP + FEW, [ID, SDE, MORE], {0: [T + 'filter-const-10-0.npz'], 3: [T + 'filter-const-100-0.npz']}, None, (0,)),
    ('imgs/train.py', ['--dataset', 'celeba-2', '--sde', 'const', '--nepochs', '100', '--batch_size', '29000', '--nsteps', '2'], [SDE],
     {0: ['checkpoints/celeba-2_const_99.npz'], 1: ['checkpoints/celeba-2_lin_99.npz']}, dict(dataset='celeba-2'), (0,)),
    ('sb_imgs/train.py', ['--dataset', 'celeba-2', '--sde', 'lin', '--nepochs', '2', '--batch_size', '5800', '--nsteps', '3', '--nsbs', '2'], [{'--sde': 'const'}],
     {0: ['checkpoints/sb_celeba-2_lin_0.npz', 'checkpoints/sb_celeba-2_lin_1.npz'], 1: ['checkpoints/sb_celeba-2_const_1.npz']}, dict(dataset='celeba-2'), (0,)),
    ('toy/gp_twisted.py', GP + FEW, [ID, SDE, MORE], {0: [T + 'twisted-const-10-0.npz'], 2: [T + 'twisted-lin-10-0.npz']}, None, (0,)),
    ('toy/gp_csgm.py', GP, [ID, SDE], {0: [T + 'csgm-const-0.npz'], 1: [T + 'csgm-const-1.npz'], 2: [T + 'csgm-lin-0.npz']}, None, (0,))]


def scripts(c):
    i, m = c.part
    for row in TABLE[i::m]:
        start = time.time()
        compare(c, *row)
        if os.environ.get('VERIF_TIMES'):
            print(row[0], round(time.time() - start), flush=True)


if __name__ == '__main__':
    run_sections(
        Check('C30', 'Experiment scripts x commands that differ in one setting, and the same command again; non-trivial = distinct command',
              ['small problems (two dimensions, 2 x 2 images, few steps) and stand-in networks; names, equality and difference do not depend on the size']),
        parts(scripts, len(TABLE)), scripts_run=50, files_saved=100, pairs_of_commands=80, repetitions=14, names_found=25)
