"""C28: around the experiments: keys and data sets, the launched campaign, the tables and figures.

The scripts are run as a user runs them, in a scratch directory; the launchers with stand-ins for `python` and `sbatch`
that record their command lines (lib/argv_driver.py has each script parse its own); the evaluation scripts on synthetic
results with a recorder on the figures (lib/plot_driver.py). Oracles: definitions, recomputed from the synthetic files.
"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *
import glob
import json
import pickle
import re
import shutil
import subprocess
import tempfile
import scipy.linalg
import scipy.stats

EXP = os.path.join(REPO, 'experiments')
LIB = os.path.join(VERIF, 'lib')


def environment(**kw):
    env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF_')}
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', MPLBACKEND='Agg', MPLCONFIGDIR=kw.pop('tmp', '/tmp'), **kw)
    return env


def scratch():
    return tempfile.TemporaryDirectory(prefix='verif-camp-')


def evaluate(c, tmp, script, *options):
    """-> (figures and recordings, printed text) or None after a violation."""
    out = os.path.join(tmp, 'record.pkl')
    for f in ('figs', 'logs'):
        os.makedirs(os.path.join(tmp, f), exist_ok=True)
    p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(LIB, 'plot_driver.py'), out, os.path.join(EXP, script), *options], cwd=tmp,
                       env=environment(tmp=tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    c.ev('scripts_run')
    c.case('script', {'script': script, 'options': options})
    if 'CANNOT-SET' in p.stdout:  # the script is organised differently: it cannot be run on a small campaign
        c.ev('scripts_not_run')
        return None
    if not c.expect(p.returncode == 0 and 'SCRIPT-DONE' in p.stdout, f'{script} fails', output=p.stdout[-3000:]):
        return None
    with open(out, 'rb') as f:
        return pickle.load(f), p.stdout


# ---- keys and data ---------------------------------------------------------------------------------------------------
def keys(c):
    with scratch() as tmp:
        if evaluate(c, tmp, 'generate_rng_keys.py') is None:
            return
        new = np.load(os.path.join(tmp, 'keys.npy'))
        old = np.load(os.path.join(EXP, 'keys.npy'))
        c.expect(new.shape == (1000, 2) and new.dtype == old.dtype, 'a thousand keys', shape=new.shape, dtype=str(new.dtype))
        c.expect(len(np.unique(new, axis=0)) == len(new), 'the keys of the Monte Carlo experiments are pairwise distinct')
        c.expect(np.array_equal(new, old), 'the committed keys are those the script generates')
        c.expect(len(np.unique(old, axis=0)) == len(old), 'the committed keys are pairwise distinct')
        c.ev('keys', len(new))


def cifar(c):
    rng = c.rng
    with scratch() as tmp:
        os.makedirs(os.path.join(tmp, 'cifar-10-batches-py'))
        batches = []
        for name in [f'data_batch_{i + 1}' for i in range(5)] + ['test_batch']:
            x = rng.integers(0, 256, (10000, 3072), dtype=np.uint8)
            x[0, :3], x[-1, -3:] = (0, 255, 1), (255, 0, 254)
            batches.append(x)
            with open(os.path.join(tmp, 'cifar-10-batches-py', name), 'wb') as f:
                pickle.dump({b'data': x, b'labels': [0] * 10000}, f, protocol=4)
        r = evaluate(c, tmp, 'datasets/make_cifar10.py', '-record-archives')
        if r is None:
            return
        saved = r[0]['saved']
        names = [n for n in saved if os.path.basename(n) in ('cifar10.npz', 'cifar10')]
        if not c.expect(len(names) == 1 and set(saved[names[0]]) >= {'train_data', 'test_data'}, 'cifar10.npz holds train_data and test_data', saved=list(saved)):
            return
        z = saved[names[0]]
        for name, bs in (('train_data', batches[:5]), ('test_data', batches[5:])):
            got = np.asarray(z[name])
            if not c.expect(got.shape == (10000 * len(bs), 32, 32, 3) and got.dtype == np.float32, f'{name}: shape and type', shape=got.shape, dtype=str(got.dtype)):
                continue
            for i, b in enumerate(bs):
                want = np.moveaxis(b.reshape(-1, 3, 32, 32), 1, -1).astype(np.float64) / 255
                g = got[i * 10000:(i + 1) * 10000]
                c.expect(np.abs(g - want).max() < 1e-6, f'{name}: pixel (row, column, channel) of every image of batch {i + 1}, in order',
                         worst=float(np.abs(g - want).max()))
                c.ev('images', len(b))


def celeba(c):
    """The script's own size (30 000) is reduced; its files are read by the loader of the library."""
    from PIL import Image
    rng, n = c.rng, 37
    with scratch() as tmp:
        os.makedirs(os.path.join(tmp, 'data128x128'))
        ref = np.zeros((n, 128, 128, 3))
        for i in range(n):
            y, x = np.mgrid[:128, :128] / 128.
            im = np.stack([np.sin(2 * np.pi * (rng.uniform(.3, 2) * x + rng.uniform(.3, 2) * y) + rng.uniform(0, 6)) for _ in range(3)], -1)
            im = np.uint8(np.clip(128 + 150 * im, 0, 255))
            f = os.path.join(tmp, 'data128x128', f'{i + 1:05}.jpg')
            Image.fromarray(im).save(f, quality=90)
            ref[i] = np.asarray(Image.open(f)) / 255.
        r = evaluate(c, tmp, 'datasets/celebaHQ/convert.py', f'int:30000={n}', '-record-archives')
        if r is None:
            return
        saved = {os.path.basename(k).replace('.npy', ''): v for k, v in r[0]['saved'].items()}
        if not c.expect({'celeba_hq128', 'celeba_hq64'} <= set(saved), 'both resolutions are saved', saved=list(saved)):
            return
        c.close(saved['celeba_hq128'], ref, 'the images in the order of their file names, in [0, 1]', rtol=0, atol=1e-6)
        # linear resizing by a half with anti-aliasing: the triangle (1, 3, 3, 1) / 8 along both axes, renormalised at the borders
        W = np.zeros((64, 128))
        for i in range(64):
            for j, w in zip(range(2 * i - 1, 2 * i + 3), (1, 3, 3, 1)):
                if 0 <= j < 128:
                    W[i, j] = w
        W /= W.sum(1, keepdims=True)
        want = np.einsum('ai,bj,nijc->nabc', W, W, ref)
        c.close(saved['celeba_hq64'], want, 'the 64 x 64 images are the linear reduction of the same images', rtol=0, atol=2e-4)
        c.ev('images', n)


# ---- the campaign ----------------------------------------------------------------------------------------------------
RECORD = '''#!/bin/bash
printf '%s\\0' "$PWD" "$@" > "$VERIF_LOG/$EPOCHREALTIME.$BASHPID"
'''
SBATCH = '''#!/bin/bash
spec=
while [[ $1 == -* ]]; do
  case $1 in --array=*) spec=${1#*=}; shift ;; -a|--array) spec=$2; shift 2 ;; --*=*) shift ;; --wait|--parsable|-W) shift ;; -?) shift 2 ;; --*) shift 2 ;; *) shift ;; esac
done
if [[ -z $spec ]]; then
  while IFS= read -r line; do
    if [[ $line =~ ^#SBATCH[[:space:]]+(-a|--array)[=[:space:]]*([-0-9,:%]+) ]]; then spec=${BASH_REMATCH[2]}; fi
  done < "$1"
fi
if [[ -z $spec ]]; then exec /bin/bash "$@"; fi
IFS=, read -ra parts <<< "${spec%%%*}"
for p in "${parts[@]}"; do
  step=1; [[ $p == *:* ]] && step=${p#*:}; p=${p%:*}
  for (( t=${p%-*}; t<=${p#*-}; t+=step )); do SLURM_ARRAY_TASK_ID=$t /bin/bash "$@"; done
done
'''


def launch(c, what, launcher, *args):
    """Run a launcher; -> {script: [argv]} of what it starts."""
    with scratch() as tmp:
        exp, bin_, log = os.path.join(tmp, 'fbs', 'experiments'), os.path.join(tmp, 'bin'), os.path.join(tmp, 'log')
        for d in (exp, bin_, log, os.path.join(tmp, 'fbs', 'venv', 'bin'), os.path.join(tmp, 'home')):
            os.makedirs(d)
        shutil.copytree(os.path.join(EXP, 'bashes'), os.path.join(exp, 'bashes'))
        for f in glob.glob(os.path.join(EXP, '*.sh')):
            shutil.copy(f, exp)
        for f in ('fbs/venv/bin/activate', 'home/.bashrc'):
            open(os.path.join(tmp, f), 'w').close()
        # nothing but these stand-ins is on the path
        for n, text in (('python', RECORD), ('python3', RECORD), ('sbatch', SBATCH), ('nvidia-smi', '#!/bin/bash\n'), ('mkdir', '#!/bin/bash\n'),
                        ('tee', '#!/bin/bash\nwhile IFS= read -r l; do :; done\n'), ('sleep', '#!/bin/bash\n'), ('bash', '#!/bin/bash\nexec /bin/bash "$@"\n')):
            with open(os.path.join(bin_, n), 'w') as f:
                f.write(text)
            os.chmod(os.path.join(bin_, n), 0o755)
        for n in ('srun', 'nohup', 'time'):   # what is started through these is started
            with open(os.path.join(bin_, n), 'w') as f:
                f.write('#!/bin/bash\nwhile [[ "$1" == -* ]]; do shift; done\nexec "$@"\n')
            os.chmod(os.path.join(bin_, n), 0o755)
        for n in ('module', 'ml', 'free', 'squeue', 'scontrol', 'touch'):
            with open(os.path.join(bin_, n), 'w') as f:
                f.write('#!/bin/bash\n')
            os.chmod(os.path.join(bin_, n), 0o755)
        for n in ('seq', 'cat', 'date', 'basename', 'dirname', 'expr', 'nproc', 'head', 'tail', 'sort', 'tr', 'cut', 'sed', 'awk', 'wc', 'grep', 'xargs', 'realpath', 'uniq', 'bc',
                  'hostname', 'env', 'readlink', 'printf', 'true', 'false', 'test', 'id', 'uname'):   # read only
            real = shutil.which(n)
            if real:
                os.symlink(real, os.path.join(bin_, n))
        p = subprocess.run(['/bin/bash', launcher, *map(str, args)], cwd=exp, timeout=600, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env={'PATH': bin_, 'HOME': os.path.join(tmp, 'home'), 'WRKDIR': tmp, 'VERIF_LOG': log})
        c.ev('launchers_run')
        c.case('launcher', {'launcher': launcher, 'args': args})
        if not c.expect(p.returncode == 0, f'{what}: {launcher} fails', output=p.stdout[-2000:]):
            return {}
        runs = {}
        for f in glob.glob(os.path.join(log, '*')):
            with open(f) as g:
                cwd, *argv = g.read().split('\0')[:-1]
            while argv and argv[0] in ('-u', '-B', '-O'):
                argv.pop(0)
            if c.expect(argv and os.path.realpath(cwd) == os.path.realpath(exp), f'{what}: a script is started from ./experiments', cwd=cwd, argv=argv):
                runs.setdefault(argv[0], []).append(argv[1:])
        return runs


def settings(c, what, runs):
    """The settings each started script reads from its command line."""
    with scratch() as tmp:
        with open(os.path.join(tmp, 'c.json'), 'w') as f:
            json.dump({os.path.join(EXP, s): a for s, a in runs.items()}, f)
        p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(LIB, 'argv_driver.py'), os.path.join(tmp, 'c.json'), os.path.join(tmp, 'o.json')],
                           cwd=tmp, env=environment(tmp=tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not c.expect(p.returncode == 0 and 'SCRIPT-DONE' in p.stdout, f'{what}: a started script fails before it has parsed its arguments', output=p.stdout[-2000:]):
            return {}
        with open(os.path.join(tmp, 'o.json')) as f:
            got = json.load(f)
    out = {}
    for s, argvs in runs.items():
        out[s] = got[os.path.join(EXP, s)]
        for a, ns in zip(argvs, out[s]):
            c.ev('command_lines')
            if not c.expect('__rejected__' not in ns, f'{what}: {s} rejects its command line', argv=a, why=ns.get('__rejected__')):
                return {}
    return out


def toy_campaign(c):
    jobs = [('run_toy_all_local.sh', (n, s)) for n, s in ((10, 'const'),)] + [('run_toy_all.sh', (100, 'lin', 'dardel')), ('run_toy_all.sh', (10, 'const', 'x'))]
    if c.thorough:
        jobs += [('run_toy_all_local.sh', (64, 'lin')), ('run_toy_all.sh', (2, 'const', 'dardel')), ('run_toy_all.sh', (33, 'lin'))]
    for launcher, args in jobs:
        what = ' '.join(map(str, (launcher, *args)))
        got = settings(c, what, launch(c, what, launcher, *args))
        if not got:
            continue
        want = {f'toy/gp_{m}.py' for m in ('filter', 'gibbs', 'pmcmc', 'twisted', 'csgm')}
        c.expect(set(got) == want, f'{what}: the five methods are started', started=sorted(got))
        same = set()
        for s, rs in got.items():
            c.expect(sorted(r['id'] for r in rs) == list(range(100)), f'{what}: {s}: experiments 0 to 99, each once', ids=sorted(r['id'] for r in rs)[:120])
            for r in rs:
                same.add((r['d'], r['nsamples']))
                c.expect(r['sde'] == args[1], f'{what}: {s}: the noising process asked for', got=r)
                c.expect(r.get('nparticles', args[0]) == args[0], f'{what}: {s}: the number of particles asked for', got=r)
                if 'gibbs' in s:
                    c.expect(r['explicit_backward'] and not r['marg'], f'{what}: the Gibbs sampler that is tabulated (gibbs-eb)', got=r)
                if 'pmcmc' in s:
                    c.expect(r['delta'] == .005, f'{what}: pMCMC step', got=r)
        c.expect(len(same) == 1, f'{what}: all methods solve problems of one size with as many samples', sizes=sorted(same))


def image_campaign(c):
    kinds = [('mnist', 100), ('celeba-64', 10)] + ([('celeba-128', 2)] if c.thorough else [])
    trained = {}
    for ds in ('mnist', 'celeba-64'):
        got = settings(c, f'run_train.sh {ds} lin', launch(c, 'run_train.sh', 'run_train.sh', ds, 'lin'))
        rs = got.get('imgs/train.py', [])
        if c.expect(len(rs) == 1 and rs[0]['dataset'] == ds and rs[0]['sde'] == 'lin', f'run_train.sh {ds}: one training of what is asked for', got=rs):
            trained[ds] = rs[0]
    for ds, n in kinds:
        what = f'run_imgs_all.sh {ds} {n}'
        runs = launch(c, what, 'run_imgs_all.sh', ds, n)
        if (c.rng.integers(2) or c.thorough) and runs:
            local = {}
            for m in ('filter', 'gibbs', 'pmcmc', 'twisted', 'csgm'):
                for s, a in launch(c, what, f'bashes/imgs_{m}_local.sh', *((ds, n) if m != 'csgm' else (ds,))).items():
                    local.setdefault(s, []).extend(a)
            c.expect({s: sorted(a) for s, a in local.items()} == {s: sorted(a) for s, a in runs.items()},
                     f'{what}: the local and the cluster launchers start the same experiments', local=local, cluster=runs)
        got = settings(c, what, runs)
        if not got:
            continue
        common = set()
        for task, size in (('inpainting', {'mnist': 15, 'celeba-64': 32, 'celeba-128': 64}), ('supr', {'mnist': 4, 'celeba-64': 2, 'celeba-128': 2})):
            c.expect(sorted(r['method'] for r in got.get(f'imgs/{task}.py', [])) == ['filter', 'gibbs-eb-ef', 'pmcmc-0.005'],
                     f'{what}: {task}: the methods that are tabulated, each once', got=got.get(f'imgs/{task}.py'))
            for m in ('csgm', 'twisted'):
                c.expect(len(got.get(f'imgs/{task}_{m}.py', [])) == 1, f'{what}: {task}: {m} once')
            for s, rs in got.items():
                if s.startswith(f'imgs/{task}'):
                    for r in rs:
                        common.add(tuple((k, r[k]) for k in ('dataset', 'sde', 'test_seed', 'ny0s', 'start_from', 'nsamples', 'test_epoch', 'test_ema', 'test_nsteps')))
                        c.expect(r['dataset'] == ds and r.get('nparticles', n) == n, f'{what}: {s}: the data set and the number of particles asked for', got=r)
                        c.expect(r['rect_size' if task == 'inpainting' else 'rate'] == size[ds], f'{what}: {s}: size of the task', got=r)
                        c.expect(r['start_from'] == 0 and not r.get('marg') and not r.get('rnd_mask'), f'{what}: {s}: all the observations', got=r)
                        if ds in trained:
                            c.expect(r['test_epoch'] < trained[ds]['nepochs'] and r['sde'] == trained[ds]['sde'], f'{what}: {s}: a model that was trained', got=r)
        c.expect(len(common) == 1, f'{what}: all methods restore the same observations with the same model and discretisation', settings=sorted(common))


def sb_campaign(c):
    got = settings(c, 'run_sb_all.sh', launch(c, 'run_sb_all.sh', 'run_sb_all.sh'))
    if got:
        c.expect(set(got) == {'sb/filter.py', 'sb/gibbs.py'}, 'run_sb_all.sh: both methods', started=sorted(got))
        ns = sorted({r['nparticles'] for r in got['sb/filter.py']})
        for x0 in ('proper', 'heuristic'):
            c.expect(sorted((r['nparticles'], r['id']) for r in got['sb/filter.py'] if r['x0'] == x0) == [(n, i) for n in ns for i in range(100)],
                     f'run_sb_all.sh: filter with {x0} initialisation: experiments 0 to 99, each once')
        c.expect(sorted((r['nparticles'], r['id']) for r in got['sb/gibbs.py']) == [(n, i) for n in ns for i in range(100)],
                 'run_sb_all.sh: Gibbs: experiments 0 to 99, each once')
        c.expect(set(ns) <= {2, 4, 8, 16, 32, 64} and len(ns) >= 5, 'run_sb_all.sh: numbers of particles that are drawn', ns=ns)
        c.expect(all(r['explicit_backward'] for r in got['sb/gibbs.py']), 'run_sb_all.sh: the Gibbs sampler that is drawn (gibbs-eb)')
        c.expect(len({(r['d'], r['nsamples']) for rs in got.values() for r in rs}) == 1, 'run_sb_all.sh: one problem size')
    tr = settings(c, 'run_sb_train.sh', launch(c, 'run_sb_train.sh', 'run_sb_train.sh'))
    got = settings(c, 'sb_imgs.sh', launch(c, 'sb_imgs.sh', 'bashes/sb_imgs.sh'))
    if got and tr:
        rs = got['sb_imgs/supr.py']
        c.expect(sorted((r['method'][:5], r['y0_id']) for r in rs) == sorted((m, i) for m in ('filte', 'gibbs') for i in range(10)),
                 'sb_imgs.sh: both methods on the observations 0 to 9', got=rs[:3])
        t = tr['sb_imgs/train.py'][0]
        c.expect(all(r['sb_step'] < t['nsbs'] and r['sde'] == t['sde'] for r in rs), 'sb_imgs.sh: a bridge that was trained')
        c.expect(len({(r['nparticles'], r['nsamples'], r['test_nsteps'], r['test_seed'], r['sb_step'], r['rate']) for r in rs}) == 1, 'sb_imgs.sh: both methods alike')


# ---- tables and figures ----------------------------------------------------------------------------------------------
def image_table(c):
    """PSNR and SSIM by definition (LPIPS: a recorded functional that tells rows, columns and channels apart)."""
    from skimage.metrics import structural_similarity
    rng = c.rng
    for ds, task, hw, npart in (('mnist', 'supr-4', 28, 100), ('celeba-64', 'inpainting-32', 64, 10), ('celeba-64', 'supr-2', 64, 10), ('mnist', 'inpainting-15', 28, 10)):
        ny, ns, ch = 4, 3, 1 if ds == 'mnist' else 3
        rm = bool(rng.integers(2)) and 'supr' in task
        with scratch() as tmp:
            kind, size = task.split('-')
            head = os.path.join(tmp, 'imgs', f'results_{kind}', 'arrs', f'{ds}-{size}' + ('-rm' if rm else '') + '-lin-')
            os.makedirs(os.path.dirname(head))
            methods = ['filter', 'gibbs-eb-ef', 'pmcmc-0.005', 'twisted', 'csgm']
            full = 100
            true = rng.uniform(-.2, 1.2, (full, hw, hw, ch)).astype('float32') if ds == 'mnist' else np.repeat(np.repeat(
                rng.uniform(-.2, 1.2, (full, hw // 4, hw // 4, ch)), 4, 1), 4, 2).astype('float32')
            for i in range(ny):
                np.savez(head + f'{i}-true', test_img=true[i])
            want = {}
            for m in methods:
                vals = []
                for i in range(ny):
                    x = true[i] + rng.uniform(.02, .5) * rng.normal(size=(ns, hw, hw, ch)).astype('float32')
                    np.save(head + (f'{i}-{m}' if m == 'csgm' else f'{npart}-{i}-{m}'), x)
                    for k in range(ns):
                        a, b = np.clip(true[i], 0, 1).astype(float), np.clip(x[k], 0, 1).astype(float)
                        ssim = np.mean([structural_similarity(a[..., j], b[..., j], data_range=1) for j in range(ch)])
                        d2 = np.moveaxis(2 * (a - b), -1, 0) ** 2
                        h = np.arange(hw) / hw
                        wt = (1 + np.arange(ch))[:, None, None] * (1 + h)[None, :, None] * (1 + 3 * h ** 2)[None, None]
                        vals.append([-10 * np.log10(np.mean((a - b) ** 2)), ssim, (wt * d2).mean() if ds != 'mnist' else 0.])
                want[m] = np.mean(vals, 0), np.std(vals, 0)
            r = evaluate(c, tmp, 'tabulators/tabulate_imgs.py', f'dataset={ds!r}', f'task={task!r}', f'rnd_mask={rm}', f'nparticles={npart}', f'ny0s={ny}', f'nsamples={ns}')
            if r is None:
                continue
            for m in methods:
                line = [l for l in r[1].splitlines() if re.match(re.escape(m) + r'\s*\|', l)]
                if c.expect(len(line) == 1, f'{ds} {task}: the table has a line for {m}', output=r[1][-800:]):
                    num = [float(v) for v in re.findall(r'-?\d+\.\d{4}', line[0])]
                    c.close(num, np.stack(want[m], 1).ravel(), f'{ds} {task}: {m}: PSNR, SSIM and LPIPS over all restored images (means and deviations)', rtol=1e-3, atol=3e-4)
                    c.ev('table_lines')


def figure(c, r, name, n_axes):
    fs = r[0]['figures']
    if c.expect(len(fs) >= 1 and len(fs[0]['axes']) >= n_axes, f'{name}: a figure with {n_axes} panels', figures=[(f['name'], len(f['axes'])) for f in fs]):
        c.ev('figures', len(fs))
        return fs
    return None


def sb_figure(c):
    rng, ns, mc, d = c.rng, [2, 4, 8, 16, 32, 64], 5, 3
    with scratch() as tmp:
        os.makedirs(os.path.join(tmp, 'sb', 'results'))
        err = {}
        for m in ('filter-proper', 'filter-heuristic', 'gibbs-eb'):
            for j, n in enumerate(ns):
                for i in range(mc):
                    L = np.tril(rng.normal(size=(d, d)) * .4, -1) + np.diag(rng.uniform(.5, 1.5, d))
                    V0, m0 = L @ L.T, rng.normal(size=d)
                    x = m0 + .3 * rng.normal(size=d) + rng.normal(size=(40, d)) @ L.T * rng.uniform(.7, 1.4)
                    np.savez(os.path.join(tmp, 'sb', 'results', f'{m}-{n}-{i}'), samples=x, gp_mean=m0, gp_cov=V0)
                    m1, V1 = x.mean(0), np.cov(x.T)
                    root = scipy.linalg.sqrtm(V0)
                    err.setdefault('bures', {}).setdefault(m, np.zeros((mc, len(ns))))[i, j] = ((m0 - m1) ** 2).sum() + np.trace(V0 + V1 - 2 * scipy.linalg.sqrtm(root @ V1 @ root).real)
                    err.setdefault('kl', {}).setdefault(m, np.zeros((mc, len(ns))))[i, j] = .5 * (
                        np.trace(np.linalg.solve(V1, V0)) - d + (m1 - m0) @ np.linalg.solve(V1, m1 - m0) + np.linalg.slogdet(V1)[1] - np.linalg.slogdet(V0)[1])
        for measure in ('bures', 'kl'):
            r = evaluate(c, tmp, 'tabulators/plot_sb.py', f'max_mcs={mc}', f'measure={measure!r}')
            fs = r and figure(c, r, 'plot_sb.py', 1)
            if not fs:
                continue
            ax = fs[0]['axes'][0]
            for label, m in (('PF (ideal)', 'filter-proper'), ('PF (approximate)', 'filter-heuristic'), ('Gibbs-CSMC', 'gibbs-eb')):
                e = err[measure][m]
                ls = [l for l in ax['lines'] if l['label'] == label]
                if c.expect(len(ls) == 1, f'plot_sb.py: a curve {label}', labels=[l['label'] for l in ax['lines']]):
                    c.close(ls[0]['x'], ns, f'plot_sb.py: {label}: numbers of particles')
                    c.close(ls[0]['y'], e.mean(0), f'plot_sb.py ({measure}): {label}: mean error over the runs', rtol=2e-4, atol=1e-7)
                    lo, hi = np.quantile(e, .05, axis=0), np.quantile(e, .95, axis=0)
                    ok = any(all(np.abs(b[:, 0] - n).min() < 1e-9 and np.isclose(b[np.abs(b[:, 0] - n) < 1e-9, 1].max(), h, rtol=2e-4) and
                                 np.isclose(b[np.abs(b[:, 0] - n) < 1e-9, 1].min(), l, rtol=2e-4) for n, l, h in zip(ns, lo, hi)) for b in ax['bands'])
                    c.expect(ok, f'plot_sb.py ({measure}): {label}: band between the 5% and 95% quantiles')
                    c.ev('curves')


def autocorrelation(x):
    """By definition, along the first axis; unbiased autocovariances."""
    n = len(x)
    z = x - x.mean(0)
    cov = np.array([(z[:n - k] * z[k:]).sum(0) / (n - k) for k in range(n)])
    with np.errstate(all='ignore'):
        return cov / cov[0]


def chains(rng, shape, phi):
    x = rng.normal(size=shape)
    for t in range(1, shape[-2]):
        x[..., t, :] = phi * x[..., t - 1, :] + np.sqrt(1 - phi ** 2) * x[..., t, :]
    return x


def toy_autocorrelations(c):
    rng, mc, lags = c.rng, 3, 100
    ms = {f'Gibbs-CSMC-{n}': f'gibbs-eb-const-{n}' for n in (10, 100)}
    ms.update({f'PMCMC-{dl}-{n}': f'pmcmc-{dl}-const-{n}' for dl, n in (('0.005', 100), ('0.005', 10), ('0.01', 10), ('0.001', 10))})
    with scratch() as tmp:
        os.makedirs(os.path.join(tmp, 'toy', 'results'))
        want = {}
        for label, m in ms.items():
            w = []
            for i in range(mc):
                x = chains(rng, (3, 260, 4), rng.uniform(0, .98, 4)) * rng.uniform(.2, 3, 4) + rng.normal(size=4) * 3
                np.savez(os.path.join(tmp, 'toy', 'results', f'{m}-{i}'), samples=x, gp_mean=np.zeros(4), gp_cov=np.eye(4))
                w.append(np.mean([autocorrelation(z) for z in x], 0)[:lags].max(-1))
            want[label] = np.mean(w, 0)
        r = evaluate(c, tmp, 'tabulators/plot_autocorrs_toy.py', f'max_mcs={mc}')
        fs = r and figure(c, r, 'plot_autocorrs_toy.py', 1)
        for label in ms if fs else ():
            ls = [l for l in fs[0]['axes'][0]['lines'] if l['label'] == label]
            if c.expect(len(ls) == 1, f'plot_autocorrs_toy.py: a curve {label}'):
                c.close(ls[0]['x'], np.arange(lags), f'plot_autocorrs_toy.py: {label}: lags')
                c.close(ls[0]['y'], want[label], f'plot_autocorrs_toy.py: {label}: autocorrelation of the worst variable, averaged over chains, then runs', rtol=1e-6, atol=1e-9)
                c.ev('curves')


def image_autocorrelations(c):
    rng, mc, ns, lags = c.rng, 2, 60, 20
    with scratch() as tmp:
        want, titles = {}, {}
        for t in ('inpainting', 'supr'):
            os.makedirs(os.path.join(tmp, 'imgs', f'results_{t}', 'arrs'))
        for ds, task, title in (('mnist', 'inpainting-15', 'MNIST inpainting'), ('mnist', 'supr-4', 'MNIST super-resolution'),
                                ('celeba-64', 'inpainting-32', 'CelebA inpainting'), ('celeba-64', 'supr-2', 'CelebA super-resolution')):
            for n in (100, 10) if ds == 'mnist' else (10, 2):
                for m, lab in (('gibbs-eb-ef', 'Gibbs-CSMC'), ('pmcmc-0.005', 'PMCMC-0.005')):
                    w = []
                    for i in range(mc):
                        x = chains(rng, (ns, 12), rng.uniform(0, .9, 12)).reshape(ns, 2, 2, 3)
                        x[:, 0, 0] = x[0, 0, 0]  # an observed pixel never moves
                        np.save(os.path.join(tmp, 'imgs', f'results_{task.split("-")[0]}', 'arrs', f'{ds}-{task.split("-")[1]}-lin-{n}-{i}-{m}'), x)
                        a = autocorrelation(x.reshape(ns, -1)[:, 3:])[:lags]
                        w.append(np.maximum(a, 0).min(-1))
                    want[title, f'{lab}-{n}'] = np.mean(w, 0)
        r = evaluate(c, tmp, 'tabulators/plot_autocorrs_imgs.py', f'max_mcs={mc}', f'nsamples={ns}')
        fs = r and figure(c, r, 'plot_autocorrs_imgs.py', 4)
        for (title, label), w in want.items() if fs else ():
            ls = [l for a in fs[0]['axes'] if a['title'] == title for l in a['lines'] if l['label'] == label]
            if c.expect(len(ls) == 1, f'plot_autocorrs_imgs.py: a curve {label} in {title}'):
                c.close(ls[0]['y'], w, f'plot_autocorrs_imgs.py: {title}: {label}: autocorrelation of the best moving pixel, averaged over the runs', rtol=1e-6, atol=1e-9)
                c.ev('curves')


def traces(c):
    rng = c.rng
    with scratch() as tmp:
        os.makedirs(os.path.join(tmp, 'toy', 'results'))
        xs = {}
        for dl in ('0.01', '0.005', '0.001'):
            xs[dl] = rng.normal(size=(2, 10000, 2))
            np.savez(os.path.join(tmp, 'toy', 'results', f'pmcmc-{dl}-const-10-0'), samples=xs[dl], gp_mean=np.zeros(2), gp_cov=np.eye(2))
        r = evaluate(c, tmp, 'tabulators/plot_pmcmc_trace.py')
        fs = r and figure(c, r, 'plot_pmcmc_trace.py', 3)
        for dl, x in xs.items() if fs else ():
            ax = [a for a in fs[0]['axes'] if re.search(rf'delta\s*=\s*{re.escape(dl)}\$', a['title'])]
            if c.expect(len(ax) == 1 and len(ax[0]['lines']) == 1, f'plot_pmcmc_trace.py: the chain of delta = {dl}', titles=[a['title'] for a in fs[0]['axes']]):
                l = ax[0]['lines'][0]
                t = np.asarray(l['x']).astype(int)
                ok = t.min() >= 0 and t.max() < 10000 and np.array_equal(t, l['x']) and len(t) == len(l['y'])
                c.expect(ok and any(np.array_equal(l['y'], x[i, t, j]) for i in range(2) for j in range(2)),
                         f'plot_pmcmc_trace.py: delta = {dl}: samples of one variable of one chain against their iteration')
                c.ev('curves')


def contours(c):
    rng, d = c.rng, 70
    labels = {'CSGM': 'csgm-const', 'PF': 'filter-const-{}', 'Gibbs-CSMC': 'gibbs-eb-const-{}', 'PMCMC-0.005': 'pmcmc-0.005-const-{}',
              'PMCMC-0.001': 'pmcmc-0.001-const-{}', 'TPF': 'twisted-const-{}'}
    with scratch() as tmp:
        os.makedirs(os.path.join(tmp, 'toy', 'results'))
        truth = {}
        for lab, m in labels.items():
            for n in (10, 100):
                L = np.tril(rng.normal(size=(d, d)) * .1, -1) + np.diag(rng.uniform(.5, 1.5, d))
                m0, V0 = rng.normal(size=d), L @ L.T
                k = 3 if m[0] in 'gp' else 1
                x = m0 + .2 * rng.normal(size=(k, 1, d)) + rng.normal(size=(k, 150, d)) @ L.T
                np.savez(os.path.join(tmp, 'toy', 'results', m.format(n) + '-66'), samples=x if k > 1 else x[0], gp_mean=m0, gp_cov=V0)
                truth[m.format(n)] = m0, V0, x.mean((0, 1)), np.mean([np.cov(z.T) for z in x], 0)
        r = evaluate(c, tmp, 'tabulators/plot_toy_contours.py', 'ngrids=23')
        fs = r and figure(c, r, 'plot_toy_contours.py', 12)
        if not fs:
            return
        axes = [a for a in fs[0]['axes'] if a['contours']]
        if not c.expect(len(axes) == 12, 'plot_toy_contours.py: a panel for each method and number of particles', panels=len(axes)):
            return
        i = [60, 66]
        for j, a in enumerate(axes):
            lab, n = list(labels)[j % 6], (10, 100)[j // 6]
            if j < 6:
                c.expect(a['title'] == lab, 'plot_toy_contours.py: title of the panel', title=a['title'], want=lab)
            m0, V0, m1, V1 = truth[labels[lab].format(n)]
            for dashed, mm, VV, name in ((False, m0, V0, 'the true posterior'), (True, m1, V1, 'the moments of the samples')):
                cs = [q for q in a['contours'] if q['dashed'] == dashed]
                if c.expect(len(cs) == 1, f'plot_toy_contours.py: {lab}, {n}: one contour of {name}'):
                    X, Y, Z = cs[0]['args'][:3]
                    want = scipy.stats.multivariate_normal.pdf(np.stack([X, Y], -1), mm[i], VV[np.ix_(i, i)])
                    c.close(Z, want, f'plot_toy_contours.py: {lab}, {n}: density of {name} (variables 60 and 66)', rtol=1e-6, atol=1e-9)
                    c.ev('curves')


def panels(c):
    """The image figures: every panel is the image its row and column say."""
    from PIL import Image
    rng = c.rng
    methods = ['filter', 'gibbs-eb-ef', 'pmcmc-0.005', 'twisted', 'csgm']

    def rgba(h):
        return rng.integers(0, 256, (h, h, 4), dtype=np.uint8)

    for script, ds, task, npart, ids, size in (('plot_imgs.py', 'mnist', 'supr-4', 100, [94], 28), ('plot_imgs.py', 'celeba-64', 'inpainting-32', 10, [94], 64),
                                               ('plot_imgs_appendix.py', 'celeba-64', 'supr-2', 10, range(100), 64), ('plot_imgs_appendix.py', 'mnist', 'inpainting-15', 10, range(100), 28)):
        kind, sz = task.split('-')
        with scratch() as tmp:
            head = os.path.join(tmp, 'imgs', f'results_{kind}', 'imgs', f'{ds}-{sz}-lin-')
            os.makedirs(os.path.dirname(head))
            # one pixel of colour tells every image apart: small files, a hundred observations
            lr = size // int(sz) if kind == 'supr' else size
            store = {}

            def put(name, h):
                px = rng.integers(0, 256, (4, 4, 4), dtype=np.uint8)
                im = np.kron(px, np.ones((h // 4 + 1, h // 4 + 1, 1), dtype=np.uint8))[:h, :h]
                Image.fromarray(im).save(head + name + '.png', compress_level=1)
                store[name] = im
            first = list(ids)[:3]
            nsamp = 20
            for y in first:
                put(f'{y}-true', size)
                put(f'{y}-corrupt', size)
                if kind == 'supr':
                    put(f'{y}-corrupt-lr', lr)
                for m in methods:
                    for s in range(nsamp):
                        put(f'{y}-{m}-{s}' if m == 'csgm' else f'{npart}-{y}-{m}-{s}', size)
            if len(ids) > 3:
                for y in list(ids)[3:]:
                    for f in list(store):
                        if re.fullmatch(rf'({npart}-)?0-.*', f):
                            g = re.sub(rf'^({npart}-)?0-', lambda q: (q.group(1) or '') + f'{y}-', f)
                            os.link(head + f + '.png', head + g + '.png')
            r = evaluate(c, tmp, 'tabulators/' + script, f'dataset={ds!r}', f'task={task!r}', f'nparticles={npart}', f'nsamples={nsamp}',
                         *([f'int:100={len(first)}'] if len(ids) > 3 else []))  # three of the hundred figures
            fs = r and figure(c, r, script, 5 * 5)
            for y, f in zip(first, fs or ()):
                axes = [a for a in f['axes'] if a['images']]
                ncol = len(axes) // 5
                if not c.expect(len(axes) % 5 == 0 and ncol >= 5, f'{script}: rows of panels', panels=len(axes)):
                    continue
                shown = {}
                for j, a in enumerate(axes):
                    row, col, im = j // ncol, j % ncol, a['images'][-1]
                    if col == 0:
                        low = store[f'{y}-corrupt-lr' if kind == 'supr' else f'{y}-corrupt']
                        q = size // low.shape[0]
                        c.expect(np.array_equal(im, np.repeat(np.repeat(low, q, 0), q, 1)), f'{script}: {ds} {task}: the first panel of a row is the corrupted image')
                    elif col == 1:
                        c.expect(np.array_equal(im, store[f'{y}-true']), f'{script}: {ds} {task}: the second panel of a row is the true image')
                    else:
                        hit = [s for s in range(nsamp) if np.array_equal(im, store[f'{y}-{methods[row]}-{s}' if methods[row] == 'csgm' else f'{npart}-{y}-{methods[row]}-{s}'])]
                        if c.expect(len(hit) == 1, f'{script}: {ds} {task}: the panels of a row are restorations by its method', row=row, col=col):
                            shown.setdefault(row, []).append(hit[0])
                    c.ev('panels')
                for row, hits in shown.items():
                    c.expect(len(set(hits)) == len(hits), f'{script}: distinct samples in a row', samples=hits)


def bridge_panels(c):
    from PIL import Image
    rng, n = c.rng, 100
    with scratch() as tmp:
        head = os.path.join(tmp, 'sb_imgs', 'results', 'mnist-4-lin-100-7')
        os.makedirs(os.path.dirname(head))
        true = rng.uniform(-.3, 1.3, (28, 28, 1))
        np.savez(head + '-true', test_img=true)
        low = rng.integers(0, 256, (7, 7, 4), dtype=np.uint8)
        Image.fromarray(low).save(head + '-corrupt-lr.png')
        xs = {}
        for m in ('filter', 'gibbs-eb-ef'):
            for s in ('random', 'blank', 'interp'):
                xs[m, s] = rng.uniform(-.3, 1.3, (n, 28, 28, 1))
                np.save(head + f'-{m}-{s}', xs[m, s])
        r = evaluate(c, tmp, 'tabulators/plot_sb_imgs.py')
        fs = r and figure(c, r, 'plot_sb_imgs.py', 8)
        if not fs:
            return
        big = np.repeat(np.repeat(low, 4, 0), 4, 1)

        def which(im, m, s):
            return [k for k in range(n) if np.allclose(im, np.clip(xs[m, s][k, ..., 0], 0, 1), atol=1e-6)]
        for a in [a for a in fs[0]['axes'] if a['images']]:
            im, t = a['images'][-1], a['title']
            c.ev('panels')
            if t == 'Input':
                c.expect(np.array_equal(im, big), 'plot_sb_imgs.py: the input')
            elif t == 'Truth':
                c.close(im, np.clip(true[..., 0], 0, 1), 'plot_sb_imgs.py: the truth', atol=1e-6)
            else:
                m = 'gibbs-eb-ef' if 'Gibbs' in t else 'filter'
                s = ['random', 'interp'] if m == 'filter' else ['random', 'blank', 'interp']
                s = ['random'] if 'random' in t else ['interp'] if 'interp' in t else s
                c.expect(any(which(im, m, q) for q in s), 'plot_sb_imgs.py: a panel is a restoration as its title says', title=t)
        for f in fs[1:]:
            axes = [a for a in f['axes'] if a['images']]
            ncol = len(axes) // 4
            for j, a in enumerate(axes):
                row, col, im = j // ncol, j % ncol, a['images'][-1]
                c.ev('panels')
                if col == 0:
                    c.expect(np.array_equal(im, big), 'plot_sb_imgs.py (appendix): the input')
                elif col == 1:
                    c.close(im, np.clip(true[..., 0], 0, 1), 'plot_sb_imgs.py (appendix): the truth', atol=1e-6)
                else:
                    m, s = [('filter', 'random'), ('filter', 'blank'), ('filter', 'interp'), ('gibbs-eb-ef', 'blank')][row]
                    c.expect(which(im, m, s), f'plot_sb_imgs.py (appendix): row {row} is {m}, {s}', col=col)


def animation(c):
    from PIL import Image
    import jax
    sys.path.insert(0, REPO)
    from fbs.data import MNISTRestore
    rng, n, y = c.rng, 100, 9
    with scratch() as top:
        tmp = os.path.join(top, 'exp')
        os.makedirs(os.path.join(top, 'datasets'))
        xs = rng.uniform(0, 1, (10000, 28, 28)).astype(np.float32)
        np.savez(os.path.join(top, 'datasets', 'mnist.npz'), X=xs[:10], X_test=xs)
        head = os.path.join(tmp, 'sb_imgs', 'results', f'mnist-4-lin-100-{y}')
        os.makedirs(os.path.dirname(head))
        # the observation of the experiment of this number (sb_imgs/supr.py with its default seed)
        key, data_key = jax.random.split(jax.random.PRNGKey(666))
        ds = MNISTRestore(jax.random.split(key)[1], os.path.join(top, 'datasets', 'mnist.npz'), task='supr-4', test=True)
        ds.sr_random = False
        for _ in range(y + 1):
            data_key, subkey = jax.random.split(data_key)
        true, obs, mask = ds.sampler(subkey)
        seen = np.asarray(mask.obs_inds_ravelled)
        np.savez(head + '-true', test_img=np.asarray(true))
        low = rng.integers(0, 256, (7, 7, 4), dtype=np.uint8)
        Image.fromarray(low).save(head + '-corrupt-lr.png')
        im = {m: rng.uniform(-.3, 1.3, (n, 28, 28, 1)) for m in ('filter', 'gibbs-eb-ef')}
        for m, x in im.items():
            np.save(head + f'-{m}-blank', x)
            np.save(head + f'-{m}-random', x + .37)
        first = rng.uniform(-.3, 1.3, (28, 28, 1))
        np.save(head + '-gibbs-init-blank', first)
        for x0 in ('-random', '-interp', ''):
            np.save(head + '-gibbs-init' + x0, first + .29)
        r = evaluate(c, tmp, 'tabulators/plot_sb_imgs_anime.py')
        if not r or not c.expect(r[0]['figures'], 'plot_sb_imgs_anime.py draws frames'):
            return
        clip = lambda x: np.clip(x[..., 0], 0, 1)
        chain = [clip(first), *map(clip, im['gibbs-eb-ef'])]
        shown = {'PF': [], 'Gibbs': []}
        for f in r[0]['figures']:
            axes = [a for a in f['axes'] if a['images']]
            if not c.expect(len(axes) == 4, 'plot_sb_imgs_anime.py: four panels'):
                return
            for a, t in zip(axes, ('Input', 'Truth', 'PF', 'Gibbs')):
                g = np.asarray(a['images'][-1], float).squeeze()
                c.ev('panels')
                c.expect(t in a['title'], 'plot_sb_imgs_anime.py: titles', title=a['title'])
                if t == 'Input':
                    c.expect(np.array_equal(g, np.repeat(np.repeat(low, 4, 0), 4, 1)), 'plot_sb_imgs_anime.py: the input')
                elif t == 'Truth':
                    c.close(g, clip(np.asarray(true)), 'plot_sb_imgs_anime.py: the truth', atol=1e-6)
                elif np.allclose(g.ravel()[seen], np.asarray(obs).ravel(), atol=1e-6):
                    c.expect(not shown[t] and np.allclose(np.delete(g.ravel(), seen), 0), 'plot_sb_imgs_anime.py: the animation opens with the observation, other pixels blank')
                else:
                    k = int(re.search(r'(\d+)$', a['title']).group(1))
                    want = (chain if t == 'Gibbs' else [*map(clip, im['filter'])])[k]
                    c.expect(np.allclose(g, want, atol=1e-6), 'plot_sb_imgs_anime.py: the sample of the number in the title', title=a['title'])
                    shown[t].append(k)
        for t, ks in shown.items():
            c.expect(len(ks) > 1 and ks == list(range(len(ks))), f'plot_sb_imgs_anime.py: {t}: the samples in order', samples=ks)


def integrity(c):
    """The integrity script counts the saved runs of every method and number of particles, for both tasks and data sets."""
    script = os.path.join(EXP, 'check_integrity.sh')
    if not os.path.exists(script):
        return
    rng = c.rng
    for round_ in range(3 if TIER == "quick" else 10):
        with scratch() as tmp:
            want = {}
            for ds, tasks, parts in (('mnist', ('inpainting-15', 'supr-4'), (10, 100)), ('celeba-64', ('inpainting-32', 'supr-2'), (2, 10))):
                for t, task in enumerate(tasks):
                    kind, size = task.split('-')
                    folder = os.path.join(tmp, 'imgs', f'results_{kind}', 'arrs')
                    os.makedirs(folder, exist_ok=True)

                    def save(n, k, what):
                        open(os.path.join(folder, f'{ds}-{size}-lin-{"" if n is None else f"{n}-"}{k}-{what}'), 'w').close()

                    for n in parts:
                        for m, name in (('filter', 'filter.npy'), ('gibbs-eb-ef', 'gibbs-eb-ef.npy'), ('pmcmc', 'pmcmc-0.005.npy'), ('twisted', 'twisted.npy')):
                            count = int(rng.integers(0, 101))
                            want.setdefault((ds, m, n), [None, None])[t] = count
                            for k in rng.permutation(100)[:count]:
                                save(n, k, name)
                        for k in range(3):   # what is saved besides the runs, and runs of other settings
                            save(n, k, 'true.npz'), save(n, k, 'gibbs-init.npy'), save(7, k, 'filter.npy'), save(7, k, 'twisted.npy')
                    for k in range(2):
                        save(None, k, 'csgm.npy')
            p = subprocess.run(['/bin/bash', script], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
            c.ev('scripts_run')
            c.case('integrity', {'round': round_, 'want': {str(k): v for k, v in want.items()}})
            c.expect(p.returncode == 0, 'check_integrity.sh fails', output=(p.stdout + p.stderr)[-2000:])
            ds, seen = None, {}
            for line in p.stdout.splitlines():
                numbers = re.findall(r'\d+', line)
                method = next((m for m in ('filter', 'gibbs-eb-ef', 'pmcmc', 'twisted') if m in line), None)
                if method is None:
                    if 'mnist' in line.lower():
                        ds = 'mnist'
                    elif 'cel' in line.lower():
                        ds = 'celeba-64'
                elif len(numbers) >= 3:
                    seen[ds, method, int(numbers[0])] = [int(numbers[1]), int(numbers[2])]
                    c.ev('table_lines')
            if not seen:   # another output format
                c.ev('scripts_not_run')
                continue
            for k, v in want.items():
                c.expect(seen.get(k) == v, f'check_integrity.sh: runs of {k[0]}, {k[1]}, {k[2]} particles: inpainting and super-resolution', got=seen.get(k), want=v)


SECTIONS = [keys, cifar, celeba, toy_campaign, image_campaign, sb_campaign, image_table, sb_figure, toy_autocorrelations, image_autocorrelations, traces,
            contours, panels, bridge_panels, animation, integrity]
run_sections(
    Check('C28', 'Keys, data preparation, every launcher, every table and figure script, run as a user runs them; non-trivial = distinct (script, campaign)',
          ['the perceptual network of LPIPS is replaced by a recorded functional (its weights are not available offline)', 'text of figures is not typeset']),
    SECTIONS, scripts_run=10, launchers_run=6, command_lines=1000, curves=20, panels=100, table_lines=10)
