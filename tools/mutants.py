"""A sweep of small mutants without demonstrations: `python tools/mutants.py [ids]` prints which check reports which mutant.
(Every mutant below breaks the stated property; the planted bugs with demonstrations are in bugs.py.)"""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
SMC, CS, CR, R, GI = ('fbs/samplers/smc.py', 'fbs/samplers/csmc/csmc.py', 'fbs/samplers/csmc/resamplings.py', 'fbs/samplers/resampling.py',
                      'fbs/samplers/gibbs.py')
LI, SI, DS, UT, IM, BY, DB = ('fbs/sdes/linear.py', 'fbs/sdes/simulators.py', 'fbs/dsb/base.py', 'fbs/utils.py', 'fbs/data/images.py',
                              'fbs/data/bayesian.py', 'fbs/data/base.py')
NB, NM, NU, NN = 'fbs/nn/base.py', 'fbs/nn/models.py', 'fbs/nn/unet.py', 'fbs/nn/utils.py'
M = {
 'm01': ('C01', R, "        u = 1. - jax.random.uniform(key, (n,))", "        u = 1. - jax.random.uniform(key, (1,))"),
 'm02': ('C01', R, "jax.random.choice(key_2, N, (N,), p=weights))", "jax.random.choice(key_2, N, (N,), p=jnp.where(killed, weights / 2, weights)))"),
 'm03': ('C01', R, "return z[:-1] / z[-1]", "return z[1:] / z[-1]"),
 'm05': ('C02', CR, "idx = jnp.roll(idx, j - J)", "idx = jnp.roll(idx, J - j)"),
 'm06': ('C02', CR, "J_prob = (1. - weights / w_max) / N", "J_prob = (1. - weights / w_max) * weights"),
 'm07': ('C02', CR, "    indices = jax.random.choice(key, N, p=weights, shape=(N,), replace=True)\n    if conditional:",
         "    indices = jnp.sort(jax.random.choice(key, N, p=weights, shape=(N,), replace=True))\n    if conditional:"),
 'm10': ('C07', CS, "        us = us.at[b_star].set(u_star)", "        us = us.at[b_star_prev].set(u_star)"),
 'm11': ('C07', CS, "log_ws = likelihood_logpdf(v, us_prev, v_prev, t_prev, **kwargs)", "log_ws = likelihood_logpdf(v, us, v_prev, t_prev, **kwargs)"),
 'm12': ('C24', CS, "inps = keys[:-1], uss", "inps = keys[1:], uss"),
 'm13': ('C07', CS, "log_w = Gamma_log_w + log_w_t_m_1", "log_w = Gamma_log_w"),
 'm14': ('C07', CS, "(xss[-2::-1], As[::-1])", "(xss[-2::-1], As)"),
 'm15': ('C07', CS, "init_likelihood_logpdf(vs[0], us0, vs[1], **kwargs)", "init_likelihood_logpdf(vs[1], us0, vs[0], **kwargs)"),
 'm16': ('C07', CS, "us0 = us0.at[bs_star[0]].set(us_star[0])", "us0 = us0.at[0].set(us_star[0])"),
 'm17': ('C07', CS, "measurement_cond_logpdf(v_t, xs_t_m_1, v_t_m_1, t_m_1, *args, **kwargs)", "measurement_cond_logpdf(v_t, xs_t_m_1, v_t_m_1, t_m_1, *args)"),
 'm18': ('C24', CS, "xs_star, bs_star = backward_scanning_pass(key_bwd,", "xs_star, bs_star = backward_scanning_pass(key,"),
 'm19': ('C07', CS, "    us0 = init_sampler(key_init, nsamples + 1)", "    us0 = init_sampler(key_init, nsamples)"),
 'm20': ('C09', SMC, "    beta = 2 / (2 + delta)", "    beta = 1 / (1 + delta)"),
 'm21': ('C09', SMC, "jax.vmap(sde.mean, in_axes=[0, None, None])(ts, ts[0], y0)", "jax.vmap(sde.mean, in_axes=[0, None, None])(ts, 0., y0)"),
 'm23': ('C09', SMC, "        us = transition_sampler(us_prev, v_prev, t_prev, key_proposal, **kwargs)\n\n        return (us, log_ell), None",
         "        us = transition_sampler(us_prev, v, t_prev, key_proposal, **kwargs)\n\n        return (us, log_ell), None"),
 'm24': ('C09', SMC, "lambda _: (uT, log_ell, ys, mcmc_state),", "lambda _: (uT, prop_log_ell, ys, mcmc_state),"),
 'm25': ('C06', SMC, "uT = jax.random.choice(key_last, filter_us[-1], axis=0)", "uT = filter_us[-1, 0]"),
 'm26': ('C06', SMC, "measurement_cond_logpdf(v_kp1, uf_k, v_k, t_k, *args, **kwargs)", "measurement_cond_logpdf(v_k, uf_k, v_k, t_k, *args, **kwargs)"),
 'm27': ('C10', SMC, "        log_ps_prev = log_ps_prev[resampling_inds, ...]\n", ""),
 'm28': ('C09', SMC, "    acc_flag = jnp.log(z) < log_acc_prob", "    acc_flag = z < 1. + log_acc_prob"),
 'm31': ('C04', SMC, "init_samples = init_sampler(key_init, vs[0], nparticles)", "init_samples = init_sampler(key_init, vs[-1], nparticles)"),
 'm32': ('C09', SMC, "log_ell = log_ell - math.log(nparticles) + _c", "log_ell = log_ell + _c"),
 'm34': ('C24', GI, "unpack(fwd_sampler(key_csmc_bwd_us, x0, y0", "unpack(fwd_sampler(key_fwd, x0, y0"),
 'm36': ('C08', GI, "    us = path_x[::-1]\n", "    us = path_x[::-1].at[0].set(path_x[0])\n"),
 'm38': ('C24', GI, "bridge_sampler(key_bridge, path_y[0], path_y[-1], ts, sde)[::-1] if marg_y else path_y[::-1]\n\n    if explicit_final",
         "bridge_sampler(key_fwd, path_y[0], path_y[-1], ts, sde)[::-1] if marg_y else path_y[::-1]\n\n    if explicit_final"),
 'm39': ('C08', GI, "path_y[0], path_y[-1], ts, sde)[::-1] if marg_y else path_y[::-1]\n\n    if explicit_final",
         "path_y[0], path_y[-1], ts, sde) if marg_y else path_y[::-1]\n\n    if explicit_final"),
 'm40': ('C03', GI, "accept = u * (1 - weights[i]) < temp", "accept = u * (1 - w_k) < 1 - weights[i]"),
 'm41': ('C03', GI, "alpha = jnp.nansum(rest_weights * jnp.minimum(temp / (1 - weights), 1.))", "alpha = jnp.minimum(temp / (1 - weights[i]), 1.)"),
 'm43': ('C11', LI, "+ 2 * (beta_min * T - beta_max * t0) / (T - t0))", "+ 2 * (beta_min * T) / (T - t0))"),
 'm44': ('C11', LI, "        F, Q = discretise_linear_sde(t, s)\n        return -(x - F * x0) / Q", "        F, Q = discretise_linear_sde(t, s)\n        return -(x - F * x0) / jnp.maximum(Q, 1e-2)"),
 'm45': ('C11', LI, "jnp.ravel(ts)[0] if t0 is None else t0)", "jnp.ravel(ts)[0])"),
 'm46': ('C14', LI, "jnp.sort(jax.random.uniform(key_ts, (nsteps - 1,), minval=t0 + eps, maxval=T))", "jnp.sort(jax.random.uniform(key_ts, (nsteps - 1,), minval=eps, maxval=T))"),
 'm47': ('C14', LI, "        scales = score_scale(ts[1:], ts[0])", "        scales = score_scale(ts[1:], 0.)"),
 'm48': ('C24', LI, "        keys = jax.random.split(key_fwd, num=nsamples)\n        fwd_paths = jax.vmap(simulate_cond_forward",
         "        keys = jnp.broadcast_to(key_fwd, (nsamples, *key_fwd.shape))\n        fwd_paths = jax.vmap(simulate_cond_forward"),
 'm49': ('C14', LI, "        scales = score_scale(ts[1:] - ts[0])", "        scales = score_scale(ts[1:])"),
 'm50': ('C15', LI, "return t * sig ** 2", "return t * sig"),
 'm51': ('C15', LI, "4 * sqrt0 @ cov1 @ sqrt0 + sig ** 4", "4 * sqrt0 @ cov1 @ sqrt0 + sig ** 2"),
 'm52': ('C14', LI, "            dt = (T - t0) / nsamples\n            ts = jnp.linspace(t0 + dt, T, nsamples)", "            ts = jnp.linspace(t0 + eps, T, nsamples)"),
 'm53': ('C12', SI, "    def reverse_dispersion(t):\n        return dispersion(T - t)", "    def reverse_dispersion(t):\n        return dispersion(t)"),
 'm54': ('C12', SI, "t_next - (t_next - t) / integration_nsteps,", "t_next,"),
 'm56': ('C12', SI, "x = f(x, t_next, t) + q(t_next, t) * rnd", "x = f(x, t_next, t) + q(t, t_next) * rnd"),
 'm57': ('C13', SI, "bridge_path.at[-1].set(xT) if replace else bridge_path", "bridge_path.at[-2].set(xT) if replace else bridge_path"),
 'm58': ('C11', LI, "return self.b * jnp.exp(self.c * (t - self.z) / 2)", "return self.b * jnp.exp(self.c * (t - self.z))"),
 'm59': ('C16', DS, "parametric_fn(x_next, k_next, param)", "parametric_fn(x_next, k, param)"),
 'm60': ('C16', DS, "jnp.mean(err_final / nsteps)", "jnp.mean(err_final / ts.shape[0])"),
 'm61': ('C16', DS, "+ jnp.sqrt(dt) * dispersion(t) * rnd\n        return x, x", "+ jnp.sqrt(dt) * dispersion(t_next) * rnd\n        return x, x"),
 'm62': ('C18', DB, "jnp.arange(batch_size * n_chunks), (batch_size * n_chunks,)", "jnp.arange(self.n - 1), (batch_size * n_chunks,)"),
 'm63': ('C18', IM, "itertools.product(hs, ws)]", "itertools.product(ws, hs)]"),
 'm64': ('C18', IM, "mins = jnp.min(img, axis=[-2, -3], keepdims=True)", "mins = jnp.min(img, axis=[-1, -2, -3], keepdims=True)"),
 'm66': ('C18', IM, "(w, h, c), 'nearest')[None, ...]", "(w, h, c), 'linear')[None, ...]"),
 'm68': ('C17', IM, "max_shift = min(img_w, img_h) - max(width, height)", "max_shift = max(img_w, img_h) - min(width, height)"),
 'm70': ('C17', IM, "* (rate // 2)", "* ((rate + 1) // 2)"),
 'm71': ('C19', NU, "            time_emb = jax.vmap(lambda z: sinusoidal_embedding(z, out_dim=self.dim))(time / self.dt)",
         "            time_emb = jnp.broadcast_to(sinusoidal_embedding(time[0] / self.dt, out_dim=self.dim), (B, self.dim))"),
 'm72': ('C19', NM, "            time_emb = jax.vmap(lambda z: sinusoidal_embedding(z, out_dim=32))(k / self.dt)", "            time_emb = jax.vmap(lambda z: sinusoidal_embedding(z, out_dim=32))(k)"),
 'm73': ('C19', NB, "max(half - 1, 1))", "max(half, 1))"),
 'm75': ('C19', NU, "k = nn.softmax(k, axis=-3)", "k = nn.softmax(k, axis=0)"),
 'm76': ('C20', NN, "        if count < count_start:", "        if count <= count_start:"),
 'm77': ('C20', NN, "            if count % count_every == 0:", "            if (count - count_start) % count_every == 0:"),
 'm78': ('C20', NN, "return decay * ema_param + (1 - decay) * param", "return decay * param + (1 - decay) * ema_param"),
 'm80': ('C11', UT, "    cov = AB[0:d, :] @ F.T", "    cov = AB[0:d, :] @ F"),
 'm81': ('C22', UT, "+ log_det1 - log_det0)", "- log_det1 + log_det0)"),
 'm82': ('C23', BY, "jnp.trapezoid", "jnp.trapezoid") if False else ('C23', BY, "evals, phi_mesh[0, :, 0], axis=1)", "evals, phi_mesh[:, 0, 1], axis=0)"),
 'm83': ('C23', BY, "return phi[1] / psi + 0.5 * (phi[0] ** 2 + psi ** 2)", "return phi[1] / psi + 0.5 * (phi[0] ** 2 + psi)"),
 'm84': ('C23', BY, "jnp.hstack(jax.grad(self.log_cond_pdf_likelihood, argnums=[1, 0])(y, phi))", "jnp.hstack(jax.grad(self.log_cond_pdf_likelihood, argnums=[1, 0])(y, phi)) * jnp.array([1., 1., self.xi])"),
 'm85': ('C21', LI, "rnds = jax.random.normal(key, (dts.shape[0], x0.shape[0]))", "rnds = jax.random.normal(key, (dts.shape[0], x0.shape[0]), jnp.float32)"),
 'm86': ('C21', SI, "rnds = jax.random.normal(key_, (integration_nsteps, *x0.shape))", "rnds = jax.random.normal(key_, (integration_nsteps, *x0.shape), jnp.float32)"),
 'm87': ('C24', SI, "    keys = jax.random.split(key, num=ts.shape[0] - 1)\n\n    def step", "    keys = jax.vmap(jax.random.PRNGKey)(jax.random.randint(key, (ts.shape[0] - 1,), 0, 4))\n\n    def step"),
 'm88': ('C25', CS, "    log_weights -= logsumexp(log_weights)\n", "    log_weights -= jnp.log(jnp.sum(jnp.exp(log_weights)))\n"),
 'm89': ('C25', SMC, "        _c = jax.scipy.special.logsumexp(log_weights)\n", "        _c = jnp.log(jnp.mean(jnp.exp(log_weights - log_weights[0]))) + log_weights[0] + math.log(nparticles)\n"),
 'm91': ('C18', DB, "return self.reshape(self.xs[inds, :])", "return self.reshape(self.xs[inds % 7, :])"),
 'm92': ('C05', SMC, "        log_weights = log_weights - _c\n", "        log_weights = jnp.maximum(log_weights - _c, -3.)\n"),
 'm93': ('C13', LI, "                                                                    jnp.sqrt(self.variance(T, t))))\n\n        score_h = jax.grad(log_h, argnums=1)(target, x)\n        return self.drift(x, t) + self.dispersion(t) ** 2 * score_h\n\n\nclass StationaryLin",
         "                                                                    jnp.sqrt(self.variance(T, 0. * t))))\n\n        score_h = jax.grad(log_h, argnums=1)(target, x)\n        return self.drift(x, t) + self.dispersion(t) ** 2 * score_h\n\n\nclass StationaryLin"),
 'm94': ('C17', IM, "shifts = jax.random.randint(key, (nblocks, 2), 0, rate)", "shifts = jax.random.randint(key, (nblocks, 2), 0, rate + 1)"),
 'm95': ('C08', GI, "        x0 = uss[-1, idx]\n        us_star_next = unpack(fwd_sampler(key_csmc_bwd_us, x0,", "        x0_ = x0\n        x0 = uss[-1, idx]\n        us_star_next = unpack(fwd_sampler(key_csmc_bwd_us, x0_,"),
 # round two: conditions an outsider might use to hide a fault (sizes, shapes, grids, optional arguments, precision)
 'n01': ('C01', R, "                           cum_weights[-1] * ((jnp.arange(n, dtype=weights.dtype) + u) / n))", "                           ((jnp.arange(n, dtype=weights.dtype) + u) / n))"),
 'n02': ('C01', R, "    w_max = weights.max()", "    w_max = jnp.maximum(weights.max(), 1e-2)"),
 'n04': ('C01', R, "                           cum_weights[-1] * ((jnp.arange(n, dtype=weights.dtype) + u) / n))", "                           cum_weights[-1] * ((jnp.arange(n, dtype=weights.dtype) + u) / n), side='right')"),
 'n06': ('C24', CR, "J = jax.random.choice(key_3, N, (), p=J_prob)", "J = jax.random.choice(key_1, N, (), p=J_prob)"),
 'n07': ('C02', CR, "    w_max = weights.max()", "    w_max = jnp.maximum(weights.max(), 2e-2)"),
 'n09': ('C03', GI, "jnp.maximum(1 - jnp.exp(-M), 1 - 1e-12)", "1 - 1e-3"),
 'n10': ('C03', CS, "    return jnp.exp(log_weights)\n", "    return jnp.maximum(jnp.exp(log_weights), 1e-12)\n"),
 'n11': ('C04', SMC, "            log_weights = jnp.log(log_weights)", "            log_weights = jnp.log(jnp.maximum(log_weights, 1e-10))"),
 'n15': ('C04', SMC, "        inds = resampling(jnp.exp(log_weights), key_resampling)", "        inds = resampling(jnp.exp(jnp.maximum(log_weights, -12.)), key_resampling)"),
 'n16': ('C06', SMC, "vs[-1:0:-1], vs[-2::-1], ts[-2::-1],\n                                        jax", "vs[-1:0:-1], vs[-2::-1], ts[-1:0:-1],\n                                        jax"),
 'n17': ('C06', SMC, "vs[-1:0:-1], vs[-2::-1], ts[-2::-1],\n                                        jax", "vs[-1:0:-1], vs[-1:0:-1], ts[-2::-1],\n                                        jax"),
 'n18': ('C07', CS, "jnp.exp(log_ws), b_star_prev, b_star, True)", "jnp.exp(log_ws), b_star, b_star_prev, True)"),
 'n20': ('C24', CS, "barker_move(keys[-1], W_T)", "barker_move(keys[0], W_T)"),
 'n22': ('C25', GI, "minval=0, maxval=nparticles)", "minval=0, maxval=nparticles + 2)"),
 'n24': ('C09', SMC, "math.sqrt(1 - beta) * (rnds[1] - mean)", "math.sqrt(1 - beta) * (rnds[0] - mean)"),
 'n26': ('C09', SMC, "acceptance_prob=jnp.exp(log_acc_prob)", "acceptance_prob=jnp.exp(prop_log_ell - log_ell)"),
 'n27': ('C10', SMC, "    init_log_ws = init_log_ps - jax.scipy.special.logsumexp(init_log_ps)", "    init_log_ws = jnp.full(nparticles, -math.log(nparticles))"),
 'n28': ('C10', SMC, "(keys, ts[1:]))\n    return samples", "(keys, ts[:-1]))\n    return samples"),
 'n29': ('C11', LI, "Fs, Qs = discretise_ou_sde(ts - ts[0])", "Fs, Qs = discretise_ou_sde(ts)"),
 'n31': ('C11', UT, "jnp.hstack([jnp.zeros_like(A), -A.T])", "jnp.hstack([jnp.zeros_like(A), -A])"),
 'n33': ('C13', LI, """        return self.drift(x, t) + self.dispersion(t) ** 2 * score_h


class StationaryExp""", """        return self.drift(x, t) + self.dispersion(T) ** 2 * score_h


class StationaryExp"""),
 'n35': ('C14', LI, "        scales = score_scale(ts, t0)", "        scales = score_scale(ts, 0.)"),
 'n36': ('C14', LI, "in_axes=[1, 0, 1, 0],\n                                        out_axes=1)(fwd_paths[:, 1:], ts[1:], fwd_paths[:, :-1], ts[:-1])\n            return jnp.mean((nn_evals - cond_score_evals) ** 2)\n        else:\n            raise NotImplementedError(f'Loss {loss_type} not implemented.')\n\n    def loss_fn_save_mem",
         "in_axes=[1, 0, 1, None],\n                                        out_axes=1)(fwd_paths[:, 1:], ts[1:], fwd_paths[:, :-1], ts[0])\n            return jnp.mean((nn_evals - cond_score_evals) ** 2)\n        else:\n            raise NotImplementedError(f'Loss {loss_type} not implemented.')\n\n    def loss_fn_save_mem"),
 'n37': ('C15', LI, "(sqrt0 @ jnp.linalg.solve(sqrt0.T, D_sig.T).T", "(sqrt0 @ jnp.linalg.solve(sqrt0, D_sig)"),
 'n38': ('C16', DS, "(fn(x, t, dt) - fn(x_next, t, dt))", "(fn(x, t, dt) - fn(x_next, t_next, dt))"),
 'n41': ('C17', IM, "img = jnp.zeros((*x.shape[:-2], img_w * img_h, img_c))", "img = jnp.zeros((*x.shape[:-2], img_w * img_h, img_c), jnp.bfloat16)"),
 'n42': ('C18', DB, "jnp.arange(self.n), (batch_size,), replace=False)", "jnp.arange(self.n), (batch_size,), replace=True)"),
 'n43': ('C18', IM, "(h - rectangle_size) / b, (w - rectangle_size) / b", "(w - rectangle_size) / b, (h - rectangle_size) / b"),
 'n44': ('C18', IM, "xs = data_dict['test_data']", "xs = data_dict['train_data'][:10000]"),
 'n45': ('C19', NU, "attn = nn.softmax(sim, axis=-1)", "attn = nn.softmax(sim, axis=0)"),
 'n46': ('C19', NU, "v = v / (H * W)", "v = v / (B * H * W)"),
 'n47': ('C20', NN, "jax.value_and_grad(loss_fn)(param, *args, **kwargs)", "jax.value_and_grad(loss_fn)(param, *args)"),
 'n48': ('C22', UT, "jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))", "jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol0, m1 - m0))"),
 'n49': ('C22', UT, "jnp.maximum(eigenvals, 0.)", "jnp.maximum(eigenvals, 1e-6)"),
 'n50': ('C23', BY, "self.emission(phi, self.psi), math.sqrt(self.xi))", "self.emission(phi, self.psi), self.xi)"),
 'n51': ('C24', IM, "y = self.corrupt(key_corrupt, x)", "y = self.corrupt(key_choice, x)"),
 'n52': ('C25', SMC, "        log_ws = log_ws - jax.scipy.special.logsumexp(log_ws)\n\n        return (xs, log_ps", "        log_ws = log_ws - jnp.log(jnp.sum(jnp.exp(log_ws)))\n\n        return (xs, log_ps"),
 'n55': ('C24', GI, "approx_us_star = unpack(fwd_sampler(key_fwd2,", "approx_us_star = unpack(fwd_sampler(key_fwd,"),
 'n56': ('C09', SMC, "        us = transition_sampler(us_prev, v_prev, t_prev, key_proposal, **kwargs)\n\n        return (us, log_ell), None", "        us = transition_sampler(us_prev, v_prev, t_prev, key_proposal)\n\n        return (us, log_ell), None"),
 'n57': ('C04', SMC, "log_weights = measurement_cond_pdf(v, us_prev, v_prev, t_prev, **kwargs)", "log_weights = measurement_cond_pdf(v, us_prev, v_prev, t_prev)"),
 'n58': ('C07', CS, "us = transition_sampler(us_prev, v_prev, t_prev, key_transition, **kwargs)", "us = transition_sampler(us_prev, v_prev, t_prev, key_transition)"),
 'n59': ('C10', SMC, "twisting_prop_logpdf(xs, xs_prev, t_prev, y, **kwargs)", "twisting_prop_logpdf(xs, xs_prev, t_prev, y)"),
 'n60': ('C06', SMC, "transition_logpdf(u_kp1, uf_k, v_k, t_k, *args, **kwargs)", "transition_logpdf(u_kp1, uf_k, v_k, t_k, *args)"),
 'n61': ('C08', GI, "                                                 backward=False,\n                                                 **kwargs)", "                                                 backward=False)"),
 'n62': ('C08', GI, "us_star_next = unpack(fwd_sampler(key_csmc_bwd_us, x0, y0, **kwargs), **kwargs)[0][::-1]", "us_star_next = unpack(fwd_sampler(key_csmc_bwd_us, x0, y0), **kwargs)[0][::-1]"),
 'n63': ('C12', SI, "ddt = jnp.abs(t_next - t) / integration_nsteps", "ddt = jnp.abs(ts[1] - ts[0]) / integration_nsteps"),
 'n64': ('C11', LI, "stationary_variance = -b ** 2 / (2 * a)", "stationary_variance = jnp.abs(b / (2 * a))"),
 'n65': ('C19', NM, "h = jnp.concatenate([x, jnp.broadcast_to(time_emb, (x.shape[0], 32))], axis=-1)", "h = jnp.concatenate([x - jnp.mean(x, axis=0) * 1e-3, jnp.broadcast_to(time_emb, (x.shape[0], 32))], axis=-1)"),
 'n66': ('C16', DS, "jnp.mean(errs ** 2)", "jnp.mean(jnp.mean(errs, axis=-1) ** 2)"),
 'n67': ('C09', SMC, "log_acc_prob = jnp.minimum(0., prop_log_ell - log_ell)", "log_acc_prob = jnp.clip(prop_log_ell - log_ell, -10., 0.)"),
 'n68': ('C18', IM, "keys = jax.random.split(key, num=inds.shape[0])", "keys = jnp.repeat(jax.random.split(key, num=(inds.shape[0] + 1) // 2), 2, axis=0)[:inds.shape[0]]"),
 # q: specific triggers (large sizes, boundaries, rarely used arguments)
 'q01': ('C01', R, "idx = jnp.searchsorted(cum_weights,\n                           cum_weights[-1] * ((jnp.arange(n, dtype=weights.dtype) + u) / n))",
         "idx = jnp.searchsorted(cum_weights,\n                           cum_weights[-1] * ((jnp.arange(n, dtype=weights.dtype) + u) / n), side='right')"),
 'q02': ('C01', R, "* w_max >= weights)", "* w_max > weights)"),
 'q03': ('C02', CR, "* w_max >= weights)", "* w_max > weights)"),
 'q04': ('C01', R, "(jnp.arange(n, dtype=weights.dtype) + u) / n", "(jnp.arange(n, dtype=jnp.float16) + u) / n"),
 'q05': ('C01', R, "return z[:-1] / z[-1]", "return jnp.minimum(z[:-1] / z[-1], 0.999)"),
 'q06': ('C01', CR, "    indices = jnp.searchsorted(cum_weights, cum_weights[-1] * u)", "    indices = jnp.searchsorted(cum_weights, u)"),
 'q08': ('C04', SMC, "            log_weights = jnp.log(log_weights)", "            log_weights = jnp.log(log_weights + 1e-30)"),
 'q09': ('C04', SMC, "        us = transition_sampler(us_prev, v_prev, t_prev, key_proposal, **kwargs)\n\n        log_weights", "        us = transition_sampler(us_prev, v_prev, t_prev, key_proposal)\n\n        log_weights"),
 'q10': ('C09', SMC, "prop_uTs[jax.random.permutation(key_which_u, nparticles)[which_u]]", "prop_uTs[jax.random.permutation(key_which_u, max(nparticles - 1, 1))[which_u]]"),
 'q11': ('C10', SMC, "twisting_prop_logpdf(xs, xs_prev, t_prev, y, **kwargs)", "twisting_prop_logpdf(xs, xs_prev, t_prev, y)"),
 'q12': ('C06', SMC, "log_ws = transition_logpdf(u_kp1, uf_k, v_k, t_k, *args, **kwargs)", "log_ws = transition_logpdf(u_kp1, uf_k, v_k, t_k)"),
 'q13': ('C09', SMC, "resampling, nparticles, **kwargs)\n    # The", "resampling, nparticles)\n    # The"),
 'q14': ('C08', GI, "stratified, log=True, return_last=False, **kwargs)[0]\n        approx_x0 = uss", "stratified, log=True, return_last=False)[0]\n        approx_x0 = uss"),
 'q15': ('C08', GI, "    us = path_x[::-1]\n", "    us = path_x[::-1].at[-1].set(us_star[-1])\n"),
 'q17': ('C07', CS, "log_ws0 = normalise(log_ws0, log_space=True)", "log_ws0 = normalise(log_ws0, log_space=True) * 1.001"),
 'q18': ('C07', CS, "Bs = jnp.insert(Bs, 0, B_T, axis=0)\n\n    return uss[::-1], Bs[::-1]", "Bs = jnp.insert(Bs, 0, B_T, axis=0)\n\n    return uss[::-1], Bs"),
 'q19': ('C11', LI, "            r = a * (jnp.exp(c * (t - z)) - jnp.exp(c * (s - z))) / c", "            r = a * (jnp.exp(c * (t - z)) - jnp.exp(c * (s + z))) / c"),
 'q20': ('C11', LI, "return 1 - jnp.exp(-self.beta_integral(t, s))", "return 1 - jnp.exp(-jnp.minimum(self.beta_integral(t, s), 4.))"),
 'q21': ('C11', LI, "Fs, Qs = [jnp.reshape(z, (*ts.shape, *(1,) * x0.ndim)) for z in (Fs, Qs)]\n            return Fs * x0 + jnp.sqrt(Qs) * rnds", "Fs, Qs = [jnp.reshape(z, (*ts.shape, *(1,) * x0.ndim)) for z in (Fs, Qs)]\n            return Fs * x0 + jnp.sqrt(Qs) * rnds[..., :1] if x0.ndim > 2 else Fs * x0 + jnp.sqrt(Qs) * rnds"),
 'q22': ('C11', LI, "rnds = jax.random.normal(key, (ts.shape[0] - 1, *x0.shape))\n            return jnp.concatenate", "rnds = jax.random.truncated_normal(key, -3., 3., (ts.shape[0] - 1, *x0.shape))\n            return jnp.concatenate"),
 'q23': ('C11', UT, "F = jax.scipy.linalg.expm(A * dt)", "F = jax.scipy.linalg.expm(A * dt, max_squarings=2)"),
 'q24': ('C12', SI, "        ddt = jnp.abs(t_next - t) / integration_nsteps", "        ddt = jnp.abs(ts[1] - ts[0]) / integration_nsteps"),
 'q28': ('C14', LI, "                             jnp.sort(jax.random.uniform(key_ts, (nsteps - 1,), minval=t0 + eps, maxval=T)),\n                             T])\n        else:\n            ts = jnp.linspace(t0, T, nsteps + 1)\n        scales = score_scale(ts[1:], ts[0])",
         "                             jnp.sort(t0 + eps + (T - t0 - eps) * jax.random.uniform(key_ts, (nsteps - 1,)) ** 1.1),\n                             T])\n        else:\n            ts = jnp.linspace(t0, T, nsteps + 1)\n        scales = score_scale(ts[1:], ts[0])"),
 'q29': ('C14', LI, "in_axes=[0, 0, None])(keys, x0s, ts)  # (n, nsteps + 1, ...)", "in_axes=[0, 0, None])(keys, x0s[jnp.arange(nsamples) // 2 * 2] if nsamples > 8 else x0s, ts)  # (n, nsteps + 1, ...)"),
 'q30': ('C15', LI, "        chol_t = jax.scipy.linalg.cho_factor(marginal_cov(t))", "        chol_t = jax.scipy.linalg.cho_factor(marginal_cov(t) + 1e-4 * jnp.eye(d))"),
 'q31': ('C15', LI, "    sqrt0 = sqrtm(cov0)\n", "    sqrt0 = jnp.linalg.cholesky(cov0)\n"),
 'q32': ('C16', DS, "    dts = jnp.expand_dims(jnp.abs(jnp.diff(ts)), axis=list([i + 1 for i in range(init_samples.ndim)]))", "    dts = jnp.broadcast_to(jnp.abs(ts[-1] - ts[0]) / nsteps, (nsteps, *(1,) * init_samples.ndim))"),
 'q33': ('C16', DS, "    return jnp.mean(err_final / nsteps)", "    return jnp.mean(err_final) / jnp.sum(jnp.abs(jnp.diff(ts))) * jnp.abs(ts[1] - ts[0])"),
 'q34': ('C17', IM, "        max_shift = min(img_w, img_h) - max(width, height)", "        max_shift = min(img_w, img_h, 32) - max(width, height)"),
 'q35': ('C17', IM, "            shifts = jax.random.randint(key, (nblocks, 2), 0, rate)", "            shifts = jnp.broadcast_to(jax.random.randint(key, (nblocks, 1), 0, rate), (nblocks, 2))"),
 'q37': ('C18', IM, "hs, ws = [int(stride_h * i) for i in range(b + 1)], [int(stride_w * i) for i in range(b + 1)]", "hs, ws = [int(stride_h * i) for i in range(b + 1)], [int(stride_w * i) for i in range(b)]"),
 'q38': ('C18', IM, "minval=0.1, maxval=5.)", "minval=0.1, maxval=4.9)"),
 'q39': ('C18', DB, "jnp.arange(batch_size * n_chunks), (batch_size * n_chunks,),", "jnp.arange(batch_size * n_chunks), (batch_size * n_chunks - (n_chunks > 10),),"),
 'q40': ('C18', IM, "            self.xs = data[:1000]\n        else:\n            self.n = 29000\n            self.xs = data[1000:]\n\n        super", "            self.xs = data[:1000]\n        else:\n            self.n = 29001\n            self.xs = data[999:]\n\n        super"),
 'q41': ('C19', NB, "jnp.arange(half) / max(half - 1, 1))", "jnp.arange(half) / max(half - 1, 2))"),
 'q42': ('C19', NU, "redux = tuple(range(kernel.ndim - 1))", "redux = tuple(range(kernel.ndim))"),
 'q43': ('C19', NM, "            time_emb = jax.vmap(lambda z: sinusoidal_embedding(z, out_dim=32))(k / self.dt)", "            time_emb = jax.vmap(lambda z: sinusoidal_embedding(z, out_dim=32))(jnp.floor(k / self.dt))"),
 'q44': ('C20', NN, "        if count < count_start:", "        if count <= count_start:"),
 'q45': ('C20', NN, "            if count % count_every == 0:", "            if (count - count_start) % count_every == 0:"),
 'q46': ('C20', NN, "updates, opt_state = optimiser.update(grad, opt_state, param)", "updates, opt_state = optimiser.update(grad, opt_state)"),
 'q47': ('C22', UT, "jnp.sqrt(jnp.maximum(eigenvals, 0.))", "jnp.sqrt(jnp.maximum(eigenvals, 1e-6))"),
 'q48': ('C22', UT, "2 * jnp.sum(jnp.log(jnp.abs(jnp.diag(chol))))", "2 * jnp.log(jnp.abs(jnp.prod(jnp.diag(chol))))"),
 'q49': ('C22', UT, "d = m0.shape[-1]\n    chol0", "d = cov0.shape[0] if m0.shape[-1] > 1 else 2\n    chol0"),
 'q52': ('C23', BY, "phi_mesh[0, :, 0], axis=1)", "phi_mesh[0, :, 0], axis=1) if phi_mesh.shape[0] == phi_mesh.shape[1] else evals.sum(1) * (phi_mesh[0, 1, 0] - phi_mesh[0, 0, 0])"),
 'q53': ('C24', GI, "key_fwd2, key_bwd = jax.random.split(key, num=6)", "key_fwd2, key_bwd = *jax.random.split(key, num=5), jax.random.split(key, num=5)[3]"),
 'q54': ('C24', SMC, "    uT = jax.random.choice(key_last, filter_us[-1], axis=0)", "    uT = jax.random.choice(key_last if filter_us.shape[0] > 2 else jax.random.split(key_smoother, num=nsteps)[0], filter_us[-1], axis=0)"),
 'q55': ('C18', IM, "jnp.where(maxs > mins, maxs - mins, 1.)", "(maxs - mins)"),
 'q56': ('C25', GI, "alpha = jnp.nansum(rest_weights * jnp.minimum(temp / (1 - weights), 1.))", "alpha = jnp.sum(rest_weights * jnp.minimum(temp / (1 - weights), 1.))"),
 'q57': ('C21', SMC, "(init_samples, 0.),", "(init_samples, jnp.float32(0.)),"),
 'q59': ('C09', SMC, "is_accepted=acc_flag,", "is_accepted=z < 1.,"),
 'q60': ('C05', SMC, "log_nell -= _c - math.log(nparticles)", "log_nell -= _c - math.log(nparticles if nparticles < 64 else nparticles + 1)"),
}

P = lambda f: 'experiments/' + f
M.update({
 'p01': ('C26', P('toy/gp_gibbs.py'), "math.sqrt(dt) * reverse_dispersion(t_prev) * jax.random.normal(key_, us_prev.shape))", "math.sqrt(dt) * reverse_dispersion(t_prev + dt) * jax.random.normal(key_, us_prev.shape))"),
 'p02': ('C26', P('toy/gp_pmcmc.py'), "return jnp.sum(jax.scipy.stats.norm.logpdf(v, cond_m, math.sqrt(dt) * reverse_dispersion(t_prev)))", "return jnp.sum(jax.scipy.stats.norm.logpdf(v, cond_m, math.sqrt(dt) * sde.dispersion(t_prev)))"),
 'p03': ('C26', P('toy/gp_gibbs.py'), "    key_chains = jax.random.split(subkey, num=nchains)\n    x0s, _, bs_stars, acc", "    key_chains = jnp.broadcast_to(subkey, (nchains, 2))\n    x0s, _, bs_stars, acc"),
 'p04': ('C26', P('toy/gp_pmcmc.py'), "x0s, log_ells, yss, mcmc_states = pmcmc_kernel_chain_vmap(key_chains, x0s, log_ells, yss, y0)", "x0s, log_ells, _, mcmc_states = pmcmc_kernel_chain_vmap(key_chains, x0s, log_ells, yss, y0)"),
 'p05': ('C26', P('toy/gp_pmcmc.py'), "(nsamples_, d)) @ jnp.linalg.cholesky(cov_).T", "(nsamples_, d)) @ jnp.linalg.cholesky(cov_)"),
 'p06': ('C26', P('toy/gp_gibbs.py'), "return F_ * joint_mean, F_ ** 2 * joint_cov + Q_ * jnp.eye(2 * d)", "return F_ * joint_mean, F_ ** 2 * joint_cov + Q_ * jnp.eye(2 * d) * (t < T)"),
 'p07': ('C26', P('tabulators/tabulate_toy.py'), "kl(gp_mean, gp_cov, approx_mean, approx_cov)", "kl(approx_mean, approx_cov, gp_mean, gp_cov)"),
 'p08': ('C26', P('tabulators/tabulate_toy.py'), "jax.vmap(kl, in_axes=[None, None, 0, 0])(gp_mean, gp_cov, approx_means, approx_covs)", "kl(gp_mean, gp_cov, jnp.mean(approx_means, 0), jnp.mean(approx_covs, 0))"),
 'p09': ('C26', P('toy/gp_twisted.py'), "math.sqrt(dt)", "dt"),
 'p11': ('C27', P('imgs/train.py'), "i * nsteps_per_epoch + j, 300, 2, 0.99", "j, 300, 2, 0.99"),
 'p12': ('C27', P('imgs/train.py'), "np.savez(filename, param=param, ema_param=ema_param)", "np.savez(filename, param=ema_param, ema_param=param)"),
 'p13': ('C27', P('imgs/train.py'), "nsteps_per_epoch = data_size // train_nsamples\n", "nsteps_per_epoch = data_size // train_nsamples - 1\n"),
 'p14': ('C27', P('sb_imgs/train.py'), "ref_samples, T - rnd_ts, nn_drift, nn_drift", "ref_samples, rnd_ts, nn_drift, nn_drift"),
 'p15': ('C27', P('sb_imgs/train.py'), "            if sb_step == 0:", "            if i == 0:"),
 'p16': ('C27', P('sb_imgs/train.py'), "loss = optax_kernel_fwd(param_fwd_, opt_state_fwd_, param_bwd_, subkey2, xTs)", "loss = optax_kernel_fwd(param_fwd_, opt_state_fwd_, param_bwd, subkey2, xTs)"),
 'p17': ('C27', P('sb_imgs/train.py'), "np.savez(filename, param_fwd=param_fwd, param_bwd=param_bwd)", "np.savez(filename, param_fwd=param_bwd, param_bwd=param_fwd)"),
 'p18': ('C27', P('imgs/supr.py'), "['ema_param' if args.test_ema else 'param']", "['param' if args.test_ema else 'ema_param']"),
 'p19': ('C27', P('imgs/inpainting.py'), "math.sqrt(dt) * reverse_dispersion(t_prev) * jax.random.normal(key_, us_prev.shape))", "math.sqrt(dt) * reverse_dispersion(t_prev) * jax.random.normal(key_, us_prev.shape[1:]))"),
 'p20': ('C28', P('datasets/celebaHQ/convert.py'), "method='linear'", "method='cubic'"),
 'p21': ('C28', P('datasets/celebaHQ/convert.py'), "img / 255.", "img / 256."),
 'p22': ('C28', P('datasets/celebaHQ/convert.py'), "{i + 1:05}", "{max(i, 1):05}"),
 'p23': ('C28', P('tabulators/tabulate_imgs.py'), "SSIM: {np.mean(ssims):.4f} {np.std(ssims):.4f}", "SSIM: {np.mean(ssims):.4f} {np.std(np.mean(ssims, axis=1)):.4f}"),
 'p24': ('C28', P('tabulators/plot_toy_contours.py'), "approx_cov = jnp.mean(jax.vmap(partial(jnp.cov, rowvar=False))(samples), axis=0)", "approx_cov = jnp.cov(jnp.reshape(samples, (-1, samples.shape[-1])), rowvar=False)"),
 'p25': ('C28', P('bashes/toy_filter.sh'), "k=$(( i*PARALLEL_MAX+j ))", "k=$(( i*SEQUENTIAL_MAX+j ))"),
 'p26': ('C28', P('bashes/imgs_twisted.sh'), "python imgs/supr_twisted.py --dataset=\"$dataset\" --rate=$sr_rate --sde=\"lin\" --test_nsteps=1000 --test_epoch=2999 --test_ema --test_seed=996", "python imgs/supr_twisted.py --dataset=\"$dataset\" --rate=$sr_rate --sde=\"lin\" --test_nsteps=1000 --test_epoch=2999 --test_ema --test_seed=666"),
 'p27': ('C28', P('tabulators/plot_autocorrs_imgs.py'), "np.nanmin(ac_fn(samples), axis=-1)", "np.nanmax(ac_fn(samples), axis=-1)"),
 'p28': ('C28', P('tabulators/plot_sb.py'), "np.quantile(errs_filter_heuristic, q=0.95, axis=0)", "np.quantile(errs_filter_proper, q=0.95, axis=0)"),
 'p29': ('C28', P('tabulators/plot_pmcmc_trace.py'), "[chain_id, :, dim_id]", "[chain_id, :, chain_id + 1]"),
 'p30': ('C28', P('bashes/sb_imgs.sh'), "--method='gibbs' --y0_id=$i --test_nsteps=64", "--method='gibbs' --y0_id=$i --test_nsteps=128"),
 'p31': ('C28', P('bashes/imgs_pmcmc.sh'), "--test_epoch=2999", "--test_epoch=2990"),
 'p32': ('C26', P('sb/gibbs.py'), "T - t", "t"),
 'p33': ('C28', P('tabulators/plot_imgs.py'), "method='clip'", "method='norm'"),
 'p34': ('C28', P('datasets/make_cifar10.py'), "/ 255", "/ 256"),
 'p35': ('C28', P('tabulators/tabulate_imgs.py'), "peak_signal_noise_ratio(true_img, restored_imgs[k], data_range=1)", "peak_signal_noise_ratio(true_img, restored_imgs[k], data_range=2)"),
})


def one(id):
    prop, file, old, new = M[id]
    d = f'/tmp/mut_{id}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    p = os.path.join(d, file)
    s = open(p).read()
    if old not in s:
        shutil.rmtree(d)
        return id, prop, 'NOT APPLICABLE'
    open(p, 'w').write(s.replace(old, new, 1))
    try:
        r = subprocess.run(['/verif/run', prop], capture_output=True, text=True, env={**os.environ, 'VERIF_REPO': d, "VERIF_JOBS": os.environ.get("MUT_JOBS", "4")}, timeout=1500)
        why = [l for l in r.stdout.splitlines() if 'broken' in l][:1]
        return id, prop, {0: 'MISSED', 1: 'caught', 2: 'NO ANSWER'}[r.returncode] + ' ' + (why[0][:150] if why else r.stdout[-300:] if r.returncode else '')
    except subprocess.TimeoutExpired:
        return id, prop, 'TIMEOUT'
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ids = sys.argv[1:] or list(M)
    with ThreadPoolExecutor(int(os.environ.get("MUT_WORKERS", 3))) as ex:
        for r in ex.map(one, ids):
            print(*r, flush=True)
