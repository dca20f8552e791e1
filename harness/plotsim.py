"""Replay of simulate.qnt on the figures of simulations and mode simulations."""
import copy

import numpy as np

import c09
import mdl
import plotmdl
import vlib
from vlib import fx, fxm, need, need_close

DEG = 180.0 / np.pi


def entries(ax):
    """(label, line) of an axes, labelled by its legend or its ylabel."""
    lines = list(ax.lines)
    leg = ax.get_legend()
    if leg is None:
        labs = [l.get_label().strip('$') for l in lines]
        if len(lines) == 1 and labs[0].startswith('_'):
            labs = [ax.get_ylabel()]
        return list(zip(labs, lines))
    texts = [t.get_text() for t in leg.get_texts()]
    hand = list(leg.legend_handles)
    out = []
    left = list(lines)
    need(len(texts) == len(lines), '%d legend entries %s for %d lines', len(texts), texts, len(lines))
    for t, h in zip(texts, hand):
        l = next((l for l in left if l.get_color() == h.get_color()
                  and l.get_linestyle() == h.get_linestyle()), None)
        need(l is not None, 'legend entry %r belongs to no line', t)
        left.remove(l)
        out.append((t.strip('$'), l))
    return out


def name_of(label, names):
    label = label.replace('$', ' ').strip()
    hit = [j for j, s in enumerate(names) if label == s]
    if not hit:
        hit = [j for j, s in enumerate(names) if s in label.split(' ')]
    need(len(hit) == 1, 'label %r names none of %s', label, names)
    return hit[0]


def factor(ax, rad):
    lab = ax.get_ylabel()
    if 'deg' in lab:
        return DEG
    need(not ('rad' in lab and rad is None), 'label %r', lab)
    return 1.0


def is_angle(unit):
    return 'rad' in unit


UNITS12 = ['m'] * 2 + ['rad'] * 6 + ['rad/s'] * 4


def check_unit(ax, unit, what):
    lab = ax.get_ylabel()
    base = 'deg' if 'deg' in lab else 'rad' if 'rad' in lab else 'm'
    need((base == 'm') == (unit == 'm'), '%s has unit %s but is drawn on the axes labelled %r', what,
         unit, lab)
    if unit != 'm':
        need(('/s' in lab) == ('/s' in unit), '%s has unit %s but is drawn on the axes labelled %r',
             what, unit, lab)
    return DEG if base == 'deg' else 1.0


def check_sim_plot(model, st, n, m):
    import matplotlib.pyplot as plt
    call, out = st['call'], st['want']
    t = mdl.container([fx(x) for x in call['t']], call['seq'])
    ts = np.array(fxm(call['t']))
    x0 = mdl.container([fx(x) for x in call['x0']], call['xseq'])
    t_before, x0_before = copy.deepcopy(t), copy.deepcopy(x0)
    kw = {k: fx(v) for k, v in call['scal'].items()}
    log = []
    f = c09.law_fun(call, n, log) if call['op'] == 'forced' else None
    with vlib.quiet():
        axes = model.plot_simulation(t, x0, **(dict(kw, input_func=f) if f else kw))
        res, inp = model.simulate(t, x0, **(dict(kw, input_func=f) if f else kw))
    need(mdl.same_value(t, t_before), 'the caller\'s times changed to %r', t)
    need(mdl.same_value(x0, x0_before), 'the caller\'s initial conditions changed to %r', x0)
    axes = np.ravel(axes)
    fig = axes[0].figure
    need(len(fig.axes) >= len(axes), 'axes missing from the figure')
    units = UNITS12 if n == 12 else ['rad'] * 2 + ['rad/s'] * 2
    xs, us = {}, {}
    for ax in fig.axes:
        for lab, line in entries(ax):
            need_close(plotmdl.floats(line.get_xdata()), ts, 'times of %s' % lab, 1e-12)
            names = sum(plotmdl.names(model), [])
            k = name_of(lab, names)
            y = plotmdl.floats(line.get_ydata())
            if k < n:
                need(k not in xs, 'state %s is drawn twice', names[k])
                xs[k] = y / check_unit(ax, units[k], names[k])
            else:
                need(k - n not in us, 'input %s is drawn twice', names[k])
                need('Nm' in ax.get_ylabel() or 'N-m' in ax.get_ylabel(), 'input %s on the axes of %r',
                     names[k], ax.get_ylabel())
                us[k - n] = y
    need(sorted(xs) == list(range(n)), 'the figure shows the states %s of %d', sorted(xs), n)
    need(sorted(us) == list(range(m)), 'the figure shows the inputs %s of %d', sorted(us), m)
    x = np.array([xs[k] for k in range(n)]).T
    u = np.array([us[k] for k in range(m)]).T
    need_close(x, np.asarray(res), 'the drawn states against simulate()', 1e-9, 1e-12)
    need_close(u, np.asarray(inp), 'the drawn inputs against simulate()', 1e-9, 1e-12)
    c09.check_traj(x, np.array(fxm(out['x'])), 'drawn %s simulation' % call['op'])
    plt.close('all')


def check_mode_plot(model, st, n):
    import matplotlib.pyplot as plt
    call, out = st['call'], st['want']
    t = mdl.container([fx(x) for x in call['t']], call['seq'])
    ts = np.array(fxm(call['t']))
    kw = {k: fx(v) for k, v in call['scal'].items()}
    with vlib.quiet():
        got = np.asarray(model.simulate_modes(t, **kw))
        evals, _ = model.calc_eigen(**kw)
    A = np.array(fxm(out['A']))
    Phi = [np.array(fxm(p)) for p in out['Phi']]
    mag = np.abs(evals)
    # hide none, exact zeros, and all but the largest ones (or all but one)
    if n == 12:
        # (four of the twelve are enough: drawing is slow)
        variants = [False] if len(call['t']) == 3 else [True]
    else:
        top = np.sort(mag)
        variants = [False, True, float(0.5 * (top[-1] + top[0])), float(0.5 * (top[-1] + top[-2]))]
    units = UNITS12 if n == 12 else ['rad'] * 2 + ['rad/s'] * 2
    for hide in variants:
        tol = 1e-12 if hide is True else hide
        if hide and np.any(np.abs(mag - tol) < (1e-6 if hide is not True else 9.9e-13)):
            continue
        if hide and np.all(mag < tol):
            continue
        shown = [k for k in range(n) if not hide or mag[k] >= tol]
        with vlib.quiet():
            axes = np.asarray(model.plot_mode_simulations(t, hide_zeros=hide, **kw))
        need(axes.ndim == 2 and axes.shape[0] == len(shown), 'axes of shape %s for %d modes with '
             'hide_zeros=%r', axes.shape, len(shown), hide)
        for row, k in enumerate(shown):
            xs = {}
            for ax in axes[row]:
                lam = plotmdl.title_value(ax.get_title())
                need(abs(lam - evals[k]) <= 2e-3, 'row %d is titled %s, its eigenvalue is %s', row,
                     lam, evals[k])
                if abs(complex(evals[k]).real) > 1e-9:
                    red = plotmdl.mcolor(ax.title.get_color()) == plotmdl.mcolor('red')
                    need(red == (complex(evals[k]).real > 0), 'eigenvalue %s is titled in %s', evals[k],
                         ax.title.get_color())
                for lab, line in entries(ax):
                    j = name_of(lab, plotmdl.names(model)[0])
                    need(j not in xs, 'state %s is drawn twice in row %d', lab, row)
                    need_close(plotmdl.floats(line.get_xdata()), ts, 'times of %s' % lab, 1e-12)
                    xs[j] = plotmdl.floats(line.get_ydata()) / check_unit(ax, units[j], lab)
            need(sorted(xs) == list(range(n)), 'row %d shows the states %s of %d', row, sorted(xs), n)
            x = np.array([xs[j] for j in range(n)]).T
            need_close(x, got[k], 'mode %d against simulate_modes()' % k, 1e-9, 1e-12)
            c09.check_traj(x, np.array([P @ x[0] for P in Phi]), 'drawn mode %d' % k)
        for ax in axes[-1]:
            need('Time' in ax.get_xlabel(), 'the lowest axes are labelled %r', ax.get_xlabel())
        plt.close('all')


def replay(chk, tr):
    import matplotlib.pyplot as plt
    box, hist = {}, []
    for st in tr:
        call = st['call']
        n, m = (12, 3) if st['kind'] == 'lean' else (4, 2)
        hist.append({'op': 'plot ' + call['op'], 'scal': {k: fx(v) for k, v in call['scal'].items()},
                     't': fxm(call['t']), 'x0': fxm(call['x0'])})
        data = {'kind': st['kind'], 'base': mdl.par_floats(st['base']), 'calls': hist[:]}

        def one():
            try:
                if call['op'] == 'new':
                    box['m'], box['given'] = c09.new_model(st['kind'], st['base'])
                    box['d'] = dict(box['given'])
                    return
                if call['op'] == 'edit':
                    box['d'], box['given'] = mdl.edit_params(box['m'], box['d'], st)
                    return
                if call['op'] == 'modes':
                    check_mode_plot(box['m'], st, n)
                elif call['op'] != 'array':
                    check_sim_plot(box['m'], st, n, m)
            finally:
                plt.close('all')
            mdl.check_params_unchanged(box['m'], box['d'], box['given'])
        chk.guard('%s/plot %s' % (st['kind'], call['op']), data, one)
        chk.case((st['kind'], hist[-1], sorted(st['base'].items())), data)
        if 'm' not in box or chk.too_many():
            return


def run(chk):
    jobs = vlib.split_jobs(dict(spec='simulate.qnt', steps=6, invariants=c09.INV),
                           chk.scale(24, 400), 4, chk.seed + 5)
    jobs += vlib.split_jobs(dict(spec='simulate.qnt', init='initLean', steps=4, invariants=c09.INV),
                            chk.scale(8, 120), 2, chk.seed + 6)
    traces = [tr for l in vlib.quint_many(jobs) for tr in l]

    def one(c, tr):
        c.count_trace(tr)
        replay(c, tr)
    chk.parallel(one, traces)
