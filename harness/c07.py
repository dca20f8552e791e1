"""C07 full state feedback."""
import numpy as np
import vlib
import mdl
from vlib import fx, fxm, need, need_close

GAINS = ['kTphi_phi', 'kTphi_del', 'kTphi_phid', 'kTphi_deld',
         'kTdel_phi', 'kTdel_del', 'kTdel_phid', 'kTdel_deld']


def visit(model, st, es):
    import matplotlib.pyplot as plt
    from bicycleparameters import models
    call = st['call']
    if call['op'] == 'badlen':
        return
    kw = mdl.overrides(call)
    got, _ = mdl.call_model(model.form_state_space_matrices, kw)
    mdl.check_ss(got, st, es)
    # the open loop of the same parameters has the same input matrix
    if not st['stacked']:
        e = es[0]
        d = {k: v for k, v in e['par'].items() if k not in GAINS}
        from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
        plain = models.Meijaard2007Model(Meijaard2007ParameterSet(d, True))
        A, B = plain.form_state_space_matrices()
        K = np.array([[e['par'][g] for g in GAINS[:4]], [e['par'][g] for g in GAINS[4:]]])
        rt = mdl.rtol_for(e)
        need_close(np.asarray(A) - np.asarray(B) @ K, e['A'], 'A - B K', rt, 1e-10)
        # plain bicycle promoted to the feedback model: zero gains, same matrices
        fb = models.Meijaard2007WithFeedbackModel(Meijaard2007ParameterSet(d, True))
        A0, B0 = fb.form_state_space_matrices()
        need_close(np.asarray(A0), np.asarray(A), 'zero gain A', 1e-13)
        need_close(np.asarray(B0), np.asarray(B), 'zero gain B', 1e-13)
        # promoted bicycle with the gains given as overrides
        A1, B1 = fb.form_state_space_matrices(**{g: e['par'][g] for g in GAINS})
        need_close(np.asarray(A1), e['A'], 'A with override gains', rt, 1e-10)
        need_close(np.asarray(B1), e['B'], 'B with override gains', rt, 1e-10)
    # plotted gains
    xkeys = [k for k in call['arrs'] if k not in GAINS]
    if len(xkeys) == 1 and len(es) > 1:
        ax, _ = mdl.call_model(model.plot_gains, kw)
        ax = np.asarray(ax)
        need(ax.shape == (2, 4), 'gain axes have shape %s', ax.shape)
        for j, g in enumerate(GAINS):
            line = ax.flatten()[j].lines[-1]
            need_close(np.asarray(line.get_xdata(), dtype=float),
                       [e['par'][xkeys[0]] for e in es], 'x of plotted gain ' + g)
            need_close(np.asarray(line.get_ydata(), dtype=float),
                       [e['par'][g] for e in es], 'plotted gain ' + g)
        plt.close('all')
    elif st['stacked'] and not xkeys:
        try:
            mdl.call_model(model.plot_gains, kw)
        except ValueError:
            pass
        else:
            raise vlib.Mismatch('plot_gains accepted a call without x axis parameter')
        finally:
            plt.close('all')


def run(chk):
    chk.rule = 'a case is one call on a feedback model (gains, parameters, scalar/array mix)'
    mdl.run_session(chk, chk.scale(60, 700), 7, 'initF', 'step', visit)
