"""C25: what the figures show."""
import plotgeo
import plotmdl
import plotride
import plotsim


def run(chk):
    chk.rule = 'a case is one figure drawn after a history of plotting calls on one object'
    for part in (plotmdl, plotsim, plotgeo, plotride):
        part.run(chk)
        if chk.too_many():
            break
