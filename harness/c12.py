"""C12: replay of parsets.qnt (see psets.py)."""
import psets


def run(chk):
    chk.rule = 'a case is a mass centre or inertia query of one object after a history'
    psets.run(chk, 'stepWeigh', 'centre', 120, 2400)
    psets.run(chk, 'step', 'centre', 40, 800)
