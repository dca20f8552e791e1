"""C11: replay of parsets.qnt (see psets.py)."""
import psets


def run(chk):
    chk.rule = 'a case is a construction, refusal, conversion or storage step of a history'
    psets.run(chk, 'stepStore', 'storage', 120, 2400)
    psets.run(chk, 'step', 'storage', 40, 800)
    # every required entry of every parameterization, left out and spoiled
    psets.run(chk, 'sweep', 'refusal', 1, 1, steps=chk.scale(340, 1900))
