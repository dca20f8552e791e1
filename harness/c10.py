"""C10: replay of parsets.qnt (see psets.py)."""
import psets


def run(chk):
    chk.rule = 'a case is a conversion step after a history of constructions and conversions'
    psets.run(chk, 'stepConvert', 'conversion', 120, 2400)
    psets.run(chk, 'step', 'conversion', 40, 800)
