"""C14 data sources of a loaded bicycle: replay of BikeStore.tla."""
import os
import shutil
import tempfile

import bikestore
import vlib
from vlib import need


def missing(chk):
    import bicycleparameters
    tmp = tempfile.mkdtemp()
    for mk in ((), ('bicycles',), ('bicycles', 'Bikes'), ('bicycles', 'Bik'), ('Bike',)):
        root = os.path.join(tmp, '_'.join(('d',) + mk))
        os.makedirs(os.path.join(root, *mk))
        for kw in ({}, {'forceRawCalc': True}, {'forcePeriodCalc': True}):
            def one():
                before = bikestore.snapshot(root)
                try:
                    with vlib.quiet():
                        bicycleparameters.Bicycle('Bike', pathToData=root, **kw)
                    need(False, 'a bicycle without a directory was loaded')
                except ValueError as e:
                    need('Bike' in str(e), 'the error does not name the bicycle')
                need(bikestore.snapshot(root) == before, 'a failed load wrote files')
            chk.guard('missing directory', {'dirs': mk, 'kw': kw}, one)
            chk.case(('missing', mk, sorted(kw)))
    shutil.rmtree(tmp, ignore_errors=True)


def run(chk):
    chk.level = 'model_checking'
    chk.rule = 'a case is one load or save of a bicycle with one history of its directory'
    missing(chk)
    bikestore.replay(chk, 'sources')
