"""Entry point: run.py <property id>."""
import importlib
import os
import sys
import tempfile
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, '/repo')
TMP = os.environ.get('VERIF_TMP', '/tmp')
os.chdir(TMP)
# data directories lie where people put them: under names that also occur
# inside a data directory
tempfile.tempdir = os.path.join(TMP, 'bicycles', 'Bike', 'RawData', 'riders', 'Parameters',
                                'my data.v1, #2 = 1.0+-0.5')
os.makedirs(tempfile.tempdir, exist_ok=True)
import vlib  # noqa: E402


def main():
    pid = sys.argv[1]
    chk = vlib.Check(pid)
    try:
        import bicycleparameters
        assert bicycleparameters.__file__.startswith('/repo/'), bicycleparameters.__file__
    except Exception as e:  # the code under test does not even import
        chk.violation('import', {}, 'the package does not import: %r' % (e,))
        return chk.finish()
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(chk)
    except vlib.Machinery as e:
        print('MACHINERY ERROR:', e)
        return 2
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith('/repo/') for f in tb) or \
                isinstance(e, (ImportError, AttributeError)) and 'bicycleparameters' in str(e):
            chk.violation('unexpected', {}, traceback.format_exc())
            return chk.finish()
        traceback.print_exc()
        print('MACHINERY ERROR: unexpected exception in harness')
        return 2
    return chk.finish()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
