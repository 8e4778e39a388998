import faulthandler
import importlib
import json
import os
import signal
import sys
import warnings


def main():
    faulthandler.enable()
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    job = json.load(open(sys.argv[1]))
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    warnings.simplefilter('ignore')
    if job.get('nompi'):
        comm = None
    else:
        from mpi4py import MPI
        comm = MPI.COMM_WORLD
        if comm.size != job['ranks']:
            sys.stderr.write('wrong world size %d\n' % comm.size)
            sys.exit(3)
    if job.get('shim', True):
        import pfftshim
        pfftshim.install()
    import pmesh
    where = os.path.dirname(os.path.abspath(pmesh.__file__))
    if where != os.path.join(job['tree'], 'pmesh'):
        sys.stderr.write('pmesh imported from %s\n' % where)
        sys.exit(3)
    mod = importlib.import_module('checks.' + job['module'])
    import core
    rc = core.run_job(mod, job, comm)
    sys.stdout.flush()
    sys.stderr.flush()
    if comm is not None:
        MPI.Finalize()
    os._exit(rc)


main()
