"""The command line, run inside the simulated process."""
import sys
import simio

COMMANDS = ['overview', 'fonts', 'text', 'disasm', 'browse', 'hexdump']


def run(lib, w, argv, stdout='buffered', entry=None):
    """(exit status, standard output bytes).  120: output lost at interpreter exit."""
    cli = sys.modules['pdfsyntax.cli']
    old_argv, old_err = sys.argv, sys.stderr
    sys.argv = ['pdfsyntax'] + argv
    io = simio.stdio(w, stdout)
    err = simio.Sink()
    try:
        with io:
            sys.stderr = err
            try:
                cli.main()
                status = 0
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except simio.Crash:
                raise
            except KeyboardInterrupt:
                status = 130
            except Exception as e:
                status = 1
                run.error = e
        if not io.shutdown() and status == 0:
            status = 120
    finally:
        sys.argv, sys.stderr = old_argv, old_err
    data = io.data()
    io.discard()
    return status, data


run.error = None
