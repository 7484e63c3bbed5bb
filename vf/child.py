"""
Run a function as if it was a program: in a forked child with own working directory, argv, stdout, stderr and limits.
"""
import os
import signal
import sys
import tempfile
import traceback


def run(fn, argv=('prog',), cwd=None, fsize=None, seconds=60):
    """ -> (exit status like a shell, stdout, stderr) """
    out, err = tempfile.TemporaryFile(), tempfile.TemporaryFile()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(seconds)
            os.dup2(out.fileno(), 1)
            os.dup2(err.fileno(), 2)
            sys.stdin = open(os.devnull)
            sys.stdout = open(1, 'w', encoding='utf-8', errors='backslashreplace', closefd=False)
            sys.stderr = open(2, 'w', encoding='utf-8', errors='backslashreplace', closefd=False)
            if cwd is not None:
                os.chdir(cwd)
            sys.argv = list(argv)
            if fsize is not None:
                import resource
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            fn()
            code = 0
        except SystemExit as e:
            code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            if isinstance(e.code, str):
                print(e.code, file=sys.stderr)
        except BaseException:
            try:
                traceback.print_exc()
            except BaseException:
                pass
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            except BaseException:
                pass
            os._exit(code & 255)
    _, status = os.waitpid(pid, 0)
    texts = []
    for f in (out, err):
        f.seek(0)
        texts.append(f.read().decode('utf-8', 'replace'))
        f.close()
    return os.waitstatus_to_exitcode(status), *texts


def snapshot(root):
    """ all entries below a directory: {relative name: content or kind} """
    found = {}
    for base, dirs, files in os.walk(root):
        for name in dirs + files:
            path = os.path.join(base, name)
            rel = os.path.relpath(path, root)
            if os.path.islink(path):
                found[rel] = ('link', os.readlink(path))
            elif os.path.isdir(path):
                found[rel] = ('dir',)
            else:
                with open(path, 'rb') as f:
                    found[rel] = f.read()
    return found
