"""Worker: imports dolfin and the code under test once, then forks a child that runs cases.

A crash of the child (C++ exit/abort/segfault, endless loop) is reported as the result of the case
that was running, and a new child is forked.
"""
import json, os, resource, signal, sys, traceback

prop, scratch = sys.argv[1], sys.argv[2]
fd = int(os.environ['VERIF_RESULT_FD'])
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
CASE_TIMEOUT = 120
RECYCLE = 400
RECYCLE_CODE = 77
EOF_CODE = 78


def send(d):
    data = (json.dumps(d) + '\n').encode()
    while data:
        n = os.write(fd, data)
        data = data[n:]


def readn(n):
    b = bytearray()
    while len(b) < n:
        c = os.read(0, n - len(b))
        if not c:
            return None
        b += c
    return bytes(b)


def readcase():
    h = readn(12)
    return None if h is None else readn(int(h))


try:
    import importlib
    import dt_pybind11_bridge  # noqa: shares dolfin's pybind11 types with the solibs
    import dolfin
    dolfin.set_log_level(50)
    import core
    import Dolfin_Module, Particle_Module, DT_Module, SegmentedArrayPair_Module, RecordedData_Module
    mod = importlib.import_module('props.' + prop.lower())
    if hasattr(mod, 'preload'):
        mod.preload()
except BaseException:
    send(dict(status='import-failed', msg=traceback.format_exc()[-3000:]))
    sys.exit(0)


def serve():
    """Child: run cases until recycled."""
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    log = os.path.join(scratch, 'child.log')
    lfd = os.open(log, os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    os.dup2(lfd, 1)
    os.dup2(lfd, 2)
    # exit() called by the C++ code must not run MPI's exit handlers in a forked process: they can hang
    import ctypes
    global _hook
    _hook = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_void_p)(lambda st, arg: os._exit(st))
    ctypes.CDLL(None).on_exit(_hook, None)
    n = 0
    while True:
        line = readcase()
        if line is None:
            os._exit(EOF_CODE)
        case = json.loads(line)
        os.ftruncate(lfd, 0)
        ctx = core.Ctx(scratch)
        signal.alarm(CASE_TIMEOUT)
        res = dict(status='ok')
        try:
            ctx.enter()
            mod.run(case, ctx)
        except core.Violation as e:
            res = dict(status='fail', msg=str(e)[:4000])
        except core.Discard:
            ctx.nontriv = False
            ctx.labels.append('discarded')
        except core.HarnessBug:
            res = dict(status='harness-error', msg=traceback.format_exc()[-4000:])
        except MemoryError:
            res = dict(status='harness-error', msg='out of memory')
        except BaseException as e:
            # any other exception means the code under test raised, exited, or returned something
            # unusable on an input it must accept
            res = dict(status='fail', msg='exception: ' + traceback.format_exc()[-3500:])
        finally:
            signal.alarm(0)
            try:
                sys.stdout.flush()
                ctx.leave()
            except Exception:
                pass
        res['nontrivial'] = bool(ctx.nontriv)
        res['labels'] = ctx.labels
        send(res)
        n += 1
        if n >= getattr(mod, 'RECYCLE', RECYCLE):
            os._exit(RECYCLE_CODE)


send(dict(status='ready'))
while True:
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            serve()
        finally:
            os._exit(99)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == RECYCLE_CODE:
        continue
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == EOF_CODE and not core.in_case(scratch):
        sys.exit(0)
    tail = ''
    try:
        tail = open(os.path.join(scratch, 'child.log'), errors='replace').read()[-1500:]
    except Exception:
        pass
    what = 'signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit code %d' % os.WEXITSTATUS(st)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
        what = 'no answer within %d s' % CASE_TIMEOUT
    core.clear_case(scratch)
    send(dict(status='crash', msg='the process running the case ended: %s\n%s' % (what, tail), labels=['crash']))
