"""Shared by all property modules (worker side)."""
import os, shutil


class Violation(Exception):
    pass


class Discard(Exception):
    pass


class HarnessBug(Exception):
    pass


def in_case(scratch):
    return os.path.exists(os.path.join(scratch, 'running'))


def clear_case(scratch):
    try:
        os.unlink(os.path.join(scratch, 'running'))
    except OSError:
        pass


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.labels = []
        self.nontriv = False
        self.dir = os.path.join(scratch, 'case')

    def enter(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.chdir(self.dir)
        open(os.path.join(self.scratch, 'running'), 'w').close()

    def leave(self):
        clear_case(self.scratch)
        os.chdir(self.scratch)
        shutil.rmtree(self.dir, ignore_errors=True)

    def label(self, *ls):
        for l in ls:
            if l not in self.labels:
                self.labels.append(l)

    def nontrivial(self, flag=True):
        if flag:
            self.nontriv = True


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, rtol=1e-9, atol=1e-12):
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
