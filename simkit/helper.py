"""A pristine interpreter of another kind (hash seed, locale, optimisation): a zygote, see core.serve."""
import sys
import threading  # noqa
from simkit import sched
sched.patch()
import importlib
import os
import warnings


def main():
    fds = [int(x) for x in sys.argv[1].split(',')]
    fds2 = [os.dup2(fd, 904 + i, inheritable=False) for i, fd in enumerate(fds)]
    for fd in fds:
        os.close(fd)
    warnings.simplefilter('ignore')
    from simkit import core
    import sudachipy.dictionary  # noqa
    import sudachipy.command_line  # noqa
    for m in sys.argv[2:]:
        importlib.import_module(m)
    core.serve(*fds2)


if __name__ == '__main__':
    main()
