"""C32: what lives in the awaiting coroutine is not touched after that was resumed."""
from scen import *
from rules import r_io, r_signal, r_wait, r_ws, r_misc
from rules.r_io import run_spec

UAF = 'nothing-dead-is-touched'


def c32(ck):
    """Every wait of the library, awaited by a coroutine whose task was discarded: it frees itself when it is resumed for the last time."""
    ck.only = [UAF]
    ck.poke = False
    ck.detach = True
    ck.shallow = 0 if ck.thorough else 2
    for specs in (r_io.c17_specs, r_io.c15_specs, r_wait.c18_specs, r_wait.c19_specs, r_wait.c20_specs, r_wait.c22_specs, r_wait.c25_specs, r_ws.c23_specs):
        for sp in specs(ck):
            run_spec(ck, sp)
    r_io.c16(ck)
    r_wait.c21(ck)
    r_signal.c12(ck)
    r_signal.c13(ck)
    r_signal.c14(ck)
    r_misc.c26(ck)
    r_misc.c27(ck)
    r_misc.c28(ck)
    r_ws.c24(ck)


RULES = {'C32': c32}
