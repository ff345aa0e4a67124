"""C33: library coroutines outlive the wrapper and the arguments they were called with."""
import rulelib
from scen import *
from rules import r_io, r_signal, r_wait, r_ws, r_misc, r_then, r_qml
from rules.r_io import run_spec

UAF = 'nothing-dead-is-touched'


def c33(ck):
    """Every coroutine of the library, called on a temporary wrapper with temporary arguments, its task awaited afterwards."""
    ck.only = [UAF]
    ck.poke = False
    ck.shallow = 1 if ck.thorough else 3
    rulelib.KEPT[0] = 'only'
    for specs in (r_io.c17_specs, r_io.c15_specs, r_wait.c18_specs, r_wait.c19_specs, r_wait.c20_specs, r_wait.c22_specs, r_wait.c25_specs, r_ws.c23_specs):
        for sp in specs(ck):
            run_spec(ck, sp)
    r_io.c16(ck)
    r_signal.c12(ck)
    r_misc.c26(ck)
    r_misc.c27(ck)
    r_misc.c28(ck)
    ck.join()
    rulelib.KEPT[0] = False
    r_signal.c14(ck)
    r_ws.c24(ck)
    r_then.c06(ck)
    r_then.c07(ck)
    r_qml.c29(ck)
    r_qml.c30(ck)


RULES = {'C33': c33}
