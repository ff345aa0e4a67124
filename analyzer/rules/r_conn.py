"""C34: connections that outlive what they call into."""
from scen import *
from rules import r_io, r_signal, r_wait, r_ws, r_misc
from rules.r_io import R34, run_spec
from rules.r_signal import R12b
from rules.r_ws import R24b

UAF = 'nothing-dead-is-touched'


def c34(ck):
    """Every wait of the library, judged for what is left connected when it has ended and for what later signals reach."""
    ck.only = [R34, R12b, R24b, UAF]
    ck.shallow = 0 if ck.thorough else 1
    for specs in (r_io.c17_specs, r_wait.c18_specs, r_wait.c19_specs, r_wait.c20_specs, r_wait.c22_specs, r_wait.c25_specs, r_ws.c23_specs):
        for sp in specs(ck):
            run_spec(ck, sp)
    for sp in r_io.c15_specs(ck):
        if 'await' in sp.fn or ck.thorough:
            run_spec(ck, sp)
    r_signal.c12(ck)
    r_signal.c14(ck)
    r_misc.c26(ck)
    r_ws.c24(ck)


RULES = {'C34': c34}
