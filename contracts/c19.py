"""The command line options: both projects get the same treatment and the requested format shows the result."""
import z3

from logic import b_and, b_ite, b_or
import cmn
from runmodel import EMPTY, Model

ASSUMPTIONS = ['removing unused items and ignoring flash sizes are idempotent and commute (C07)',
               'memorymap.get() creates the map file and ELF objects that are not passed (C18)']


def run(P):
    m = Model(P, '_run')
    P.call('main', '_run', m.args)
    out = P.out
    P.prove('the report is that of the expected memory map, in the requested format and with the given options', m.current(out) == m.final_report())
    conflicts = z3.If(b_and(m.truth('no_abbrev'), m.truth('unify')), 1, 0) + z3.If(b_and(m.truth('archive_dependencies'), m.truth('diff')), 1, 0)
    P.prove('a warning for each conflict of options', m.w(out, 'warnings') >= conflicts)
    P.prove('the report goes to the console unless an output file is given', m.w(out, 'tobuf') == m.truth('output_file'))
    P.prove('nothing else is suppressed', m.w(out, 'silent') == m.truth('quiet'))
    for i, x in enumerate(P.raises):
        P.out = x.state
        P.prove(f'a failure only after a failure of a step ({i + 1}, {x.exc[0]})', b_or(*[k != 0 for k in m.ks]))
    P.out = out


PARTS = cmn.parts(run)
