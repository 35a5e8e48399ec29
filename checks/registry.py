"""Property id -> check."""
import os
from sa.harness import main
from . import props

CHECKS = {}


PROPS = dict((p['id'], p) for p in props.P)


def check(pid, build, extra=None):
    p = PROPS[pid]
    CHECKS[pid] = (p['title'], props.ENGINE + p['rule'], build, extra, tuple(props.BASE) + tuple(p['assumptions']))


def run(pid, argv):
    tier = argv[0] if argv and argv[0] in ('quick', 'thorough') else os.environ.get('VERIF_TIER', 'quick')
    os.environ['VERIF_TIER'] = tier
    title, rule, build, extra, assumptions = CHECKS[pid]
    return main(pid, title, rule, build(tier) if build else [], extra, assumptions, [tier])


from . import gaussian as g          # noqa: E402

check('C01', g.c01)
check('C02', g.c02)
check('C04', g.c04)

from . import transforms as t        # noqa: E402

check('C05', t.c05)
check('C06', t.c06)
check('C07', t.c07)
check('C12', t.c12)

from . import ep                     # noqa: E402

check('C08', ep.c08)
check('C09', ep.c09)
check('C10', ep.c10)
check('C11', ep.c11)
check('C18', ep.c18)
check('C19', ep.c19)
check('C23', ep.c23)

from . import filters as fl          # noqa: E402

check('C13', fl.c13)
check('C14', fl.c14)
check('C15', fl.c15)
check('C16', fl.c16)
check('C17', fl.c17)

from . import systems as sy          # noqa: E402

check('C20', sy.c20)
check('C21', sy.c21)
check('C22', sy.c22)

from . import db                     # noqa: E402

check('C24', db.c24)
check('C25', db.c25)

from . import general as ge           # noqa: E402

check('C03', ge.c03)
check('C26', ge.c26)
check('C27', ge.c27)

from . import scripts as sc          # noqa: E402

check('C32', sc.c32)

from . import display as di          # noqa: E402

check('C33', di.c33)
check('C34', di.c34)
