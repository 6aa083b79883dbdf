"""Reference conformance: the guarded effects of each function carrying the property (what is returned,
yielded, raised, stored, emitted, and which collaborators are called with what, each under the exact
condition) are derived from the current source by dataflow analysis and must be the set stated by the
reference specification of that function."""
from sa.conform import conforms, hierarchy, values
from rules.table import CONFORM, VALUES, HIERARCHY


EXPLANATION = __doc__


def base(c, pid):
    for rule, mod, names in CONFORM.get(pid, ()):
        for n in names.split():
            c.part(conforms, rule, mod + '.' + n)
    if VALUES.get(pid):
        values(c, 'constant', *VALUES[pid])
    if HIERARCHY.get(pid):
        hierarchy(c, 'derivation', *HIERARCHY[pid])
