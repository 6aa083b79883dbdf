"""The list of checks is the same in every run: no container of the validation modules is modified in place."""
from rules import modstate

EXPLANATION = __doc__


def run(c, tier):
    modstate.run(c, only=lambda m: m.startswith('lgr.validate'))
