# Reference behaviour of lgr.populate (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
from lgr.exceptions import NotInLGR
from lgr.validate.symmetry import check_symmetry
from lgr.validate.transitivity import check_transitivity
from lgr.utils import format_cp


def populate_lgr(lgr):
    for a in lgr.repertoire:
        for b in a.get_variants():
            try:
                lgr.get_variants(b.cp)
            except NotInLGR:
                lgr.add_cp(b.cp)
                lgr.add_variant(b.cp, a.cp, variant_type='blocked')
    while not check_symmetry(lgr, {'ignore_rules': True})[0] or not check_transitivity(lgr, None)[0]:
        _add_symmetry(lgr)
        _add_transitivity(lgr)
    if not check_symmetry(lgr, {'ignore_rules': False})[0]:
        _add_symmetry(lgr)


def _add_symmetry(lgr):
    for a in lgr.repertoire:
        for b in a.get_variants():
            reverse = []
            for v in lgr.get_variants(b.cp):
                if a.cp == v.cp:
                    reverse.append(v)
            if not reverse:
                lgr.add_variant(b.cp, a.cp, variant_type='blocked', when=b.when, not_when=b.not_when)
                continue
            when_rule = None
            not_when_rule = None
            for r in reverse:
                if r.when:
                    when_rule = r.when
                if r.not_when:
                    not_when_rule = r.not_when
            if b.when and when_rule and (b.when != when_rule):
                pass
            elif b.when and (not when_rule):
                if not_when_rule:
                    lgr.add_variant(b.cp, a.cp, variant_type='blocked', when=b.when)
                else:
                    r = reverse[0]
                    lgr.del_variant(b.cp, r.cp)
                    lgr.add_variant(b.cp, r.cp, variant_type=r.type, when=b.when, comment=r.comment, ref=r.references)
            if b.not_when and not_when_rule and (b.not_when != not_when_rule):
                pass
            elif b.not_when and (not not_when_rule):
                if when_rule:
                    lgr.add_variant(b.cp, a.cp, variant_type='blocked', not_when=b.not_when)
                else:
                    r = reverse[0]
                    lgr.del_variant(b.cp, r.cp)
                    lgr.add_variant(b.cp, r.cp, variant_type=r.type, not_when=b.not_when, comment=r.comment, ref=r.references)


def _add_transitivity(lgr):
    for a in lgr.repertoire:
        for b in a.get_variants():
            for c in [var for var in lgr.get_variants(b.cp) if var.cp != a.cp]:
                if c.cp not in [var.cp for var in a.get_variants()]:
                    lgr.add_variant(a.cp, c.cp, variant_type='blocked')
