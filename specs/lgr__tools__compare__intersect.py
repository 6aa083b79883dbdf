# Reference behaviour of lgr.tools.compare.intersect (parsed by the checks, never executed).
from __future__ import unicode_literals
import copy
import logging
from collections import OrderedDict
from datetime import date
from lgr.tools.compare.utils import compare_objects, latest_unicode_version
from lgr.char import CharBase
from lgr.core import LGR
from lgr.metadata import Metadata, Version, Description, ReferenceManager
from lgr.utils import let_user_choose


def intersect_version(first, second):
    if first is None:
        return second
    if second is None:
        return first
    value = let_user_choose(first.value, second.value)
    comment = let_user_choose(first.comment, second.comment)
    return Version(value, comment)


def intersect_description(first, second):
    if first is None:
        return second
    if second is None:
        return first
    if first.description_type == second.description_type:
        value = let_user_choose(first.value, second.value)
        description_type = first.description_type
    else:
        description_type = 'text/enriched'
        value = "\nOriginal MIME-type for first description: '{0}'.\n{1}\n\n----\n\nOriginal MIME-type for second description: '{2}'.\n{3}\n".format(first.description_type, first.value, second.description_type, second.value)
    return Description(value, description_type)


def intersect_metadata(first, second):
    output = Metadata()
    output.version = intersect_version(first.version, second.version)
    output.description = intersect_description(first.description, second.description)
    output.scopes = [s for s in first.scopes if s in second.scopes]
    output.languages = [lang for lang in first.languages if lang in second.languages]
    output.date = date.today().isoformat()
    output.validity_start = compare_objects(first.validity_start, second.validity_start, max)
    output.validity_end = compare_objects(first.validity_end, second.validity_end, min)
    output.unicode_version = compare_objects(first.unicode_version, second.unicode_version, latest_unicode_version)
    return output


def intersect_reference_manager(first, second):
    first_ref = OrderedDict.fromkeys((r['value'] for r in first.values()))
    second_ref = OrderedDict.fromkeys((r['value'] for r in second.values()))
    output = ReferenceManager()
    for ref in [r for r in first_ref if r in second_ref]:
        output.add_reference(ref)
    return output


def intersect_char(lgr, first, second):
    comment = let_user_choose(first.comment, second.comment)
    tags = [t for t in first.tags if t in second.tags]
    when = first.when if first.when == second.when else None
    not_when = first.not_when if first.not_when == second.not_when else None
    lgr.add_cp(first.cp, comment=comment, tag=tags, when=when, not_when=not_when)
    variant_first = OrderedDict.fromkeys(((v.cp, v.when, v.not_when) for v in first.get_variants()))
    variant_second = OrderedDict.fromkeys(((v.cp, v.when, v.not_when) for v in second.get_variants()))
    for v in [v for v in variant_first if v in variant_second]:
        lgr.add_variant(first.cp, v[0], when=v[1], not_when=v[2])


def intersect_actions(lgr1, lgr2):
    actions = [a for a in lgr1.actions if a in lgr2.actions]
    actions_xml = [lgr1.actions_xml[lgr1.actions.index(a)] for a in actions]
    return (actions, actions_xml)


def intersect_rules(lgr1, lgr2):
    rules = []
    rules_xml = []
    for rule_name in [r for r in lgr1.rules if r in lgr2.rules]:
        rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
        rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
        if rule_1 == rule_2:
            rules_xml.append(rule_1)
            rules.append(rule_name)
            continue
        rule_1 = rule_1.replace(' name="{}"'.format(rule_name), ' name="{}_1"'.format(rule_name))
        rule_2 = rule_2.replace(' name="{}"'.format(rule_name), ' name="{}_2"'.format(rule_name))
        rules_xml.append(rule_1)
        rules_xml.append(rule_2)
        rules.append(rule_name + '_1')
        rules.append(rule_name + '_2')
    return (rules, rules_xml)


def intersect_classes(lgr1, lgr2):
    classes = []
    classes_xml = []
    for class_name in [c for c in lgr1.classes if c in lgr2.classes]:
        class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
        class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
        if class_1 == class_2:
            classes_xml.append(class_1)
            classes.append(class_name)
            continue
        class_1 = class_1.replace(' name="{}"'.format(class_name), ' name="{}_1"'.format(class_name))
        class_2 = class_2.replace(' name="{}"'.format(class_name), ' name="{}_2"'.format(class_name))
        classes_xml.append(class_1)
        classes_xml.append(class_2)
        classes.append(class_name + '_1')
        classes.append(class_name + '_2')
    return (classes, classes_xml)


def intersect_lgrs(lgr1, lgr2):
    name = 'Intersection of %s and %s' % (lgr1.name, lgr2.name)
    lgr1.expand_ranges()
    lgr2.expand_ranges()
    metadata = copy.deepcopy(intersect_metadata(lgr1.metadata, lgr2.metadata))
    lgr = LGR(name=name, metadata=metadata)
    references = intersect_reference_manager(lgr1.reference_manager, lgr2.reference_manager)
    lgr.reference_manager = references
    first_cps = {c.cp for c in lgr1.repertoire}
    second_cps = {c.cp for c in lgr2.repertoire}
    for cp in set.intersection(first_cps, second_cps):
        char1 = lgr1.get_char(cp)
        char2 = lgr2.get_char(cp)
        intersect_char(lgr, char1, char2)
    actions, actions_xml = intersect_actions(lgr1, lgr2)
    lgr.actions = copy.deepcopy(actions)
    lgr.actions_xml = actions_xml
    rules, rules_xml = intersect_rules(lgr1, lgr2)
    lgr.rules = copy.deepcopy(rules)
    lgr.rules_xml = rules_xml
    classes, classes_xml = intersect_classes(lgr1, lgr2)
    lgr.classes = copy.deepcopy(classes)
    lgr.classes_xml = classes_xml
    return lgr
