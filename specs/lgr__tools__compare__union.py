# Reference behaviour of lgr.tools.compare.union (parsed by the checks, never executed).
from __future__ import unicode_literals
import copy
import logging
from datetime import date
from collections import OrderedDict
from lgr.tools.compare.utils import compare_objects, latest_unicode_version
from lgr.core import LGR
from lgr.metadata import Metadata, Version, Description, ReferenceManager
from lgr.utils import let_user_choose


def union_version(first, second):
    if first is None:
        return second
    if second is None:
        return first
    if first == second:
        return first
    value = let_user_choose(first.value, second.value)
    comment = let_user_choose(first.comment, second.comment)
    return Version(value, comment)


def union_description(first, second):
    if first is None:
        return second
    if second is None:
        return first
    if first == second:
        return first
    all_html = all((d.description_type == 'text/html' for d in (first, second)))
    if all_html:
        description_type = 'text/html'
        value = '{first_value}\n{second_value}'.format(first_value=first.value, second_value=second.value)
    else:
        description_type = 'text/enriched'
        value = "\nOriginal MIME-type for first description: '{first_type}':\n{first_value}\n\n----\n\nOriginal MIME-type for second description: '{second_type}'.\n{second_value}\n".format(first_type=first.description_type, first_value=first.value, second_type=second.description_type, second_value=second.value)
    return Description(value, description_type)


def union_metadata(first, second):
    output = Metadata()
    output.version = union_version(first.version, second.version)
    output.description = union_description(first.description, second.description)
    output.scopes = list(OrderedDict.fromkeys(list(first.scopes) + list(second.scopes)))
    output.languages = list(OrderedDict.fromkeys(list(first.languages) + list(second.languages)))
    output.date = date.today().isoformat()
    output.validity_start = compare_objects(first.validity_start, second.validity_start, max)
    output.validity_end = compare_objects(first.validity_end, second.validity_end, min)
    output.unicode_version = compare_objects(first.unicode_version, second.unicode_version, latest_unicode_version)
    return output


def union_reference_manager(first, second):
    first_ref = OrderedDict.fromkeys((r['value'] for r in first.values()))
    second_ref = OrderedDict.fromkeys((r['value'] for r in second.values()))
    output = ReferenceManager()
    for ref in OrderedDict.fromkeys(list(first_ref) + list(second_ref)):
        output.add_reference(ref)
    return output


def union_char(lgr, first, second):
    comment = let_user_choose(first.comment, second.comment)
    tags = list(OrderedDict.fromkeys(list(first.tags) + list(second.tags)))
    when = first.when if first.when == second.when else None
    not_when = first.not_when if first.not_when == second.not_when else None
    lgr.add_cp(first.cp, comment=comment, tag=tags, when=when, not_when=not_when)
    for v in OrderedDict.fromkeys(list(first.get_variants()) + list(second.get_variants())):
        lgr.add_variant(first.cp, v.cp, variant_type=v.type, when=v.when, not_when=v.not_when, comment=v.comment)


def union_actions(lgr1, lgr2):
    actions = OrderedDict()
    actions_xml = OrderedDict()
    actions.update(OrderedDict.fromkeys(lgr1.actions))
    actions.update(OrderedDict.fromkeys(lgr2.actions))
    actions_xml.update(OrderedDict.fromkeys(lgr1.actions_xml))
    actions_xml.update(OrderedDict.fromkeys(lgr2.actions_xml))
    return (list(actions.keys()), list(actions_xml.keys()))


def union_rules(lgr1, lgr2):
    rules = []
    rules_xml = []
    rules_lgr1 = frozenset(lgr1.rules)
    rules_lgr2 = frozenset(lgr2.rules)
    for rule_name in [r for r in lgr1.rules if r in rules_lgr2]:
        rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
        rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
        if rule_1 == rule_2:
            rules_xml.append(rule_1)
            rules.append(rule_name)
            continue
        rule_1 = rule_1.replace(' name="{}"'.format(rule_name), ' name="{}_1"'.format(rule_name))
        rule_2 = rule_2.replace(' name="{}"'.format(rule_name), ' name="{}_2"'.format(rule_name))
        rules_xml.append(rule_1)
        rules_xml.append(rule_2)
        rules.append(rule_name + '_1')
        rules.append(rule_name + '_2')
    for rule_name in [r for r in lgr1.rules if r not in rules_lgr2]:
        rules_xml.append(lgr1.rules_xml[lgr1.rules.index(rule_name)])
        rules.append(rule_name)
    for rule_name in [r for r in lgr2.rules if r not in rules_lgr1]:
        rules_xml.append(lgr2.rules_xml[lgr2.rules.index(rule_name)])
        rules.append(rule_name)
    return (rules, rules_xml)


def union_classes(lgr1, lgr2):
    classes = []
    classes_xml = []
    classes_lgr1 = frozenset(lgr1.classes)
    classes_lgr2 = frozenset(lgr2.classes)
    for class_name in [c for c in lgr1.classes if c in classes_lgr2]:
        class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
        class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
        if class_1 == class_2:
            classes_xml.append(class_1)
            classes.append(class_name)
            continue
        class_1 = class_1.replace(' name="{}"'.format(class_name), ' name="{}_1"'.format(class_name))
        class_2 = class_2.replace(' name="{}"'.format(class_name), ' name="{}_2"'.format(class_name))
        classes_xml.append(class_1)
        classes_xml.append(class_2)
        classes.append(class_name + '_1')
        classes.append(class_name + '_2')
    for class_name in [c for c in lgr1.classes if c not in classes_lgr2]:
        classes_xml.append(lgr1.classes_xml[lgr1.classes.index(class_name)])
        classes.append(class_name)
    for class_name in [c for c in lgr2.classes if c not in classes_lgr1]:
        classes_xml.append(lgr2.classes_xml[lgr2.classes.index(class_name)])
        classes.append(class_name)
    return (classes, classes_xml)


def union_lgrs(lgr1, lgr2):
    name = 'Union of %s and %s' % (lgr1.name, lgr2.name)
    lgr1.expand_ranges()
    lgr2.expand_ranges()
    metadata = copy.deepcopy(union_metadata(lgr1.metadata, lgr2.metadata))
    lgr = LGR(name=name, metadata=metadata)
    references = union_reference_manager(lgr1.reference_manager, lgr2.reference_manager)
    lgr.reference_manager = references
    first_cps = {c.cp for c in lgr1.repertoire}
    second_cps = {c.cp for c in lgr2.repertoire}
    for cp in set.intersection(first_cps, second_cps):
        char1 = lgr1.get_char(cp)
        char2 = lgr2.get_char(cp)
        union_char(lgr, char1, char2)
    for cp in set.difference(first_cps, second_cps):
        char = lgr1.get_char(cp)
        lgr.add_cp(char.cp, comment=char.comment, tag=char.tags, when=char.when, not_when=char.not_when)
        for v in char.get_variants():
            lgr.add_variant(char.cp, v.cp, variant_type=v.type, when=v.when, not_when=v.not_when, comment=v.comment)
    for cp in set.difference(second_cps, first_cps):
        char = lgr2.get_char(cp)
        lgr.add_cp(char.cp, comment=char.comment, tag=char.tags, when=char.when, not_when=char.not_when)
        for v in char.get_variants():
            lgr.add_variant(char.cp, v.cp, variant_type=v.type, when=v.when, not_when=v.not_when, comment=v.comment)
    actions, actions_xml = union_actions(lgr1, lgr2)
    lgr.actions = copy.deepcopy(actions)
    lgr.actions_xml = actions_xml
    rules, rules_xml = union_rules(lgr1, lgr2)
    lgr.rules = rules
    lgr.rules_xml = rules_xml
    classes, classes_xml = union_classes(lgr1, lgr2)
    lgr.classes = classes
    lgr.classes_xml = classes_xml
    return lgr
