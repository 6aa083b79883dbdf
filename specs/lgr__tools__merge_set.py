# Reference behaviour of lgr.tools.merge_set (parsed by the checks, never executed).
from __future__ import unicode_literals
import copy
import logging
import re
from datetime import date
from io import BytesIO
from collections import OrderedDict
from lgr.exceptions import LGRFormatException, CharInvalidContextRule, VariantAlreadyExists
from lgr.core import LGR, DEFAULT_ACTIONS
from lgr.metadata import Metadata, Version, Description
from lgr.tools.compare.utils import compare_objects, latest_unicode_version
from lgr.parser.xml_parser import XMLParser
from lgr.parser.xml_serializer import serialize_lgr_xml
from lgr.utils import let_user_choose
MSR_2_RULES = ['leading-combining-mark']
MSR_NEGATIVE_LOOK_AHEAD = '(?!' + '|'.join(MSR_2_RULES) + ')'


def get_script(lgr):
    try:
        return lgr.metadata.languages[0]
    except IndexError:
        return ''


def merge_version(lgr_set):
    values = OrderedDict()
    comments = OrderedDict()
    for version in [lgr.metadata.version for lgr in lgr_set]:
        if not version:
            continue
        if version.value:
            values.update(OrderedDict.fromkeys([version.value]))
        if version.comment:
            comments.update(OrderedDict.fromkeys([version.comment]))
    return Version('|'.join(values.keys()), '|'.join(comments.keys()))


def merge_description(lgr_set):
    values = []
    all_html = True
    for lgr in lgr_set:
        description = lgr.metadata.description
        script = get_script(lgr)
        if description:
            values.append((script, description))
            all_html &= description.description_type == 'text/html'
    description_type = 'text/plain'
    if all_html:
        template = '{value}'
        join_prefix = ''
        description_type = 'text/html'
    else:
        template = "\nScript: '{script}' - MIME-type: '{type}':\n{value}\n"
        join_prefix = '----\n'
    merged_description = join_prefix.join([template.format(script=d[0], type=d[1].description_type, value=d[1].value) for d in values])
    return Description(merged_description, description_type)


def merge_metadata(lgr_set):
    output = Metadata()
    output.version = merge_version(lgr_set)
    output.description = merge_description(lgr_set)
    scopes = OrderedDict()
    languages = OrderedDict()
    for metadata in [lgr.metadata for lgr in lgr_set]:
        scopes.update(OrderedDict.fromkeys(metadata.scopes))
        languages.update(OrderedDict.fromkeys(metadata.languages))
        output.validity_start = compare_objects(output.validity_start, metadata.validity_start, max)
        output.validity_end = compare_objects(output.validity_end, metadata.validity_end, min)
        output.unicode_version = compare_objects(output.unicode_version, metadata.unicode_version, latest_unicode_version)
    output.scopes = list(scopes.keys())
    output.languages = list(languages.keys())
    output.date = date.today().isoformat()
    return output


def merge_references(lgr, script, merged_lgr, ref_mapping):
    ref_mapping.setdefault(script, OrderedDict())
    if lgr.reference_manager:
        inserted_references = {x['value']: ref_id for ref_id, x in merged_lgr.reference_manager.items()}
        for ref_id, ref_dict in lgr.reference_manager.items():
            ref = ref_dict['value']
            if ref not in inserted_references:
                if ref_id not in merged_lgr.reference_manager.keys():
                    merged_lgr.reference_manager.add_reference(ref, ref_id=ref_id, comment=ref_dict.get('comment'))
                else:
                    new_id = merged_lgr.add_reference(ref, comment=ref_dict.get('comment'))
                    ref_mapping[script][ref_id] = new_id
            elif ref_id != inserted_references[ref]:
                ref_mapping[script][ref_id] = inserted_references[ref]


def rename_action(action, action_xml, script):
    new_action = copy.deepcopy(action)
    if action.match:
        if action.match not in MSR_2_RULES:
            new_action.match = script + '-' + action.match
        else:
            new_action.match = 'Common-' + action.match
        action_xml = action_xml.replace(' match="{}"'.format(action.match), ' match="{}"'.format(new_action.match))
    if action.not_match:
        if action.not_match not in MSR_2_RULES:
            new_action.not_match = script + '-' + action.not_match
        else:
            new_action.not_match = 'Common-' + action.not_match
        action_xml = action_xml.replace(' not-match="{}"'.format(action.not_match), ' not-match="{}"'.format(new_action.not_match))
    return (new_action, action_xml)


def merge_actions(lgr, script, merged_lgr, ref_mapping):
    for idx in range(len(lgr.actions)):
        action = lgr.actions[idx]
        action_xml = lgr.actions_xml[idx]
        if action in DEFAULT_ACTIONS:
            continue
        merged_action, merged_action_xml = rename_action(action, action_xml, script)
        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in action.references]
        merged_action.references = new_ref
        merged_action_xml = re.sub('(?<!by-)ref="([^"]+)"', 'ref="{}"'.format(' '.join(new_ref)), merged_action_xml)
        merged_lgr.actions.append(merged_action)
        merged_lgr.actions_xml.append(merged_action_xml)


def rename_rule(rule, rule_xml, script):
    if rule.name not in MSR_2_RULES:
        new_rule_name = script + '-' + rule.name
        rule_xml = re.sub('name="' + rule.name + '"', 'name="{}-{}"'.format(script, rule.name), rule_xml)
    else:
        new_rule_name = 'Common-' + rule.name
    rule_xml = re.sub('name="' + rule.name + '"', 'name="' + new_rule_name + '"', rule_xml)
    rule_xml = re.sub('by-ref="' + MSR_NEGATIVE_LOOK_AHEAD + '([^"]+)"', 'by-ref="{}-\\1"'.format(script), rule_xml)
    rule_xml = re.sub('by-ref="(' + '|'.join(MSR_2_RULES) + ')"', 'by-ref="Common-\\1"'.format(script), rule_xml)
    rule_xml = re.sub('from-tag="([^:"]+)"', 'from-tag="{}-\\1"'.format(script), rule_xml)
    return (new_rule_name, rule_xml)


def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
    for rule in lgr.rules_lookup.values():
        if specific and rule.name != specific:
            continue
        rule_xml = lgr.rules_xml[lgr.rules.index(rule.name)]
        merged_rule_name, merged_rule_xml = rename_rule(rule, rule_xml, script)
        if merged_rule_name in merged_lgr.rules:
            continue
        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in rule.references]
        merged_rule_xml = re.sub('(?<!by-)ref="([^"]+)"', 'ref="{}"'.format(' '.join(new_ref)), merged_rule_xml)
        merged_lgr.rules.append(merged_rule_name)
        merged_lgr.rules_xml.append(merged_rule_xml)


def rename_class(classe, class_xml, script):
    new_class_name = script + '-' + classe.name
    class_xml = re.sub('name="([^:"]+)"', 'name="{}-\\1"'.format(script), class_xml)
    class_xml = re.sub('by-ref="([^"]+)"', 'by-ref="{}-\\1"'.format(script), class_xml)
    class_xml = re.sub('from-tag="([^:"]+)"', 'from-tag="{}-\\1"'.format(script), class_xml)
    return (new_class_name, class_xml)


def merge_classes(lgr, script, merged_lgr, ref_mapping):
    for class_name, classe in lgr.classes_lookup.items():
        if class_name not in lgr.classes:
            continue
        class_xml = lgr.classes_xml[lgr.classes.index(classe.name)]
        merged_class_name, merged_class_xml = rename_class(classe, class_xml, script)
        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in classe.references]
        merged_class_xml = re.sub('(?<!by-)ref="([^"]+)"', 'ref="{}"'.format(' '.join(new_ref)), merged_class_xml)
        merged_lgr.classes.append(merged_class_name)
        merged_lgr.classes_xml.append(merged_class_xml)


def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
    new_variants = []
    merged_chars = {char: char for char in merged_lgr.repertoire}
    for char in lgr.repertoire:
        if len(char.cp) == 1 and lgr.unicode_database is not None:
            script_extensions = lgr.unicode_database.get_script_extensions(char.cp[0])
        else:
            script_extensions = []
        new_tags = sorted(set((script + '-' + x if ':' not in x else x for x in char.tags)) | set(script_extensions))
        existing_char = None
        if char in merged_chars:
            existing_char = merged_chars[char]
        if existing_char:
            existing_char.comment = let_user_choose(existing_char.comment, char.comment)
            existing_char.tags = sorted(set.union(set(existing_char.tags), set(new_tags)))
            new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
            existing_char.references = existing_char.references + [x for x in new_ref if x not in existing_char.references]
            char_variants = list(char.get_variants())
            existing_variants = list(existing_char.get_variants())
            new_v1 = [v for v in char_variants if v not in existing_variants and v.cp != existing_char.cp]
            new_v2 = [v for v in existing_variants if v not in char_variants and v.cp != existing_char.cp]
            if new_v1 and new_v2:
                new_variants.append((new_v1, new_v2))
            for v in [v for v in char_variants if v not in existing_variants]:
                new_ref = [ref_mapping[script].get(x, x) for x in v.references]
                new_when = None
                new_not_when = None
                if v.when:
                    new_when = script + '-' + v.when
                if v.not_when:
                    new_not_when = script + '-' + v.not_when
                merged_lgr.add_variant(existing_char.cp, v.cp, variant_type='blocked', when=new_when, not_when=new_not_when, comment=v.comment, ref=new_ref)
            existing_when = existing_char.when
            existing_not_when = existing_char.not_when
            for other_script in reversed(previous_scripts):
                if existing_char.when:
                    existing_when = re.sub('^{}-'.format(other_script), '', existing_when)
                if existing_char.not_when:
                    existing_not_when = re.sub('^{}-'.format(other_script), '', existing_not_when)
            if char.when:
                if not existing_when:
                    existing_char.when = script + '-' + char.when
                elif existing_when == char.when:
                    existing_char.when = script + '-' + existing_char.when
                    matching_script = re.sub('-{}$'.format(existing_when), '', existing_char.when)
                    merge_rules(lgr, matching_script, merged_lgr, ref_mapping, specific=existing_when)
                else:
                    raise CharInvalidContextRule(char.cp, char.when)
            if char.not_when:
                if not existing_not_when:
                    existing_char.not_when = script + '-' + char.not_when
                elif existing_not_when == char.not_when:
                    existing_char.not_when = script + '-' + existing_char.not_when
                    matching_script = re.sub('-{}$'.format(existing_not_when), '', existing_char.not_when)
                    merge_rules(lgr, matching_script, merged_lgr, ref_mapping, specific=existing_not_when)
                else:
                    raise CharInvalidContextRule(char.cp, char.not_when)
            continue
        when = None
        not_when = None
        if char.when:
            when = script + '-' + char.when
        if char.not_when:
            not_when = script + '-' + char.not_when
        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
        merged_lgr.add_cp(char.cp, comment=char.comment, ref=new_ref, tag=list(new_tags), when=when, not_when=not_when)
        for v in char.get_variants():
            when = None
            not_when = None
            if v.when:
                when = script + '-' + v.when
            if v.not_when:
                not_when = script + '-' + v.not_when
            new_ref = [ref_mapping[script].get(r, r) for r in v.references]
            merged_lgr.add_variant(char.cp, v.cp, variant_type='blocked', comment=v.comment, ref=new_ref, when=when, not_when=not_when)
    for var1_list, var2_list in new_variants:
        for v1 in var1_list:
            for v2 in var2_list:
                if v1.cp == v2.cp:
                    continue
                for cp, var_cp in ((v1.cp, v2.cp), (v2.cp, v1.cp)):
                    try:
                        merged_lgr.add_variant(cp, var_cp, variant_type='blocked', comment='New variant for merge to keep transitivity')
                    except VariantAlreadyExists:
                        pass


def merge_lgr_set(lgr_set, name):
    lgr_set.sort(key=lambda x: get_script(x).replace('und-', 'zzz'))
    unicode_version = OrderedDict().fromkeys((lgr.metadata.unicode_version for lgr in lgr_set))
    if len(unicode_version) > 1:
        pass
    ref_mapping = {}
    metadata = copy.deepcopy(merge_metadata(lgr_set))
    merged_lgr = LGR(name=name, metadata=metadata)
    previous_scripts = []
    for lgr in lgr_set:
        script = get_script(lgr)
        lgr.expand_ranges()
        merge_references(lgr, script, merged_lgr, ref_mapping)
        merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts)
        merge_actions(lgr, script, merged_lgr, ref_mapping)
        merge_rules(lgr, script, merged_lgr, ref_mapping)
        merge_classes(lgr, script, merged_lgr, ref_mapping)
        previous_scripts.append(script)
    merged_lgr_xml = BytesIO(serialize_lgr_xml(merged_lgr))
    lgr_parser = XMLParser(source=merged_lgr_xml, filename=name)
    return lgr_parser.parse_document()
