#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the texts below and from rules/table.py (anchors)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rules import table  # noqa

I, H, P, F, C = 'inputs', 'histories', 'programs', 'fault_sequences', 'configurations'
PROPS = [
 ('C01', 'Context rules gate every use of a code point or variant', [I],
  'A code point, sequence or variant that has a "when" rule is accepted at a position of a label only if that rule matches there, and one that has a "not-when" rule only if it does not match there. '
  'This gate applies at every place that accepts one: the eligibility test of a label, the check of a label disposition, the enumeration of variant labels, the partitioning of a label. '
  'The position handed to the rule is the offset of the tested code point in the label that is really being tested.',
  'every label, position, repertoire with when/not-when rules on code points, sequences, reflexive and ordinary variants',
  'Tests use a few short labels with one rule; a gate missing on one path, or given the wrong offset or label, shows only with sequences, repeated code points or variants of different length.'),
 ('C02', 'The first matching action decides the disposition of a label', [I],
  'Actions are tried in the order of the LGR followed by the default actions; the first whose match/not-match rule and any-/all-/only-variant conditions all hold gives the disposition and is the one reported; a label no action matches is valid, one out of the repertoire is invalid. '
  'The any-variant, all-variants and only-variants conditions are evaluated over the dispositions of the variants really used in the label, reflexive mappings included. '
  'An action with no match rule and no variant condition applies to every label.',
  'every list of actions, label, and combination of variant types',
  'The number of combinations of actions, conditions and variant types is unbounded; tests fix a handful of single-action LGRs.'),
 ('C03', 'The eligibility verdict of a label is the one its parts and actions give', [I],
  'A label is read from left to right; at each place the longest code point, range or sequence of the repertoire that matches there and whose context rules hold is taken, and one whose context rules fail does not hide a shorter one. '
  'The label is eligible exactly when this covers it without gap or overlap and its disposition by the actions is not "invalid"; otherwise the verdict is negative and names each code point not in the repertoire and the rules that failed at each place. '
  'The result carries the parts, the disposition, the index of the action and the log of that label.',
  'every label and repertoire with overlapping sequences, ranges and context rules',
  'Tests sample labels; splits where prefixes overlap and some have failing context rules are combinatorial.'),
 ('C04', 'Variant enumeration is complete, duplicate free and correctly labelled', [I],
  'Computing the dispositions of the variants of a label yields every combination of permitted variants of its parts, each with the disposition, the action and the log that belong to it, each label once unless its parts are asked for as well, and the label itself exactly once and last. '
  'Invalid variants are left out unless asked for, mixed-script variants are left out when asked for, and a label longer than the protocol limit is refused. '
  'The estimate of the number of variants is the product, over the parts of the label, of the number of other variants plus one; the summary counts the dispositions of what the enumeration yields.',
  'every label, repertoire with variants of any length, option combination',
  'The set of variants is a product over code points; tests compare a few enumerations.'),
 ('C05', 'The rule log of a label test is attached and detached in pairs', [I, F],
  'Whenever a label test asks for the log of rules, the collecting handler is detached from the rule logger on every way out: normal return, exception from a rule or action, or a generator closed or abandoned early. '
  'The log returned with a result is the one collected for that label alone. '
  'The level of the rule logger is the one it had before.',
  'every exit of a label test, including exceptions at any call',
  'Tests do not raise in the middle of a label test nor close the generator early.'),
 ('C06', 'Calls, names and messages of the library and its tools fit together', [P],
  'Every call inside the library and its command-line tools passes arguments its callee accepts, every name, import and attribute used exists, every unpacked result has as many parts as are unpacked, and every message is given as many values as it has placeholders. '
  'This holds on every path, also on those that report errors. '
  'So no option or error path of a tool ends with a TypeError, NameError, AttributeError or ValueError of its own making.',
  'every call site, message and name of the tree, whatever path reaches it',
  'Python checks none of this before the line runs, and tests do not run the error branches and most tools.'),
 ('C07', 'A rule or matcher accepts exactly the labels its XML definition describes', [I, P],
  'The pattern made from a rule is the concatenation, choice, repetition, anchor, look-ahead, look-behind, class or code point its elements describe, in their order, with their counts, and grouping so that a count or a choice applies to the whole element. '
  'A context rule is tested with its anchor at the tested position, a whole-label rule against the whole label, and a rule used by reference stands for the pattern of the rule it names. '
  'Rules without an anchor do not depend on the position.',
  'every tree of rule elements, label and anchor position',
  'Rule trees are unbounded; tests have one rule per element type.'),
 ('C08', 'Set operations between classes have their set meaning', [I],
  'A class contains its listed code points, those with its tag, or those with its Unicode property, and the complement, union, intersection, difference and symmetric difference of classes contain what set algebra says. '
  'Operands are taken in their order of definition, classes used by reference stand for the class they name. '
  'Inverting a class inside a rule complements exactly that class.',
  'every tree of class operators over every repertoire',
  'Operator trees are unbounded; tests evaluate a few flat ones.'),
 ('C09', 'Invalid rules, classes and actions are refused with the right reason', [I, P],
  'A rule, class or action is refused at its admission when it is structurally invalid: a reference to a rule or class that is not defined, an operator with too few or too many children, a look-around outside an anchored rule, a choice without alternative, an action naming an unknown rule. '
  'A valid one is never refused, and force lets an invalid one in only with its error reported. '
  'Nested elements are validated as deep as they go.',
  'every rule, class and action tree',
  'Each structural fault can sit at any depth of any tree; tests have one instance of some.'),
 ('C10', 'The class of a tag holds exactly the code points that carry the tag', [H],
  'After any sequence of additions, deletions, range insertions, range expansions, range deletions and tag deletions, the implicit class of each tag contains exactly the code points of the repertoire that carry the tag. '
  'A tag no code point carries any more does not select code points in rules. '
  'A tag cannot be put on a sequence.',
  'every sequence of edits of the repertoire',
  'Tests check single edits; the property is about histories of edits.'),
 ('C11', 'Code points, ranges and variants are found wherever they were stored', [I, H],
  'A code point, a sequence or a range that was added, and not deleted since, is found by lookup, membership test, iteration, length and prefix search, including each code point inside a range, in code point order; nothing else is found. '
  'Deleting one removes exactly it, and deleting what is not there is an error. '
  'Each code point has the variants added to it and no other; a range has none.',
  'every history of additions and deletions, every code point in or next to a range',
  'The lookup structure is keyed by first code point; tests sample few positions in ranges and few sequences sharing a prefix.'),
 ('C12', 'Only code points that satisfy the declared constraints enter the repertoire', [I],
  'A code point, sequence, range or variant is admitted only if it is a valid IDNA2008 code point, in the validating repertoire where one is given, not already present or overlapping a range, with context rules used consistently; otherwise the documented exception is raised. '
  'Force skips only the checks it is documented to skip. '
  'The same checks apply to single code points, ranges, lists of code points and variants.',
  'every code point, sequence and range, constraint configuration and entry point',
  'Combinations of entry point, constraint and input kind are not enumerated by tests.'),
 ('C13', 'A refused edit leaves the LGR as it was', [I, F],
  'When the addition or the deletion of a code point, range, variant, tag, reference, rule, class, action or metadata value is refused with an exception, the LGR is unchanged: nothing of the refused edit was stored. '
  'This holds also when the refusal comes from a later part of a multi-part edit such as a range. '
  'A later identical lookup answers as before the attempt.',
  'every edit call and every point where it can be refused',
  'Tests check that the exception is raised, not what was stored before it was.'),
 ('C14', 'References are unique, resolvable and never left dangling', [H],
  'Reference ids are unique and well formed, a generated id is one not in use, and a lookup, update or deletion accepts the integer and the string form of an id alike. '
  'Deleting a reference removes it from every code point, range and variant that cites it and from nothing else, and deleting or updating an unknown one is an error that changes nothing. '
  'Updating a reference keeps its id.',
  'every history of reference additions, updates and deletions',
  'Tests do few operations on few references; collisions between explicit and generated ids need histories.'),
 ('C15', 'Reading an LGR file puts every element and attribute where it belongs', [I],
  'Reading an LGR in XML gives an LGR that holds each metadata element, reference, code point, range, sequence, variant, tag, comment, context rule, class, rule and action of the file with its attributes, in the order of the file. '
  'Missing optional elements and attributes get their documented default. '
  'Elements are attached to the element that contains them, and code points, sequences and lists in attributes are read as hexadecimal values.',
  'every LGR document of the RFC 7940 vocabulary',
  'The vocabulary combined with optional attributes gives far more documents than the sample files have.'),
 ('C16', 'Writing an LGR to XML loses nothing and keeps its order', [I],
  'The XML written for an LGR contains every metadata value, reference, code point, range, sequence, variant, tag, comment, context rule, reference citation, class, rule and action of the LGR under the element and attribute RFC 7940 gives it, in repertoire and definition order. '
  'Values that are not set are not written, code points are written in hexadecimal of at least four digits, and every element and attribute written is one the reader reads. '
  'Writing does not change the LGR.',
  'every LGR that can be built through the API or read from a file',
  'Round trips in tests cover a few sample files, not every optional attribute on every element.'),
 ('C17', 'Reading untrusted files runs no code and reaches nothing outside them', [I, C],
  'Reading an LGR or label file resolves no external entity, fetches nothing from the network, loads no DTD, and evaluates no text of the file as code or serialized object. '
  'Text of a file that ends up in a regular expression comes only from code points and rule elements that were converted, not from raw text. '
  'The only files opened are those the caller names.',
  'every input file and every parser entry point',
  'Tests read benign files; the absence of a dangerous call or option must hold on all paths.'),
 ('C18', 'Text formats are read line by line into the right code points and variants', [I],
  'Reading RFC 4290, RFC 3743 and one-per-line files yields exactly the code points, variants, variant types, references, comments and metadata that their lines state; comment and blank lines are ignored and an invalid line affects no other line. '
  'The heuristic reader picks the format the content has, leaves the input at its start for the reader it picks, and hands on its settings. '
  'The LGR built has the Unicode database and the name given to the reader.',
  'every text file in these formats',
  'Sample files exercise one layout per format.'),
 ('C19', 'Force lets invalid content through, reported; without it parsing stops', [I, F, C],
  'Without force, the first invalid element of a file (code point, variant, reference, date, language, rule, class, action) stops the reading with the library\'s own exception. '
  'With force, it is reported to the log or to the RFC 7940 check log and reading goes on with the next element, keeping everything valid. '
  'The policy is the same for every kind of element and never depends on what came earlier in the file. This is said of files of the form the format prescribes: '
  'a mandatory attribute that is missing, or a number that is none, stops the reading in either mode.',
  'every kind of invalid element, at every place, with force on and off',
  'Tests put one invalid element into a file; the pairs of element and policy are not enumerated.'),
 ('C20', 'Checking, querying, comparing and reporting do not change their LGRs', [I, H],
  'Testing a label, computing variants, generating an index label, validating, diffing, annotating, reviewing, listing statistics or serialising an LGR leaves every LGR passed to it, and the state of the library modules, unchanged. '
  'Only the expansion of ranges before a comparison, memoised patterns and the RFC 7940 check log may be written. '
  'So the same call on the same LGR gives the same answer whatever was asked before.',
  'every query and report call and everything it calls, in any sequence',
  'Tests run each query once on a fresh LGR; a hidden write shows only in a later call.'),
 ('C21', 'The RFC 7940 check log records each test once with its true outcome', [I],
  'Each RFC 7940 test the library performs is recorded as tested, and as failed exactly when the condition of the test fails, whatever the other tests found. '
  'A test that was not performed is not recorded as passed, and the final verdict is positive only if no mandatory test failed. '
  'Checks report what they find and never raise on an LGR that lacks metadata, version or Unicode data.',
  'every LGR and parser setting',
  'Each test of the log has a pass, a fail and a not-applicable case; their combinations are not sampled.'),
 ('C22', 'Symmetry and transitivity are checked and completed exactly', [I],
  'The symmetry check reports every variant without a reverse mapping and the transitivity check every pair of variants of one code point not mapped to one another; both accept exactly the LGRs that are closed. '
  'Populating adds the missing mappings until the variant sets are symmetric and transitive, with the requested type for what it adds, and leaves existing mappings unchanged. '
  'Variants that are out of the repertoire are reported.',
  'every variant graph',
  'Closure is a property of graphs; tests have three or four nodes.'),
 ('C23', 'Union and intersection keep what both sides have and resolve conflicts', [I],
  'The union of two LGRs has the code points, variants, tags, references, languages, scopes, rules, classes and actions of either; the intersection those of both; in the order they have in the first LGR, then the second. '
  'Rules and classes of the same name and different content are both kept under distinct names in a union, and metadata values that differ are combined in the documented direction (latest validity start and Unicode version, earliest end). '
  'Neither operand supplies objects shared with the result.',
  'every pair of LGRs',
  'Tests combine two small LGRs; conflicts in each component are not enumerated.'),
 ('C24', 'Merging an LGR set keeps scripts apart and variants closed', [I],
  'The merge of an LGR set holds the code points of every LGR; references, rules, classes, actions and tags are renamed with the script they come from, and every use of a renamed item in a code point, variant, rule, class or action is renamed alike. '
  'Code points shared by several scripts get the union of tags, references and variants, and the blocked variants needed to keep transitivity; variants of the merge are blocked. '
  'Context rules of different names on a shared code point are refused, those of the same name are put under the name of both scripts, never silently dropped.',
  'every set of LGRs',
  'Renaming must be consistent between all places that use a name; tests merge a few sample files.'),
 ('C25', 'A comparison of two LGRs reports each difference and nothing else', [I],
  'Comparing two LGRs reports every difference in metadata, references, code points, ranges, variants, tags, context rules, classes, rules and actions, names the side it is on, and reports nothing for what is equal. '
  'Ranges are compared by the code points they hold. '
  'In LGR sets the LGRs of the same script are compared with one another and scripts present on one side only are listed.',
  'every pair of LGRs or LGR sets',
  'Each attribute of each element is a possible difference; tests try some.'),
 ('C26', 'Harmonizing makes two LGRs agree without touching their repertoires', [I],
  'Harmonizing two LGRs (optionally with a Root Zone LGR) returns copies in which the variants each has between shared code points exist in both, and each is symmetric and transitive; the originals and their repertoires are unchanged. '
  'Added variants are of the requested type, existing ones keep theirs, and code points outside a repertoire are reported. '
  'The version of a harmonized LGR is marked.',
  'every pair of LGRs and Root Zone LGR',
  'Tests harmonize small examples; interactions of variants across the three LGRs are graph shaped.'),
 ('C27', 'Collision reports list exactly the labels that share an index', [I],
  'The index of a label is the smallest label its variant mappings can reach over every split into code points and sequences, computed the same for labels, TLDs and cached entries. '
  'A collision report lists each pair of labels with the same index once per list the labels come from (the labels given, the TLDs), and the variants, dispositions and differences between two LGRs it prints belong to the labels they are printed with. '
  'Labels out of the repertoire are listed as such and collide with nothing.',
  'every list of labels, TLDs and pair of LGRs',
  'Tests use a few labels; grouping errors need several colliding labels, caches and TLDs together.'),
 ('C28', 'Annotation prints, for every input label, the verdict the LGR gives', [I],
  'Annotating a list of labels prints one line per label of the input, in order, with the disposition, the action and the reason that testing the label gives, for a single LGR as for an LGR set. '
  'For a set, the label is tested against the script\'s LGR and checked for collisions with the allocated set labels through the merged LGR. '
  'A label that cannot be read or is out of the repertoire is printed with its error and does not stop the others.',
  'every label file, LGR and LGR set',
  'Tests annotate a few labels.'),
 ('C29', 'Equality and hash of library objects agree', [I],
  'Two equal code points, variants, actions, scopes, versions or descriptions hash alike, and equality compares every attribute that distinguishes them and nothing mutable that their hash depends on changes while they sit in a set or map of the library. '
  'Equality with an object of another type is false, not an error. '
  'Membership tests of code points, variants and actions therefore agree with equality.',
  'every pair of objects',
  'Tests compare few pairs; an attribute left out of one of the two methods shows only for the pair that differs there alone.'),
 ('C30', 'A remembered result is used only for the question it answered', [H],
  'A pattern, script list or index kept for reuse is used only when everything it was computed from is the same, so that an LGR that is edited after a first answer gives the answer of the edited LGR. '
  'A result computed for one rule, LGR or label is never returned for another. '
  'An edit of metadata or repertoire that changes the answer makes the remembered one unused.',
  'every history of questions and edits',
  'Tests ask once, on an LGR that is not edited afterwards.'),
 ('C31', 'Outputs do not depend on the hash seed of the process', [I, C],
  'The LGRs produced by combining, merging, harmonizing and reading, the XML written and the reports printed are the same, in the same order, in every run. '
  'Nothing ordered is produced from the iteration order of a set of strings or objects. '
  'Generated ids and names do not vary either.',
  'every run of the same operation on the same input',
  'A test process has one hash seed, and most sets in tests have one or two members.'),
 ('C32', 'The IDN table review gives each item the result the review rules define', [I],
  'The review of an IDN table against a reference LGR gives each code point, variant, class, rule, action, language tag and label check the result (match, subset, note, manual check, review) and remark that the rules of the review define for the pair, and compares forward with forward and reverse with reverse mappings. '
  'The summary counts each result of each report once and its overall result is the worst one. '
  'A code point out of the IDNA2008 repertoire is reported by the compliance check.',
  'every IDN table and reference LGR',
  'The result tables have many rows; tests cover a selection.'),
 ('C33', 'An LGR that is copied or pickled answers like the original', [I, H],
  'Copying or pickling an LGR keeps its name, metadata, references, repertoire, rules, classes, actions and settings, and the copy shares no mutable state with the original. '
  'Only what cannot be serialized, such as the Unicode database, is left out and can be set again. '
  'Setting the Unicode database of an LGR hands it to everything that uses it.',
  'every LGR and order of edits after copying',
  'Tests pickle an empty or small LGR.'),
 ('C34', 'Metadata accepts only valid dates, scopes, languages and versions', [I],
  'Dates are ISO 8601 calendar dates, a validity start is not after the validity end, a language is a well-formed BCP 47 tag that is not present yet, a scope has a known type and a Unicode version is of the database in use; anything else is refused with the documented exception unless forced. '
  'A value that is accepted is stored as given, in order. '
  'The scripts of the languages follow the current list of languages.',
  'every string or value, with force on and off',
  'Tests try a few valid and invalid values.'),
 ('C35', 'Validation runs every check and reports what each found', [I],
  'Validating an LGR runs each check exactly once with the options given, in a fixed order, collects the output of each, and one failing check does not prevent the others. '
  'Checks of conditional variants, rebuilding, XML validity and statistics report exactly the items that meet their condition. '
  'Statistics count code points, sequences, ranges, variants by type and tags of the repertoire as it is, without expanding it.',
  'every LGR and options',
  'Tests check the output on a few LGRs.'),
 ('C36', 'Code points and labels are formatted and parsed without loss', [I],
  'Formatting a code point, sequence or label and reading it back gives the same code points; collapsing a list of code points into ranges covers exactly the list. '
  'A label is read from its U-label, A-label or "U+XXXX" form, with comments stripped, as the same code points, and an invalid one is reported with the line it is on without stopping the reading. '
  'Code points are shown with at least four hexadecimal digits.',
  'every label and code point list in every notation',
  'Inputs are unbounded; tests list a few.'),
 ('C37', 'Each command-line tool hands its options to the operation they name', [C, I],
  'Each tool passes each of its options and files to the operation they are for, reads the LGRs with the checks its options ask for, writes the whole result to the output, and reports what cannot be read instead of going on with it. '
  'Several LGR files given as a set are merged and the LGR of the requested script is used. '
  'A tool writes no file other than the one it is asked to write.',
  'every tool, option combination and input file',
  'The tools have hardly any tests.'),
 ('C40', 'Labels have the same index exactly when they are variants of one another', [I],
  'Two labels of an LGR whose variants are symmetric and transitive have the same index label if and only if one is a variant of the other.',
  'every pair of labels and closed LGR', 'It quantifies over all pairs of labels and variant graphs.'),
 ('C41', 'Writing and reading back an LGR gives an equal LGR', [I],
  'Serialising an LGR and parsing the result gives an LGR that is equal in every component and gives every label the same verdict.',
  'every LGR', 'Round trips in tests use a few files.'),
 ('C42', 'The estimate bounds the number of variants enumerated', [I],
  'The estimated number of variants of a label is never less than the number of variants the enumeration yields.',
  'every label and LGR', 'Needs all labels of all LGRs.'),
 ('C43', 'Label tests end within reasonable time', [I],
  'Testing a label of protocol length, computing its index and enumerating its variants lazily end, and the matching of a rule does not take time exponential in the length of the label.',
  'every rule, label and LGR', 'Running time on adversarial rules is not sampled.'),
]
NA = {
 'C40': 'needs the equivalence of two unbounded computations (closure of a variant relation over all splits of a label against the minimum of the index recursion) for runtime repertoires; no sound static argument in reach. Its decidable parts are C27 and C22.',
 'C41': 'equality of parse(serialise(x)) with x ranges over runtime objects and lxml; static analysis decides the two halves separately (C15, C16, and the agreement of their vocabularies in C16), not their composition.',
 'C42': 'relates two runtime quantities (a product of list lengths, and the count of distinct labels after filtering) for all repertoires; not bounded by a static argument. How each is computed is decided in C04.',
 'C43': 'termination and running time depend on runtime rules and the backtracking of the re engine; no static bound in reach.',
}
EXTRA_FILES = {
 'C01': ['lgr/core.py', 'lgr/char.py'], 'C06': ['lgr', 'tools'], 'C13': ['lgr/core.py', 'lgr/char.py', 'lgr/metadata.py', 'lgr/rule.py', 'lgr/classes.py', 'lgr/matcher.py'],
 'C17': ['lgr/parser/xml_parser.py', 'lgr'], 'C20': ['lgr/core.py', 'lgr/validate', 'lgr/tools'], 'C31': ['lgr', 'tools'],
 'C40': ['lgr/core.py'], 'C41': ['lgr/parser/xml_parser.py', 'lgr/parser/xml_serializer.py'], 'C42': ['lgr/core.py'], 'C43': ['lgr/core.py', 'lgr/rule.py'],
}
SPECIAL = {
 'C01': ('dataflow: context gates, offsets and labels at every acceptance point', 'dataflow over the admission sites: every accepted code point or variant is dominated by a call of the context test with the position and label it is used at'),
 'C05': ('typestate analysis of the rule-log handler over all exits', 'typestate over the control-flow graph with exception edges: attach/detach paired on every exit'),
 'C06': ('interprocedural interface checking over the syntax tree', 'every call, import, attribute, unpacking and format string resolved against its definition'),
 'C13': ('effect ordering: no store before a possible refusal', 'path-sensitive effect order with inlined callees: no store to the LGR precedes a statement that can raise'),
 'C16': ('vocabulary agreement between writer and reader, guarded-effect comparison', 'every element and attribute name the writer hands to the XML library is in the vocabulary of the reader'),
 'C17': ('taint and forbidden-call lint', 'options of every XML parser construction, absence of eval/exec/pickle/yaml/subprocess calls, sources of compiled patterns'),
 'C19': ('exception-handler policy analysis', 'each handler of a refusal in the readers re-raises without force and reports and continues with it'),
 'C20': ('interprocedural purity (mutation) analysis', 'aliasing-aware mutation summaries, from every query and report entry point'),
 'C30': ('cache-key completeness analysis', 'everything a memoised function reads must be part of its key by content'),
 'C31': ('set-iteration-order lint over inferred set types', 'set-typed expressions are inferred, every order-sensitive use is reported'),
 
}


def anchors(pid):
    files, mech = [], []
    for rule, mod, names in table.CONFORM.get(pid, []):
        path = mod.replace('.', '/') + '.py'
        if not os.path.exists(os.path.join('/repo', path)):
            path = mod.replace('.', '/') + '/__init__.py'
        if path not in files:
            files.append(path)
        mech.append({'name': rule + ': ' + names, 'where': path})
    for x in EXTRA_FILES.get(pid, []):
        if x not in files:
            files.append(x)
    if not mech:
        mech = [{'name': 'whole component', 'where': f} for f in files]
    return {'files': files, 'mechanism': mech}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as fh:
        for pid, title, over, st, q, why in PROPS:
            assert len(title) <= 80, (pid, len(title))
            fh.write(json.dumps({'id': pid, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q},
                                 'why_tests_cant': why, 'anchors': anchors(pid)}, ensure_ascii=False) + '\n')
    checks = []
    for pid, *_ in PROPS:
        if pid in NA:
            continue
        tech = []
        if pid in SPECIAL:
            tech.append(SPECIAL[pid][0])
        if pid in table.CONFORM:
            tech.append('guarded-effect comparison of each function\'s normalised summary with its specification')
        checks.append({
            'property': pid, 'quick_cmd': 'python3 check.py %s' % pid, 'thorough_cmd': 'python3 check.py %s thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid, 'technique': '; '.join(tech), 'level': 'other',
            'level_note': 'Static: nothing is executed. ' + (SPECIAL[pid][1] + '. ' if pid in SPECIAL and SPECIAL[pid][1] else '') +
            ('Each listed function of the current tree is abstracted to the set of its guarded effects, results and refusals and compared, '
             'after normalisation and inlining of helpers, with the specification in specs/, which was reviewed against RFC 7940 and the documentation. '
             if pid in table.CONFORM else '') +
            'Trusts the Python parser, the engine in sa/ and, where a specification is used, that specification; reflection and monkey patching are not modelled.'})
    man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa rules check.py', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
           'notes': 'All checks are static: they parse /repo and never import or run it. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
        json.dump(man, fh, indent=1, ensure_ascii=False)
        fh.write('\n')


main()
