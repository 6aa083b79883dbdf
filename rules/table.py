"""Which functions carry which property.  {property: [(rule, module, 'names')]}; see rules/generic.py."""

CONFORM = {
    'C01': [
            ('context-gate', 'lgr.core', 'LGR._generate_label_variants LGR._generate_label_partitions'),
            ('context-match', 'lgr.rule', 'Rule.matches'),
            ('context-test', 'lgr.core', 'LGR._test_context_rules'),
            ('context-admission', 'lgr.core', 'LGR._test_preliminary_eligibility LGR._test_label_disposition LGR._get_prefix_list')],
    'C02': [
            ('variant-types', 'lgr.core', 'LGR._generate_label_variants LGR.compute_label_disposition LGR._test_eligibility'),
            ('action-test', 'lgr.action', 'Action.__init__ Action.apply'),
            ('action-order', 'lgr.core', 'LGR._apply_actions LGR.effective_actions LGR.effective_actions_xml '
                                         'LGR._test_label_disposition LGR.add_action')],
    'C03': [
            ('verdict', 'lgr.core', 'LGR._test_context_rules LGR._test_label_disposition LGR._apply_actions'),
            ('verdict', 'lgr.core', 'LGR.test_label_eligible LGR._test_eligibility LGR._test_preliminary_eligibility LGR._get_prefix_list'),
            ('prefix', 'lgr.char', 'Repertoire.get_chars_from_prefix CharBase.is_prefix_of CharBase.__len__ CharBase.as_index _to_index')],
    'C04': [
            ('enumeration', 'lgr.core', 'LGR._test_context_rules LGR._get_prefix_list'),
            ('variant-source', 'lgr.char', 'Repertoire.get_chars_from_prefix CharBase.is_prefix_of'),
            ('enumeration', 'lgr.core', 'LGR.compute_label_disposition LGR.compute_label_disposition_summary LGR._generate_label_variants'),
            ('estimate', 'lgr.core', 'LGR.estimate_variant_number'),
            ('mixed-scripts', 'lgr.mixed_scripts_variant_filter',
             'get_permitted_scripts BaseMixedScriptsVariantFilter.__init__ BaseMixedScriptsVariantFilter.cp_in_scripts '
             'BaseMixedScriptsVariantFilter.cp_in_base_scripts BaseMixedScriptsVariantFilter.cp_in_other_scripts '
             'MixedScriptsVariantFilter.__init__ MixedScriptsVariantFilter.cp_in_other_scripts MixedScriptsVariantFilter._get_base_scripts '
             'MixedScriptsVariantFilter.get_filter_for_other_script MixedScriptsVariantFilter._get_scripts_for_variants'),
            ('variant-source', 'lgr.char', 'CharBase.get_variants CharBase.get_reflexive_variants CharBase.has_variant')],
    'C07': [
            ('class-pattern', 'lgr.classes', 'set_to_rvalue Class.get_pattern'),
            ('rule-pattern', 'lgr.rule', 'Rule.__init__ Rule.get_pattern Rule.matches Rule.precalculate_patterns Rule.iter_children'),
            ('matcher-pattern', 'lgr.matcher',
             'Matcher.__init__ Matcher.get_pattern Matcher.iter_children CompoundMatcher.__init__ CompoundMatcher.iter_children '
             'StartMatcher.get_pattern EndMatcher.get_pattern AnchorMatcher.get_pattern LookAheadMatcher.get_pattern '
             'LookBehindMatcher.get_pattern CountMatcher.__init__ CountMatcher.get_pattern ChoiceMatcher.__init__ '
             'ChoiceMatcher.get_pattern AnyMatcher.get_pattern CharMatcher.__init__ CharMatcher.get_pattern RuleMatcher.__init__ '
             'RuleMatcher.get_pattern RuleMatcher.iter_children RuleMatcher.by_ref ClassMatcher.__init__ ClassMatcher.get_pattern')],
    'C08': [('class-algebra', 'lgr.classes',
             'set_to_rvalue Class.__init__ Class.add_codepoint Class.del_codepoint Class.get_pattern CombinatorClass.__init__ '
             'ComplementClass.__init__ ComplementClass.get_pattern UnionClass.__init__ UnionClass.get_pattern '
             'IntersectionClass.__init__ IntersectionClass.get_pattern DifferenceClass.__init__ DifferenceClass.get_pattern '
             'SymmetricDifferenceClass.__init__ SymmetricDifferenceClass.get_pattern'),
            ('class-in-rule', 'lgr.matcher', 'ClassMatcher.get_pattern')],
    'C09': [
            ('reason', 'lgr.exceptions', 'RuleError.__init__'),

            ('matcher-validation', 'lgr.matcher', 'Matcher.__init__ CompoundMatcher.__init__ LookAheadMatcher.get_pattern RuleMatcher.__init__ ClassMatcher.__init__'),
            ('rule-validation', 'lgr.rule', 'Rule.__init__'),
            ('rule-validation', 'lgr.rule', 'Rule.validate Rule.add_child Rule.can_add_child'),
            ('matcher-validation', 'lgr.matcher',
             'Matcher.validate CompoundMatcher.add_child CompoundMatcher.validate CompoundMatcher.can_add_child '
             'LookAheadMatcher.validate LookBehindMatcher.validate ChoiceMatcher.validate RuleMatcher.validate '
             'RuleMatcher.can_add_child ClassMatcher.validate'),
            ('class-validation', 'lgr.classes',
             'Class.validate CombinatorClass.add_child CombinatorClass.validate ComplementClass.validate UnionClass.validate '
             'IntersectionClass.validate DifferenceClass.validate SymmetricDifferenceClass.validate'),
            ('admission', 'lgr.core', 'LGR.add_rule LGR.add_class LGR.add_action')],
    'C10': [
            ('tag-classes', 'lgr.core', 'LGR.expand_ranges'),
            ('tag-classes', 'lgr.core',
             'LGR._add_cp_to_tag_classes LGR._del_cp_from_tag_classes LGR.get_tag_classes LGR.all_tags LGR.del_tag LGR.add_cp LGR.del_cp '
             'LGR.add_range LGR.del_range LGR._insert_list LGR.expand_range'),
            ('tag-classes', 'lgr.char', 'Repertoire.del_tag'),
            ('tag-classes', 'lgr.classes', 'Class.add_codepoint Class.del_codepoint')],
    'C11': [
            ('storage', 'lgr.core', 'LGR.add_cp LGR.add_range LGR.add_variant LGR.expand_range LGR.expand_ranges LGR._insert_list'),
            ('char', 'lgr.char', 'CharBase.is_prefix_of CharBase.has_variant'),
            ('repertoire', 'lgr.char',
             'Repertoire.__init__ Repertoire.__contains__ Repertoire.__getitem__ Repertoire.__iter__ Repertoire.all_repertoire '
             'Repertoire.__len__ Repertoire.add_char Repertoire.del_char Repertoire.add_range Repertoire.del_range Repertoire.get_char '
             'Repertoire.add_variant Repertoire.del_variant Repertoire.get_variants Repertoire.get_variant '
             'Repertoire._check_range_overlap Repertoire._add_char Repertoire._del_char Repertoire.get_chars_from_prefix'),
            ('char', 'lgr.char',
             '_to_index CharBase.as_index CharBase.add_variant CharBase.del_variant CharBase.get_variants CharBase.get_variant '
             'CharBase.from_cp_or_sequence CharBase.__init__ CharBase.__len__ Char.__init__ RangeChar.__init__ RangeChar.add_variant '
             'RangeChar.del_variant Variant.__init__'),
            ('delegation', 'lgr.core', 'LGR.get_char LGR.get_variants LGR.get_variant LGR.del_variant LGR.del_cp LGR.del_range')],
    'C12': [
            ('admission', 'lgr.exceptions', 'CharInvalidContextRule.__init__ CharLGRException.__init__ RangeException.__init__ VariantException.__init__'),
            ('admission', 'lgr.core',
             'LGR.add_cp LGR.check_cp LGR.add_range LGR.check_range LGR.add_variant LGR._check_convert_cp LGR.add_codepoints '
             'LGR._insert_list LGR.cp_in_script LGR.del_reference LGR.del_variant'),
            ('admission', 'lgr.utils', 'is_idna_valid_cp_or_sequence script_iso15924_to_unicode tag_to_language_script'),
            ('admission', 'lgr.metadata', 'Metadata.get_scripts'),
            ('admission', 'lgr.char', 'Repertoire._check_range_overlap RangeChar.add_variant RangeChar.del_variant CharBase.add_variant')],
    'C13': [
            ('checked-before', 'lgr.core', 'LGR.add_range LGR.del_range LGR.del_tag LGR.expand_range LGR.del_cp LGR._insert_list'),
            ('checked-before', 'lgr.char', 'Repertoire.add_range Repertoire.del_range Repertoire._check_range_overlap Repertoire._add_char Repertoire._del_char')],
    'C14': [
            ('citations', 'lgr.core', 'LGR.add_cp LGR.add_range LGR.add_variant'),
            ('references', 'lgr.exceptions', 'ReferenceAlreadyExists.__init__ ReferenceInvalidId.__init__ ReferenceNotDefined.__init__'),
            ('references', 'lgr.metadata',
             'ReferenceManager.__init__ ReferenceManager.__contains__ ReferenceManager.__getitem__ ReferenceManager.__setitem__ '
             'ReferenceManager.__delitem__ ReferenceManager.add_reference ReferenceManager.del_reference ReferenceManager.update_reference'),
            ('references', 'lgr.core', 'LGR.add_reference LGR.del_reference'),
            ('references', 'lgr.char', 'Repertoire.del_reference')],
    'C15': [
            ('xml-reader', 'lgr.exceptions', 'LGRFormatException.__init__'),

            ('xml-reader', 'lgr.parser.xml_parser', 'XMLParser.validate_document'),
            ('xml-reader', 'lgr.parser.xml_parser',
             'XMLParser.__init__ XMLParser.unicode_version XMLParser.parse_document XMLParser._process_meta XMLParser._process_data '
             'XMLParser._process_rules XMLParser._parse_rule XMLParser._parse_rule_helper XMLParser._parse_action XMLParser._parse_class '
             'XMLParser._fast_iter cp_or_sequence_from_class string_to_list drop_ns'),
            ('parser-base', 'lgr.parser.parser', 'LGRParser.__init__ LGRParser.unicode_database LGRParser.unicode_database.setter')],
    'C16': [
            ('xml-writer', 'lgr.utils', 'cp_to_str'),
            ('xml-reader', 'lgr.parser.xml_parser', 'drop_ns'),
            ('xml-writer', 'lgr.char', 'Repertoire.__iter__ CharBase.get_variants'),
            ('xml-writer', 'lgr.parser.xml_serializer', 'serialize_lgr serialize_lgr_xml _serialize_meta _serialize_data _serialize_rules')],
    'C18': [('text-reader', 'lgr.parser.rfc3743_parser',
             'RFC3743Parser.parse_document RFC3743Parser._parse_doc RFC3743Parser.insert_variant parse_char RFC3743Parser.unicode_version '
             'RFC3743Parser.validate_document'),
            ('text-reader', 'lgr.parser.rfc4290_parser', 'RFC4290Parser.parse_document RFC4290Parser._parse_doc parse_char '
                                                         'RFC4290Parser.unicode_version RFC4290Parser.validate_document'),
            ('text-reader', 'lgr.parser.line_parser', 'LineParser._parse_doc LineParser.unicode_version LineParser.validate_document'),
            ('text-reader', 'lgr.parser.heuristic_parser',
             'HeuristicParser.__init__ HeuristicParser.unicode_version HeuristicParser.validate_document HeuristicParser._find_parser '
             'HeuristicParser._check_rfc_format HeuristicParser._parse_doc HeuristicParser._is_lgr'),
            ('parser-base', 'lgr.parser.parser', 'LGRParser.__init__ LGRParser.unicode_database LGRParser.unicode_database.setter '
                                                 'LGRParser.parse_document')],
    'C21': [
            ('check-log', 'lgr.parser.xml_parser', 'XMLParser._process_meta XMLParser._process_data XMLParser._process_rules XMLParser._parse_rule '
                                                     'XMLParser.validate_document'),
            ('check-log', 'lgr.rfc7940', 'LGRFormatTestResults.__init__ LGRFormatTestResults.error LGRFormatTestResults.tested '
                                         'LGRFormatTestResults.add_test_result LGRFormatTestResults.get_final_result'),
            ('check-log', 'lgr.core', 'LGR.get_rfc7940_validation LGR.notify_error LGR.notify_tested'),
            ('check', 'lgr.validate.metadata', 'check_metadata'),
            ('check', 'lgr.validate.miscellaneous', 'check_lgr_data check_ref_ascending check_lgr_rules check_miscellaneous'),
            ('check', 'lgr.validate.symmetry', 'check_symmetry'),
            ('check', 'lgr.validate.transitivity', 'check_transitivity')],
    'C22': [('symmetry', 'lgr.validate.symmetry', 'check_symmetry'),
            ('transitivity', 'lgr.validate.transitivity', 'check_transitivity'),
            ('populate', 'lgr.populate', 'populate_lgr _add_symmetry _add_transitivity'),
            ('populate', 'lgr.core', 'LGR.populate_variants')],
    'C23': [('union', 'lgr.tools.compare.union',
             'union_version union_description union_metadata union_reference_manager union_char union_actions union_rules union_classes '
             'union_lgrs'),
            ('intersection', 'lgr.tools.compare.intersect',
             'intersect_version intersect_description intersect_metadata intersect_reference_manager intersect_char intersect_actions '
             'intersect_rules intersect_classes intersect_lgrs'),
            ('combination', 'lgr.tools.compare.utils', 'latest_unicode_version'),
            ('combination', 'lgr.utils', 'let_user_choose'),
            ('combination', 'lgr.core', 'LGR.expand_ranges LGR.expand_range')],
    'C24': [('merge', 'lgr.tools.merge_set',
             'get_script merge_version merge_description merge_metadata merge_references rename_action merge_actions rename_rule '
             'merge_rules rename_class merge_classes merge_chars merge_lgr_set'),
            ('merge', 'lgr.tools.compare.utils', 'latest_unicode_version'),
            ('merge', 'lgr.tools.utils', 'merge_lgrs')],
    'C25': [('diff', 'lgr.tools.compare.diff',
             'compare_sets compare_things diff_version diff_description diff_metadata diff_reference_manager diff_char diff_actions '
             'diff_rules diff_classes diff_lgrs diff_lgr_sets'),
            ('diff', 'lgr.tools.compare.utils', 'display_variant compare_objects')],
    'C26': [('harmonize', 'lgr.tools.harmonize', 'harmonize'),
            ('harmonize', 'lgr.populate', 'populate_lgr _add_symmetry _add_transitivity')],
    'C27': [('index', 'lgr.core', 'LGR.generate_index_label LGR._generate_index_label_on_partition LGR._generate_label_partitions'),
            ('collisions', 'lgr.tools.diff_collisions',
             '_compute_indexes _get_cached_indexes _generate_indexes _compare _compare_labels _get_new_variants dump_collisions '
             '_write_complete_output _write_simple_output _full_dump diff _read_tlds collision basic_collision get_collisions')],
    'C28': [
            ('collisions', 'lgr.tools.diff_collisions', 'get_collisions _compute_indexes'),
            ('verdict', 'lgr.core', 'LGR.test_label_eligible LGR._test_eligibility'),
            ('annotate', 'lgr.tools.annotate', '_out_valid_label annotate lgr_set_annotate'),
            ('label-input', 'lgr.tools.utils', 'read_labels parse_label_input _parse_label_input parse_codepoint_input parse_single_cp_input')],
    'C29': [('identity', 'lgr.char', 'Variant.__eq__ Variant.__hash__ CharBase.__eq__ CharBase.__hash__'),
            ('identity', 'lgr.action', 'Action.__eq__ Action.__hash__'),
            ('identity', 'lgr.metadata', 'Version.__eq__ Scope.__eq__ Scope.__hash__ Description.__eq__')],
    'C05': [
            ('rule-log', 'lgr.core', 'LGR._test_eligibility'),
            ('rule-log', 'lgr.core', 'LGR.test_label_eligible LGR.compute_label_disposition')],
    'C19': [
            ('policy', 'lgr.parser.parser', 'LGRParser.__init__'),
            ('policy', 'lgr.core', 'LGR.add_cp LGR.add_variant LGR.notify_error'),
            ('policy', 'lgr.parser.xml_parser', 'XMLParser._process_meta XMLParser._process_data XMLParser._process_rules '
                                                'XMLParser._parse_rule'),
            ('policy', 'lgr.parser.rfc3743_parser', 'RFC3743Parser._parse_doc RFC3743Parser.insert_variant'),
            ('policy', 'lgr.parser.rfc4290_parser', 'RFC4290Parser._parse_doc'),
            ('policy', 'lgr.parser.line_parser', 'LineParser._parse_doc'),
            ('policy', 'lgr.core', 'LGR.add_rule LGR.add_class LGR.add_action'),
            ('policy', 'lgr.metadata', 'Metadata.add_language Metadata.set_languages Metadata.set_date Metadata.set_validity_start '
                                       'Metadata.set_validity_end Metadata.set_unicode_version')],
    'C30': [('cache', 'lgr.memoize', 'MethodAttributeMemoizer.__init__ MethodAttributeMemoizer.__call__'),
            ('cache', 'lgr.rule', 'Rule.get_pattern Rule.precalculate_patterns'),
            ('cache', 'lgr.metadata', 'Metadata.get_scripts'),
            ('cache', 'lgr.tools.diff_collisions', '_get_cached_indexes _generate_indexes')],
    'C32': [
            ('format', 'lgr.utils', 'format_cp'),
            ('review', 'lgr.tools.idn_review.actions', 'ActionReport.__init__ ActionReport.to_dict generate_actions_report'),
            ('review', 'lgr.tools.idn_review.classes', 'ClassReport.__init__ ClassReport.compute_result_and_remark ClassReport.to_dict '
                                                       'get_repertoire_and_class_members generate_classes_report'),
            ('review', 'lgr.tools.idn_review.header', 'generate_header'),
            ('review', 'lgr.tools.idn_review.language_tag', 'LanguageTagReport.__init__ LanguageTagReport.compare_with_tag '
                                                            'LanguageTagReport.to_dict generate_language_tag_report'),
            ('review', 'lgr.tools.idn_review.repertoire', 'RepertoireReport.__init__ RepertoireReport.compare_char RepertoireReport.to_dict '
                                                          'get_idn_cp_in_ref_seq generate_repertoire_report generate_repertoire_core_report'),
            ('review', 'lgr.tools.idn_review.review', 'review_lgr review_with_core_requirements'),
            ('review', 'lgr.tools.idn_review.summary', 'handle_report generate_summary'),
            ('review', 'lgr.tools.idn_review.utils', 'IdnReviewResult.name cp_report'),
            ('review', 'lgr.tools.idn_review.variant_sets',
             'VariantData.__init__ VariantData.add_variant VariantData.has_variant VariantData.has_reverse VariantData.get_var '
             'VariantData.get_rev_var VariantData.get_vars VariantData.get_rev_vars VariantData.get_cp VariantData.get_rev_cp '
             'VariantData.in_repertoire VariantData.get_types VariantData.get_rev_types VariantData.get_when VariantData.get_not_when '
             'VariantData.get_rev_when VariantData.get_rev_not_when VariantData.get_when_type VariantData.get_not_when_type '
             'VariantData.get_rev_when_type VariantData.get_rev_not_when_type VariantData.get_non_conditional_type '
             'VariantData.get_rev_non_conditional_type VariantData.none VariantComparison.__init__ VariantComparison.get_dest_char '
             'VariantComparison.get_dest_cp VariantComparison.check_symmetry VariantComparison.same_type VariantComparison.check_rules '
             'VariantComparison.check_type VariantReport.__init__ VariantReport.to_dict VariantReport.get_result_and_remark '
             'VariantSetsReport.__init__ VariantSetsReport.generate_variant_set_report VariantSetsReport.get_variant_data '
             'VariantSetsReport.checks VariantSetsReport.to_dict get_additional_codepoints generate_variant_sets_report '
             'generate_variant_sets_core_report'),
            ('review', 'lgr.tools.idn_review.whole_label_evaluation_rules',
             'WholeLabelEvaluationRuleReport.__init__ WholeLabelEvaluationRuleReport.compare_wle WholeLabelEvaluationRuleReport.to_dict '
             'WholeLabelEvaluationRulesCheck.__init__ WholeLabelEvaluationRulesCheck.check_rtl '
             'WholeLabelEvaluationRulesCheck.get_language_tags WholeLabelEvaluationRulesCheck.get_context_rules '
             'WholeLabelEvaluationRulesCheck.get_labels WholeLabelEvaluationRulesCheck.make_report '
             'WholeLabelEvaluationRulesCheck.check_label_cp_in_repertoire WholeLabelEvaluationRulesCheck.combining_mark_report '
             'WholeLabelEvaluationRulesCheck.consecutive_hyphens_report WholeLabelEvaluationRulesCheck.rtl_report '
             'WholeLabelEvaluationRulesCheck.digits_set_report WholeLabelEvaluationRulesCheck.japanese_contextj_report '
             'WholeLabelEvaluationRulesCheck.arabic_no_extended_report WholeLabelEvaluationRulesCheck.check_language '
             'WholeLabelEvaluationRulesCheck.test_label WholeLabelEvaluationRulesCheck.additional_cp_report '
             'generate_additional_general_rules generate_whole_label_evaluation_rules_report '
             'generate_whole_label_evaluation_rules_core_report'),
            ('compliance', 'lgr.tools.idna2008_compliance', 'check_idna2008_compliance is_out_of_repertoire'),
            ('variant-sets', 'lgr.char', 'Repertoire.get_variant_sets')],
    'C33': [('pickle', 'lgr.core', 'LGR.__init__ LGR.__getstate__ LGR.__setstate__ LGR.unicode_database LGR.unicode_database.setter')],
    'C34': [('metadata', 'lgr.core', 'LGR.__init__ LGR.unicode_database.setter'),
            ('metadata', 'lgr.metadata',
             '_validate_date Version.__init__ Scope.__init__ Description.__init__ Metadata.__init__ Metadata.get_scripts '
             'Metadata.add_language Metadata.set_languages Metadata.set_date Metadata.set_validity_start Metadata.set_validity_end '
             'Metadata.set_unicode_version')],
    'C35': [
            ('validation', 'lgr.validate.symmetry', 'check_symmetry'),
            ('validation', 'lgr.validate.transitivity', 'check_transitivity'),
            ('validation', 'lgr.validate.metadata', 'check_metadata'),
            ('validation', 'lgr.validate.miscellaneous', 'check_lgr_data check_ref_ascending check_lgr_rules check_miscellaneous'),
            ('validation', 'lgr.validate', 'validate_lgr'),
            ('validation', 'lgr.validate.conditional_variants', 'check_conditional_variants'),
            ('validation', 'lgr.validate.lgr_stats', 'generate_stats compute_stats'),
            ('validation', 'lgr.validate.rebuild_lgr', 'rebuild_lgr'),
            ('validation', 'lgr.validate.xml_validity', 'check_xml_validity'),
            ('validation', 'lgr.core', 'LGR.validate')],
    'C36': [('format', 'lgr.utils', 'cp_to_ulabel cp_to_str format_cp format_cp_collapsed collapse_codepoints'),
            ('label-input', 'lgr.tools.utils', 'read_labels parse_label_input _parse_label_input parse_codepoint_input parse_single_cp_input')],
    'C37': [
            ('tool', 'lgr.tools.utils', 'LgrToolArgParser.add_common_args LgrToolArgParser.add_libs_arg LgrToolArgParser.add_logging_args LgrToolArgParser.add_rng_arg LgrToolArgParser.add_unicode_arg LgrToolArgParser.add_xml_meta LgrSetToolArgParser.add_xml_set_args download_file read_labels'),
            ('tool', 'lgr.tools.utils',
             'merge_lgrs get_rz_label_script write_output get_stdin parse_lgr LgrToolArgParser.__init__ LgrToolArgParser.parse_args '
             'LgrToolArgParser.setup_logger LgrToolArgParser.parse_lgr LgrToolArgParser.get_unidb LgrSetToolArgParser.__init__ '
             'LgrSetToolArgParser.process_set LgrDumpTool.__init__ LgrDumpTool.run'),
            ('tool', 'tools.lgr_annotate', 'main'), ('tool', 'tools.lgr_cli', 'check_label main'),
            ('tool', 'tools.lgr_collision', 'compute_label_index find_variants_to_block main'), ('tool', 'tools.lgr_compare', 'main'),
            ('tool', 'tools.lgr_diff_collisions', 'main'), ('tool', 'tools.lgr_merge_set', 'main'), ('tool', 'tools.lgr_harmonize', 'main'),
            ('tool', 'tools.lgr_populate_variants', 'main'), ('tool', 'tools.lgr_validate', 'get_script check_label main'),
            ('tool', 'tools.make_idna_repertoire', 'make_idna_repertoire main'), ('tool', 'tools.one_per_line_dump', 'main'),
            ('tool', 'tools.rfc3743_dump', 'main'), ('tool', 'tools.rfc4290_dump', 'main'), ('tool', 'tools.rfc7940_validate', 'main'),
            ('tool', 'tools.xml_dump', 'main'), ('tool', 'tools.lgr_idn_table_review', 'main')],
    'C17': [
            ('reader', 'lgr.parser.xml_parser', 'XMLParser.validate_document XMLParser.unicode_version XMLParser.parse_document'),
            ('reader', 'lgr.tools.utils', 'download_file'),
    ],
}

VALUES = {
    'C02': ['lgr.core.DEFAULT_ACTIONS', 'lgr.core.DEFAULT_ACTIONS_XML', 'lgr.core.DEFAULT_DISPOSITION', 'lgr.core.INVALID_DISPOSITION'],
    'C04': ['lgr.core.PROTOCOL_LABEL_MAX_LENGTH', 'lgr.mixed_scripts_variant_filter.MixedScriptsVariantFilter.IGNORED_SCRIPTS'],
    'C09': ['lgr.classes.CombinatorClass.MAX_CHILDREN', 'lgr.classes.ComplementClass.MAX_CHILDREN',
            'lgr.classes.IntersectionClass.MAX_CHILDREN', 'lgr.classes.DifferenceClass.MAX_CHILDREN',
            'lgr.classes.SymmetricDifferenceClass.MAX_CHILDREN', 'lgr.matcher.CompoundMatcher.MAX_CHILDREN'],
    'C14': ['lgr.metadata.ReferenceManager.REFERENCE_REGEX'],
    'C21': ['lgr.rfc7940.LGRFormatTestResults.test_desciption'],
    'C24': ['lgr.tools.merge_set.MSR_2_RULES', 'lgr.tools.merge_set.MSR_NEGATIVE_LOOK_AHEAD'],
    'C32': ['lgr.tools.idn_review.utils.IdnReviewResult.' + x for x in ('MATCH', 'SUBSET', 'NOTE', 'MANUAL_CHECK', 'REVIEW')] + [
        'lgr.tools.idn_review.variant_sets.VariantComparison.VARIANT_TYPES_ORDER',
        'lgr.tools.idn_review.whole_label_evaluation_rules.WholeLabelEvaluationRulesCheck.ASCII_RANGE_MAX'],
}

HIERARCHY = {
    'C07': ['lgr.rule', 'lgr.matcher'],
    'C08': ['lgr.classes'],
    'C11': ['lgr.char'],
    'C18': ['lgr.parser.parser', 'lgr.parser.rfc3743_parser', 'lgr.parser.rfc4290_parser', 'lgr.parser.line_parser',
            'lgr.parser.heuristic_parser'],
    'C12': ['lgr.exceptions'],
    'C15': ['lgr.parser.xml_parser'],
}
