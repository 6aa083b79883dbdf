import sys; sys.path.insert(0, "/verif/dev/refs")
from ed import sub, redef
redef('lgr/core.py', 'LGR.estimate_variant_number', '''
    def estimate_variant_number(self, label, hide_mixed_script_variants=False):
        (_, _, _, chars) = self._test_preliminary_eligibility(label, generate_chars=True)
        variants = [[v for v in char.get_variants() if v.cp != char.cp] for char in chars]
        if not hide_mixed_script_variants:
            number = 1
            for char_variants in variants:
                number *= len(char_variants) + 1
            return number
        try:
            mixed_script_filter = MixedScriptsVariantFilter(label, self.repertoire, unidb=self._unicode_database)
        except NotInLGR:
            return 0
        variant_number = 1
        for char_variants in variants:
            in_base = [v for v in char_variants if mixed_script_filter.cp_in_base_scripts(v.cp)]
            variant_number *= len(in_base) + 1
        for script in mixed_script_filter.other_scripts:
            number = 1
            for char_variants in variants:
                number *= sum(1 for v in char_variants if mixed_script_filter.cp_in_scripts(v.cp, {script}))
            variant_number += number
        return variant_number
''')
redef('lgr/core.py', 'LGR.compute_label_disposition_summary', '''
    def compute_label_disposition_summary(self, label, include_invalid=False, hide_mixed_script_variants=False):
        label_dispositions = list(self.compute_label_disposition(
            label, include_invalid=include_invalid, hide_mixed_script_variants=hide_mixed_script_variants))
        summary = collections.Counter()
        for (_, disp, _, _, _, _) in label_dispositions:
            summary[disp] += 1
        return summary, label_dispositions
''')
redef('lgr/core.py', 'LGR._get_prefix_list', '''
    def _get_prefix_list(self, label, label_prefix):
        def is_candidate(prefix):
            if not prefix.is_prefix_of(label):
                return False
            prefixed_label = label_prefix + prefix.cp + tuple(label[len(prefix):])
            return self._test_context_rules(prefix, prefixed_label, len(label_prefix))

        return [prefix for prefix in self.repertoire.get_chars_from_prefix(label[0], only_variants=True)
                if is_candidate(prefix)]
''')
redef('lgr/core.py', 'LGR.all_tags', '''
    def all_tags(self):
        return list(self.get_tag_classes())
''')
redef('lgr/core.py', 'LGR.get_tag_classes', '''
    def get_tag_classes(self):
        return {clsname[len(TAG_CLASSNAME_PREFIX):]: clz
                for clsname, clz in self.classes_lookup.items()
                if clsname.startswith(TAG_CLASSNAME_PREFIX)}
''')
