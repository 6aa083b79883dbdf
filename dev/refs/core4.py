import sys; sys.path.insert(0, "/verif/dev/refs")
from ed import sub, redef
redef('lgr/core.py', 'LGR.generate_index_label', '''
    def generate_index_label(self, label, max_recursion=0):
        if not label:
            logger.debug('No label provided, skipping the generation of index label')
            return tuple()
        result, _, not_in_lgr, _ = self._test_preliminary_eligibility(label, generate_chars=True)
        if not result:
            logger.error('Label %s is not in LGR', format_cp(label))
            raise NotInLGR(not_in_lgr[0][0])
        index_label = min(self._generate_index_label_on_partition(partition)
                          for partition in self._generate_label_partitions(label))
        logger.debug("Index label: '%s'", index_label)
        if max_recursion <= 0 or index_label == label:
            return tuple(index_label)
        try:
            index_label = self.generate_index_label(index_label, max_recursion=max_recursion - 1)
        except Exception:
            pass
        return tuple(index_label)
''')
redef('lgr/core.py', 'LGR._generate_index_label_on_partition', '''
    def _generate_index_label_on_partition(self, chars):
        index_label = []
        prefix = ()
        suffix = tuple(c for cp in chars[1:] for c in cp.cp)
        for char in chars:
            idx = len(prefix)
            candidates = [list(char.cp)]
            candidates.extend(list(var.cp) for var in char.get_variants()
                              if self._test_context_rules(var, prefix + var.cp + suffix, idx))
            index_label += min(candidates)
            prefix = prefix + char.cp
            suffix = suffix[len(char):]
        logger.debug("Index label: '%s'", index_label)
        return tuple(index_label)
''')
redef('lgr/core.py', 'LGR._generate_label_partitions', '''
    def _generate_label_partitions(self, label, prefix=None):
        if prefix is None:
            prefix = ()
        original_label = prefix + tuple(label)
        try:
            char_list = self.repertoire.get_chars_from_prefix(label[0])
        except NotInLGR:
            return []
        all_partitions = []
        for char in char_list:
            if char.is_prefix_of(label) and self._test_context_rules(char, original_label, len(prefix)):
                if len(label) <= len(char):
                    all_partitions.append([char])
                else:
                    rest = self._generate_label_partitions(label[len(char):], prefix=prefix + char.cp)
                    all_partitions.extend([char] + label_partition for label_partition in rest)
        return all_partitions
''')
