C='lgr/core.py'; R='lgr/char.py'
BUGS=[
('C14',C,"        self.reference_manager = reference_manager" if 0 else "            self.reference_manager = ReferenceManager()","            self.reference_manager = ReferenceManager()\n            LGR.last_manager = self.reference_manager") ,
('C34',C,"                 metadata=None,\n                 reference_manager=None,","                 metadata=Metadata(),\n                 reference_manager=None,"),
('C02',C,"        return self.actions + list(DEFAULT_ACTIONS)","        self.actions += [a for a in DEFAULT_ACTIONS if a not in self.actions]\n        return self.actions"),
('C20',C,"        return self.actions + list(DEFAULT_ACTIONS)","        actions = self.actions\n        actions.extend(DEFAULT_ACTIONS)\n        return actions"),
('C33',C,"        odict = self.__dict__.copy()  # copy the dict since we change it","        odict = self.__dict__"),
('C33',C,"        self.__dict__['_unicode_database'] = None","        self.__dict__.setdefault('_unicode_database')\n        self.types = set(self.types or ())\n        self.rules = []"),
('C11',R,"        self.cp = tuple(cp_or_sequence)\n        self.type","        self.cp = cp_or_sequence\n        self.type"),
('C11',R,"self.tags = tag if tag is not None else []","self.tags = tag or CharBase.NO_TAGS"),
('C10',R,"                if tag_id in char.tags:\n                    char.tags.remove(tag_id)","                char.tags = [t for t in char.tags if not t.startswith(tag_id)]"),
('C14',R,"                for variant in char.get_variants():\n                    variant.references = [ref for","                for variant in char.get_reflexive_variants():\n                    variant.references = [ref for"),
('C13',R,"            self._chardict[idx].remove(char)\n","            self._chardict[idx] = [c for c in self._chardict[idx] if len(c) != len(char)]\n"),
('C13',R,"            if len(self._chardict[idx]) == 0:\n                # CP was only one (no sequence starting with this CP)\n                del self._chardict[idx]\n","            "),
('C11',R,"            for char in sorted(char_list, key=lambda c: len(c.cp)):","            for char in char_list:"),
('C11',R,"                    if last_cp is not None:\n                        # Skip all RangeChar of a range\n                        continue\n                    else:\n                        last_cp = char.last_cp","                    if last_cp is not None and char.last_cp == last_cp:\n                        # Skip all RangeChar of a range\n                        continue\n                    last_cp = char.last_cp"),
('C13',R,"            if first_cp > range_last or last_cp < range_first:\n                continue","            if first_cp > range_last:\n                continue\n            if last_cp < range_first:\n                continue\n            if first_cp < range_first and last_cp > range_last:\n                continue"),
('C13',R,"        self.ranges.sort()\n        for","        for"),
('C03',R,"        return sorted(iterable, key=lambda x: len(x), reverse=True)","        return sorted(iterable, key=lambda x: len(x))[::-1]" if 0 else "        iterable.sort(key=lambda x: len(x))\n        return iterable"),
('C04',R,"iterable = [v for v in self._chardict[cp] if v.has_variant()]","iterable = [v for v in self._chardict[cp] if v.has_variant() or len(v) > 1]"),
('C32',R,"                if variant.cp in visited:\n                    continue\n                try:","                if variant.cp in visited or variant.cp < char.cp:\n                    continue\n                try:"),
('C32',R,"        def dfs(char, visited=None):","        def dfs(char, visited=set()):"),
('C32',R,"                    lowest = min(variant_set)\n                    variant_sets.add((lowest, variant_set))","                    lowest = min(variant_set)\n                    if lowest == char.cp:\n                        variant_sets.add((lowest, variant_set))"),
('C11',R,"        return cp in [c.cp for c in set(self._chardict[k])]","        return any(c.is_prefix_of(cp) for c in self._chardict[k])"),
('C29',R,"        return ((self.cp == other.cp) and\n                (self.when == other.when) and","        return ((self.cp == other.cp) and\n                ((self.when or other.when) == other.when) and"),
('C29',R,"                hash(self.when) +","                id(self.when) +"),
('C12',R,"        for cp in range(first_cp, last_cp + 1):\n            char = RangeChar(cp, first_cp, last_cp,","        self.ranges.append((first_cp, last_cp))\n        for cp in range(first_cp, last_cp + 1):\n            char = RangeChar(cp, first_cp, last_cp,"),
('C12',C,"        self.reference_manager.del_reference(ref_id)\n        self.repertoire.del_reference(ref_id)","        self.repertoire.del_reference(ref_id)\n        self.reference_manager.del_reference(ref_id)"),
('C10',C,"        self.repertoire.del_tag(tag_id)\n        self.classes_lookup.pop(TAG_CLASSNAME_PREFIX + tag_id, None)","        self.repertoire.del_tag(tag_id)\n        if tag_id not in self.classes:\n            self.classes_lookup.pop(TAG_CLASSNAME_PREFIX + tag_id, None)"),
('C19',C,"                if not force:\n                    raise ReferenceNotDefined(ref_id)","                if not force and not override_repertoire:\n                    raise ReferenceNotDefined(ref_id)"),
('C12',C,"        if validating_repertoire is not None:\n            for cp in cp_or_sequence:","        if validating_repertoire:\n            for cp in cp_or_sequence[:1]:"),
('C13',R,"        if not skip_check and self._check_range_overlap(first_cp, last_cp):","        if not skip_check and (first_cp, last_cp) in self.ranges:"),
('C11',R,"            if idx in self._chardict and" if 0 else "        if idx in self._chardict and char in set(self._chardict[idx]):\n            logger.error","        if idx in self._chardict and char in self._chardict[idx][-1:]:\n            logger.error"),
('C31',C,"        if unidb_version != self.metadata.unicode_version:\n            logger.warning(\"Unicode database version is '%s' \"\n                           \"when LGR Unicode version is '%s'\",\n                           unidb_version, self.metadata.unicode_version)\n        self._unicode_database = unidb","        if unidb_version != self.metadata.unicode_version:\n            logger.warning(\"Unicode database version is '%s' \"\n                           \"when LGR Unicode version is '%s'\",\n                           unidb_version, self.metadata.unicode_version)\n            self.metadata.unicode_version = unidb_version\n        self._unicode_database = unidb"),
]
