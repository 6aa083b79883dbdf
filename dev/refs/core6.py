import sys; sys.path.insert(0, "/verif/dev/refs")
from ed import sub, redef
redef('lgr/core.py', 'LGR.add_cp', '''
    def _check_references(self, ref, force, duplicate_of):
        references = []
        for ref_id in ref or []:
            if ref_id not in self.reference_manager:
                logger.warning("Reference id '%s' is not defined", ref_id)
                if not force:
                    raise ReferenceNotDefined(ref_id)
                continue
            references.append(ref_id)
        if len(set(references)) < len(references):
            logger.error("Duplicate reference id in '%s'", references)
            if not force:
                raise DuplicateReference(duplicate_of)
        return references

    def _check_in_repertoire(self, cps, validating_repertoire, override, not_in):
        if validating_repertoire is None:
            return
        for cp in cps:
            if not validating_repertoire.check_cp(cp):
                if not override:
                    raise NotInRepertoire(not_in)
                logger.warning("Overriding repertoire '%s'", validating_repertoire)

    def add_cp(self, cp_or_sequence, comment=None, ref=None, tag=None, when=None, not_when=None,
               validating_repertoire=None, override_repertoire=False, force=False):
        logger.debug("Add cp '%s' to LGR '%s'", cp_or_sequence, self)
        cp_or_sequence = self._check_convert_cp(cp_or_sequence)
        if when is not None and not_when is not None and not force:
            raise CharInvalidContextRule(cp_or_sequence)
        self._check_in_repertoire(cp_or_sequence, validating_repertoire, override_repertoire or force, cp_or_sequence)
        references = self._check_references(ref, force, cp_or_sequence)

        tags = [] if tag is None else tag
        if len(cp_or_sequence) > 1 and tags:
            logger.warning("Code point sequence '%s' has invalid tag defined", format_cp(cp_or_sequence))
            if not force:
                raise LGRFormatException(LGRFormatException.LGRFormatReason.SEQUENCE_NO_TAG)
        if any(count > 1 for count in collections.Counter(tags).values()):
            logger.warning("Code point '%s' has duplicate tags", format_cp(cp_or_sequence))
            if not force:
                raise LGRFormatException(LGRFormatException.LGRFormatReason.DUPLICATE_TAG)
        self.repertoire.add_char(cp_or_sequence, comment=comment, ref=references, tag=tags,
                                 when=when, not_when=not_when)
        self._add_cp_to_tag_classes(cp_or_sequence, tags)
''')
redef('lgr/core.py', 'LGR.add_variant', '''
    def add_variant(self, cp_or_sequence, variant_cp, variant_type=None, when=None, not_when=None, comment=None,
                    ref=None, validating_repertoire=None, override_repertoire=False, force=False):
        logger.debug("Add variant '%s' for cp '%s' to LGR '%s'", variant_cp, cp_or_sequence, self)
        cp_or_sequence = self._check_convert_cp(cp_or_sequence)
        var_cp_or_sequence = self._check_convert_cp(variant_cp)
        if not force and when is not None and not_when is not None:
            raise VariantInvalidContextRule(cp_or_sequence, var_cp_or_sequence)
        self._check_in_repertoire(var_cp_or_sequence, validating_repertoire, override_repertoire or force,
                                  cp_or_sequence)
        references = self._check_references(ref, force, cp_or_sequence)
        self.repertoire.add_variant(cp_or_sequence, var_cp_or_sequence, variant_type=variant_type, when=when,
                                    not_when=not_when, comment=comment, ref=references)
        self.types.add(variant_type)
''')
redef('lgr/core.py', 'LGR.del_range', '''
    def del_range(self, first_cp, last_cp):
        logger.debug("Delete range '%s-%s' from LGR '%s'", first_cp, last_cp, self)
        if last_cp < first_cp:
            logger.error('First code point of range is greater than last')
            raise LGRApiInvalidParameter('first_cp')
        tags = self.repertoire.get_char([first_cp]).tags if first_cp in self.repertoire else []
        self.repertoire.del_range(first_cp, last_cp)
        cp = first_cp
        while cp <= last_cp:
            self._del_cp_from_tag_classes(cp, tags)
            cp += 1
''')
