# Reference behaviour of lgr.parser.parser (parsed by the checks, never executed).
import logging
import os
import io
from pathlib import Path
from lgr.core import LGR


class LGRParser(object):

    def __init__(self, source, filename=None, force=True, allow_invalid_property=False):
        self.source = source
        self.force = force
        self.allow_invalid_property = allow_invalid_property
        if not filename and isinstance(self.source, str):
            self.filename = Path(self.source).name
        elif not filename and isinstance(self.source, Path):
            self.filename = self.source.name
        else:
            self.filename = filename
        self._unicode_database = None
        self._lgr = None

    @property
    def unicode_database(self):
        return self._unicode_database

    @unicode_database.setter
    def unicode_database(self, unidb):
        self._unicode_database = unidb
        if self._lgr is not None:
            self._lgr.unicode_database = unidb

    def unicode_version(self):
        raise NotImplementedError()

    def validate_document(self, schema=None):
        raise NotImplementedError()

    def parse_document(self):
        self._lgr = LGR(name=self.filename, unicode_database=self._unicode_database, allow_invalid_property=self.allow_invalid_property)
        if hasattr(self.source, 'read'):
            self._parse_doc(self.source)
        else:
            with io.open(self.source, 'r', encoding='utf-8') as rule_file:
                self._parse_doc(rule_file)
        return self._lgr

    def _parse_doc(self, rule_file):
        raise NotImplementedError()
