X = 'lgr/parser/xml_parser.py'
REFS = [
 ('tab_ifs', [(X, None, [("            if tag in MAPPER:\n                MAPPER[tag](child.text or '')\n                if tag == UNICODE_VERSION_TAG:\n                    unicode_version_tag_found = True\n",
 "            if tag in (DATE_TAG, VALIDITY_START_TAG, VALIDITY_END_TAG, UNICODE_VERSION_TAG):\n                text = child.text or ''\n                if tag == DATE_TAG:\n                    metadata.set_date(text, force=self.force)\n                elif tag == VALIDITY_START_TAG:\n                    metadata.set_validity_start(text, force=self.force)\n                elif tag == VALIDITY_END_TAG:\n                    metadata.set_validity_end(text, force=self.force)\n                else:\n                    metadata.set_unicode_version(text, force=self.force)\n                    unicode_version_tag_found = True\n")])]),
 ('tab_partial', [(X, None, [('            DATE_TAG: lambda d: metadata.set_date(d, force=self.force),',
 '            DATE_TAG: functools.partial(metadata.set_date, force=self.force),'), ('import logging\n',
 'import functools\nimport logging\n')])]),
 ('tab_get', [(X, None, [("            if tag in MAPPER:\n                MAPPER[tag](child.text or '')\n",
 "            setter = MAPPER.get(tag)\n            if setter is not None:\n                setter(child.text or '')\n")])]),
 ('tab_method', [(X, None, [('            DATE_TAG: lambda d: metadata.set_date(d, force=self.force),\n            VALIDITY_START_TAG: lambda d: metadata.set_validity_start(d, force=self.force),\n            VALIDITY_END_TAG: lambda d: metadata.set_validity_end(d, force=self.force),\n            UNICODE_VERSION_TAG: lambda d: metadata.set_unicode_version(d, force=self.force),\n',
 '            DATE_TAG: metadata.set_date,\n            VALIDITY_START_TAG: metadata.set_validity_start,\n            VALIDITY_END_TAG: metadata.set_validity_end,\n            UNICODE_VERSION_TAG: metadata.set_unicode_version,\n'), ("MAPPER[tag](child.text or '')",
 "MAPPER[tag](child.text or '', force=self.force)")])]),
 ('tab_local', [(X, None, [("                MAPPER[tag](child.text or '')\n",
 "                set_value = MAPPER[tag]\n                value = child.text or ''\n                set_value(value)\n")])]),
]
