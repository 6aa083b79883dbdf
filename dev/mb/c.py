X='lgr/parser/xml_parser.py'
BUGS=[('C15',X,"MAPPER[tag](child.text or '')","MAPPER[tag](child.text)"),('C15',X,"MAPPER[tag](child.text or '')","MAPPER[tag](child.tail or '')")]
