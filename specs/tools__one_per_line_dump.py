# Reference behaviour of tools.one_per_line_dump (parsed by the checks, never executed).
from __future__ import unicode_literals
from lgr.tools.utils import LgrDumpTool


def main():
    from lgr.parser.line_parser import LineParser
    tool = LgrDumpTool(LineParser, description='Parse and dump a "one codepoint per line" file')
    tool.run()
