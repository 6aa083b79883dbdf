# Reference behaviour of tools.rfc3743_dump (parsed by the checks, never executed).
from __future__ import unicode_literals
from lgr.tools.utils import LgrDumpTool


def main():
    from lgr.parser.rfc3743_parser import RFC3743Parser
    tool = LgrDumpTool(RFC3743Parser, description='Parse and dump a RFC3743 file')
    tool.run()
