# Reference behaviour of tools.rfc4290_dump (parsed by the checks, never executed).
from __future__ import unicode_literals
from lgr.tools.utils import LgrDumpTool


def main():
    from lgr.parser.rfc4290_parser import RFC4290Parser
    tool = LgrDumpTool(RFC4290Parser, description='Parse and dump a RFC4290 file')
    tool.run()
