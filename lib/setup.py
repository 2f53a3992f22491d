"""setup_cmd: build the AST dumper."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.build_tool()
print('ffdump ready')
