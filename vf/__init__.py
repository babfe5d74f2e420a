import sys
_tools = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _tools not in sys.path: sys.path.append(_tools)     # z3, pycparser: after the project's own packages
