"""Locates the code under test and the Hypothesis library, without touching either."""
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
CODE = os.path.join(REPO, 'crysgsu')
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

if CODE not in sys.path:
    sys.path.insert(0, CODE)
_conv = os.path.join(CODE, 'convert')
if _conv not in sys.path:
    sys.path.insert(1, _conv)
# Hypothesis lives in the tooling venv; its own numpy must not shadow the project's.
if VT_SITE not in sys.path:
    sys.path.append(VT_SITE)
