"""psx: a predicated symbolic executor for coinflip's Python source."""
import os
import sys

# The engine runs under the repository's own interpreter (so that real pandas /
# scipy are at hand for concrete work); z3 comes from the verification venv.
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
