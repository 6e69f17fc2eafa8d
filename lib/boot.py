"""Put the harness, the package under test and Hypothesis on sys.path."""
import os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
if '/repo/package' not in sys.path:
    sys.path.insert(0, '/repo/package')
# Hypothesis lives in the tooling venv; appended last so that the repo's own
# numpy/scipy win.
vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if vt not in sys.path:
    sys.path.append(vt)
