"""Checks that the offline tools needed are there (nothing is built)."""
import subprocess, sys
sys.exit(subprocess.call(["/opt/veriftools/pyvenv/bin/python", "-c", "import hypothesis, numpy, scipy, mpmath; print('ready')"]))
