'''Nothing is built: this only checks that the tools are there.'''
import subprocess
import sys
VT = '/opt/veriftools/pyvenv/bin/python'
subprocess.run([VT, '-c', 'import z3; print("z3", z3.get_version_string())'],
               check=True)
sys.exit(0)
