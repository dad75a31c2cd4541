"""Nothing is compiled: checks that the interpreters and solvers the checks need are there."""
import subprocess
import sys
for cmd in (['/opt/venv/bin/python', '-c', 'import yaml, rich'], ['python3-vt', '-c', 'import z3'], ['cvc5', '--version']):
    if subprocess.run(cmd, stdout=subprocess.DEVNULL).returncode:
        sys.exit(f'missing: {cmd}')
