#!/opt/veriftools/pyvenv/bin/python3
"""Realistic defects in a scratch copy of /repo: the check of the property has to report them. Never touches /repo.
usage: bugs.py [name...]   (NONATIVE=1: contracts only)"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
src = open(HERE + '/refactors.py').read().replace("'refactors_list.py'", "'bugs_list.py'").replace("if not os.environ.get('NATIVE')", "if os.environ.get('NONATIVE')").replace('irvref.', 'irvbug.')
exec(compile(src, HERE + '/refactors.py', 'exec'))
