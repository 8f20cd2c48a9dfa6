"""Builds the exporter and warms Go's build cache, offline."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'gv'))
os.environ.setdefault('GV_BUILD', os.path.join(HERE, '.build'))
import prog
print(prog.build_exporter())
