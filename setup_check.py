"""setup_cmd: builds all harness variants once, so that a broken toolchain shows up here."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build
for variant, hs in (('asan', ['server', 'pure', 'tcp', 'multi']), ('tsan', ['server', 'conc', 'tcp', 'multi']), ('plain', ['server', 'cost', 'tcp'])):
    print(variant, build.build(variant, hs))
