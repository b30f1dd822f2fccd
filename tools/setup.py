#!/usr/bin/env python3
"""Build everything the checks use (they also build it themselves when the sources differ)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
import vf
print(vf.build_harness('mc', 'rel'))
print(vf.build_pyext())
print(vf.build_exe())
print(vf.build_harness('io', 'rel', hflags=['-DVF_MALLOC']))
print(vf.build_sched())
print(vf.build_harness('fault', 'rel', link_extra=['-rdynamic']))
