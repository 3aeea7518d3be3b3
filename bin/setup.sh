#!/bin/bash
# Builds the harness once; the checks build it again from /repo's working tree.
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P'
import os, sys, tempfile
sys.path.insert(0, 'bin')
sys.argv = ['x']
import check, programs
for b in ('dev', 'release', 'hooked', 'programs'):
    check.build(b)
for s in check.STAGES.values():
    if s.get('interp'):
        programs.Interpreter(check.HARNESS, check.bin_of(s), os.path.join(check.BUILD, 'interpreted-harness'),
                             os.path.join(check.BUILD, 'target-miri'), os.path.join(check.BUILD, 'miri-sysroot'), timeout=600)
with tempfile.TemporaryDirectory() as d:
    programs.miri_programs([dict(id=0, src=['reached();'])], check.PROGRAMS, d, os.path.join(check.BUILD, 'target-miri'),
                           os.path.join(check.BUILD, 'miri-sysroot'), timeout=800)
P
