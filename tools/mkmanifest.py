import json
NOTE='Contracts at the public API, discharged by symbolic execution of the LLVM IR of the real code; all data values and coordinates symbolic, grid shapes enumerated. Doubles as exact reals; see DESIGN.md.'
C=['C%02d'%i for i in range(1,15)]
m=dict(version=1,setup_cmd='true',checks=[dict(property=c,quick_cmd='./check.py %s'%c,thorough_cmd='./check.py %s --tier thorough'%c,evidence_file='evidence/%s.json'%c,
  technique='contracts on the real code, discharged on its LLVM IR (own deductive verifier, z3 back end)',level='proof',level_note=NOTE) for c in C],
  not_applicable=[dict(property='C15',reason='whole-history/liveness property over thread interleavings (lost wake-ups, termination): contracts over single calls cannot express it')])
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
