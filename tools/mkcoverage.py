#!/usr/bin/env python3
"""COVERAGE.md from evidence/*.json (what the last run of every check covered)."""
import json,glob
out=["# What the quick checks cover","",
"Generated by tools/mkcoverage.py from one run of every quick check on the unchanged tree. Every stage is explored twice:",
"with the code under test built with debug assertions and overflow checks, and without; the counts are for one build.",
"*executions* = choice vectors enumerated by the engine (each one a run of the real code against the model);",
"*inner* = further comparisons enumerated inside them; *dev* = bound on deviating environment answers (0: none are offered,",
"or every one is an ordinary choice).",""]
tot=0
for f in sorted(glob.glob('evidence/C*.json')):
    d=json.load(open(f)); c=d['coverage']
    out+=[f"## {d['property']}","","| stage | enumerated | executions | inner | dev |","|---|---|---|---|---|"]
    for s in c['stages']:
        if s['build']!='checked': continue
        tot+=s['executions']+s['inner_executions']
        out.append(f"| {s['stage']} | {s['rule']} | {s['executions']} | {s['inner_executions']} | {s['deviation_bound']} |")
        assert s['exhaustive'],(f,s)
    out.append("")
out.append(f"All stages together: {tot} comparisons per build, all exhaustive within their bounds.")
open('COVERAGE.md','w').write("\n".join(out)+"\n")
