#!/usr/bin/env python3
import json
H="38b6cde"
import subprocess
H=subprocess.check_output(["git","-C","/repo","rev-parse",H],text=True).strip()
base="Systematic enumeration of every choice vector within the bounds listed in the evidence file, on the real code, compared step by step with an independent reference model written from the RFC / the published rules. "
T={
"C01":("exhaustive bounded exploration of stream structures, real parse+write vs model writer","Streams come from a model writer enumerating block kinds, orders, bit offsets, header spellings and code-length assignments; the parsed blocks must be written back bit for bit. One spelling of length 258 is a known finding."),
"C02":("exhaustive bounded exploration of stream structures, real decoder vs RFC 1951 model","Every length and distance, block mix and window wrap in the alphabet; zlib cross-checks the model."),
"C03":("exhaustive enumeration of short byte strings and of single and double damage, real decoder vs RFC 1951 model","All short byte strings, all single-bit (thorough: pairs) flips, and a grammar of every RFC violation; no panic, right verdict."),
"C04":("exhaustive exploration of read splits with a deviation bound (controlled source)","The source is a controlled environment: every split/interrupt pattern within the deviation bound, every tail."),
"C05":("exhaustive fault injection: every cut point and every failing read","Every byte position of every stream in the set, both as end and as error, under every split pattern in the bound."),
"C06":("exhaustive fault injection: every failing/short/interrupted write","Every write call is offered full, short, interrupted and failing outcomes within the deviation bound."),
"C07":("exhaustive enumeration of gzip headers x read environments vs RFC 1952 model","All flag bytes, all field lengths around the limits, every cut, every split pattern in the bound."),
"C08":("exhaustive exploration of (data, preroll, code sequence, technique), real trace/restore","All byte strings over a small alphabet up to a length, all valid code sequences for them, all ten techniques, plus window-scale families."),
"C09":("exhaustive exploration of (data, preroll, code sequence, technique), real tracer vs reference guesser","As C08; the trace is compared entry by entry with the real guesser and the reference guesser."),
"C10":("exhaustive enumeration of trace entries and bounded entry sequences vs format model","Every (distance,length), every run length up to past the 16-bit and 32767 boundaries, every short mix."),
"C11":("exhaustive enumeration of short byte strings and read environments vs format model","All byte strings up to a length over a boundary alphabet, all 65536 words, every cut and split."),
"C12":("exhaustive exploration of (data, position, obscured runs, limit), real search vs brute force model","All byte strings over small alphabets up to a length; window-scale families for distance 32768 and length 258."),
"C13":("exhaustive exploration of guesser states: every code path through bounded data","Every reachable guesser state for the bounded data; guesses checked for validity, stability and completeness."),
"C14":("exhaustive exploration of guesser states, real guesser vs reference search model","Every reachable state for the bounded data and every level, plus families that make each limit bite."),
"C15":("exhaustive exploration of operation sequences vs byte-sequence model","All operation sequences to a depth over all small capacities; boundary capacities; window-scale copies."),
"C16":("exhaustive exploration of operation sequences vs boolean-sequence model","All operation sequences to a depth; all alignments and values."),
"C17":("exhaustive exploration of transfer environments vs direct use of the same source/sink","All call sequences to a depth x all environment answers within the deviation bound."),
"C18":("exhaustive enumeration of files, faults and cut points on the real program","Real process runs in a scratch directory; every cut, single damage of small files, output faults by write position."),
"C19":("exhaustive enumeration of files, contents at block boundaries, faults and cut points on the real program","Real process runs; output decoded by the reference model and compared with the content-defined split of a model."),
"C20":("exhaustive enumeration of files, damage and cut points on the real program","Real process runs; the listing is compared with the model's listing."),
"C21":("exhaustive exploration of files x techniques, real pipeline","The file is recreated from header, framing, traces and data only."),
"C22":("interleaving exploration of independent jobs: between steps on one thread, and inside them on two threads under a controlled scheduler (instrumented build), with a preemption bound","All interleavings of pairs (quick: up to 3 preemptions) and triples of jobs, step by step; on two threads every schedule with one preemption at function entries of the code under test, and with one of each thread at functions of locks, atomics and once. Threads are switched at function entries only and memory is sequentially consistent."),
"C23":("exhaustive enumeration of every length x distance pair vs RFC tables","All 256 lengths x 32768 distances."),
"C24":("exhaustive enumeration of bounded code descriptions vs RFC 1951 model","All complete/incomplete length sets in the bounded families, all run-length spellings in the families."),
"C25":("exhaustive enumeration of bounded (tables, codes) pairs and damaged descriptions, real writer vs model writer","Every single length and distance symbol present or absent x the codes around it, every cut and single change of the descriptions in the set, every short description, stored sizes around every power of two."),
"C26":("exhaustive exploration of stream structures, source and sink behaviours and orders of steps; position of source and content of sink compared with the model after every block","Every block border at every bit of a byte, a source failing after any byte with any kind of error, every order of taking, expanding and writing streams of up to 5 blocks, all short sequences of writer operations."),
}
L=[json.loads(l) for l in open("/verif/properties.jsonl")]
checks=[]
for d in L:
    i=d["id"]; t,n=T[i]
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":"model checking: "+t,"level":"fault_enumeration" if i in("C05","C06") else "model_checking","level_note":base+n+" Nothing outside the stated alphabets and bounds is claimed."})
M={"version":1,"setup_cmd":"./build.sh all","hooks":{"guard":"rezip_verif","enable":'RUSTFLAGS="--cfg rezip_verif" (set by build.sh for the explorer; the rezippers binary is built without it)',"source_commits":[H]},"checks":checks,"not_applicable":[],"notes":"See DESIGN.md. Known and fixed defects: known_findings.txt."}
json.dump(M,open("/verif/MANIFEST.json","w"),indent=1)
