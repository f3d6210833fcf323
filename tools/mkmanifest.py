#!/usr/bin/env python3
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01":("Go race detector over concurrent requests","reports conflicting accesses among the schedules that ran; generated filings, cold and warm, in many processes"),
 "C02":("history monitor against freshly started servers","every response of a concurrent history is compared with a fresh process's answer to the same request"),
 "C03":("fault and repair histories with a status monitor","every generated history of broken and repaired files; one kind of damage per step"),
 "C04":("crash, hang and memory monitor on mutated filings","mutations of generated filings and hostile requests; resource limits decide exhaustion, a watchdog only guards the run"),
 "C05":("answer comparison across repetitions, schedules and processes","byte comparison of repeated computations"),
}
D = ("reference-model monitor on responses","every response to generated filings is compared with what an independent model of the filing demands")
T2 = {
 "C22":("document comparison monitor","served document compared with the file, byte for byte or as a parsed tree"),
 "C24":("HTTP protocol monitor","status, type and body of every response, in process and over sockets"),
 "C26":("metamorphic monitor on rewritten filings","answers for two spellings of one filing are compared in canonical form"),
 "C27":("metamorphic monitor on renamed prefixes","answers for two spellings of one filing are compared in canonical form"),
 "C29":("metamorphic monitor on re-encoded filings","answers for two spellings of one filing are compared in canonical form"),
 "C30":("response monitor with canary files","every response compared with the tree of pages; canary files all around the directory"),
 "C31":("goroutine, open-file and file-tree monitor","the process's goroutines, open files and both directories are compared from round to round of the same requests"),
 "C32":("process monitor on the built program","responses over sockets and exit status of the program itself, with interrupts while a request is held in progress"),
 "C15":("output monitor with an HTML parser","markup and text of every text block shown are parsed and judged"),
 "C17":("reference-graph monitor","files loaded compared with those reachable in the generated graph, under several schedules"),
 "C18":("history checker for concurrent creation","every attempt of concurrent histories of threads and processes is judged"),
 "C19":("file access monitor (inotify) and content canaries","reads of watched files outside, canary content in responses, and the address mapping"),
 "C20":("lookup monitor against declarations","every declared concept and derived undeclared names and addresses"),
 "C21":("loaded-state monitor against the generated instance","every item loaded compared with the instance as written"),
 "C28":("invariant monitor on names","pairs of names under generated declarations"),
}
checks=[]
for l in open(os.path.join(here,"properties.jsonl")):
    i=json.loads(l)["id"]
    t,n = T.get(i) or T2.get(i) or D
    checks.append({"property":i,"quick_cmd":"bash harness/run.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash harness/run.sh "+i,
      "evidence_file":"evidence/%s.json"%i,"technique":"runtime monitoring: "+t,
      "level":"fault_enumeration" if i=="C03" else "exploration","level_note":n+"; bounded by the generators, nothing is proved"})
m={"version":1,"setup_cmd":"bash harness/setup.sh","checks":checks,"not_applicable":[],
   "notes":"No hooks in /repo: the harness is built into the module with a build overlay and observes through the HTTP handler, other processes and exported functions. VERIF_CASE=n replays one case of a check."}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
