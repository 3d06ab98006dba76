#!/usr/bin/env python3
# Generates MANIFEST.json.
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
 'C30':"A parser is a pure function of one string: no schedule, clock, I/O or second party can change what it returns, so seeded simulation adds nothing to ordinary input generation. (Parsers run for real in every simulated history, and their results are compared with the reference model's for the values that occur there; what depends on scheduling, the shared character set decoder, is C15.)",
 'C31':"Validation is a pure function of the configuration document, evaluated once before any concurrency, time or I/O exists; nothing a simulator controls can influence it. (Start-up under faults, and that nothing is served with an invalid configuration, is C16.)",
}
NOTE={
 'C01':"many simulated clients against the whole rodb process; every interleaving is chosen by a seeded scheduler at statement granularity and every answer is compared with a reference model of the documented behaviour",
 'C02':"filtered requests over generated data with every index type, fresh and reloaded, under seeded interleavings, compared with the reference model",
 'C03':"single-record reads out of order, repeated and interleaved with scans and failing reads, compared with the reference model",
 'C04':"the process is killed, or the machine loses power, at enumerated and seeded write operations of index builds, on a simulated disk that keeps, tears or drops unsynced writes; the next start must refuse or answer exactly as an uninterrupted build",
 'C05':"histories of starts, stops and kills on unchanged data; answers and index bytes are compared across starts",
 'C06':"histories of data edits, clock positions, configuration changes, incomplete builds and starts; each start must be refused exactly when something differs",
 'C07':"writes, replacements and other file events at seeded moments of start-up and serving, delivered by a simulated file watcher",
 'C08':"interrupts at seeded moments of connection and request life cycles; requests in flight, exit status and time to exit (simulated clock) are checked",
 'C09':"repeated, limited, failing and abandoned requests with a count of the handles open on the simulated disk",
 'C10':"a fault-free run records every I/O operation; then faults (errors, short reads, no handles) are placed at single operations, in turn or seeded, and every answer must be an error or exact",
 'C11':"seeded transient fault sequences, then a fault-free phase in which every request must be answered correctly within bounded simulated time",
 'C12':"odd, malformed, split, pipelined and overlapping requests; the byte stream of each connection is parsed and every complete request must have its one specified response",
 'C13':"pages of generated lists fetched concurrently and in any order; the concatenation must be the complete list",
 'C14':"records with generated relationships, nested and sorted, fetched by overlapping requests and compared with the reference model",
 'C15':"overlapping decodes of values of stateful and stateless character sets, valid and malformed, with preemption inside x/text",
 'C16':"a fault-free start records every operation; then faults are placed at single operations of start-up (open, read, write, sync, stat, listen, watch, full disk), the configuration or the certificate is made invalid in one of sixty ways, or power is lost after the failure; the start and a fault-free restart are judged",
 'C17':"the same requests repeated within a run, across runs with permuted orders of map walks, other schedules, and across restarts; bodies must be byte-identical",
 'C18':"clients that connect and send at every moment of start-up; no answer before everything is initialised, none refused after the announcement",
 'C19':"stalling, aborting, half-closing and garbage-sending clients among well-behaved ones, whose answers must be correct and arrive in bounded simulated time",
 'C20':"workloads of the other properties with every mutating operation on the simulated disk recorded and judged by path",
}
LEVEL={'C04':'fault_enumeration','C10':'fault_enumeration','C11':'fault_enumeration','C16':'fault_enumeration'}
TRUST=" Real code: all of rodb, its XPath, XML, text and logging libraries, net/http, database/sql and SQLite; simulated: disk, network, clock, file watcher, signals, scheduling. Trusted: the simulator, the reference model; interleavings are sequentially consistent at statement granularity, calls into SQLite are atomic except at their file operations. Sampling, not proof."
TECH={p['id']:"deterministic simulation of the whole process, seeded schedule "+("and fault " if p['id'] in('C04','C06','C07','C08','C09','C10','C11','C16','C19','C20') else "")+"search" for p in props}
m={'version':1,'setup_cmd':'bash tools/build.sh /repo /verif/build && build/sim -prop C20 -runs 16 -out /verif/build/setup','checks':[], 'not_applicable':[],
 'notes':"No hooks in /repo: seams are put in by a source-to-source instrumenter (tools/instrument) into a copy made at build time under /verif/build. /verif/DESIGN.md describes everything; known-findings.json lists the defects repaired in /repo."}
for p in props:
    i=p['id']
    if i in NA:
        m['not_applicable'].append({'property':i,'reason':NA[i]}); continue
    m['checks'].append({'property':i,'quick_cmd':'bin/check %s quick'%i,'thorough_cmd':'bin/check %s thorough'%i,'technique':TECH[i],
      'level':LEVEL.get(i,'exploration'),'level_note':NOTE[i][0].upper()+NOTE[i][1:]+'.'+TRUST})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
