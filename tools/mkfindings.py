#!/usr/bin/env python3
# Generates known-findings.json: defects of rodb that this work found. "fixed" entries are repaired
# in /repo and suppress nothing; "known" entries would be reported as KNOWN-FINDING.
import json
F=[
('C02','7157b06','an index of an array property fails or panics, or finds a record twice','map, sqlite or wildcard index over a property that is an array'),
('C12','c99b898','the process panics when a request filters on a property that is an array or an object',''),
('C04','026577a','a power loss or kill while a wildcard index is built leaves an index marked complete whose tree was not written, which a later start serves from',''),
('C09','602408e','rows of sqlite and fts5 lookups stay open after a first-match or limited request; an error that ends them is taken for the end of the results (C10)',''),
('C15','d7a12ad','overlapping requests decode their texts with one shared decoder and get each other\'s text or errors',''),
('C09','56fe77d','the data file stays open when a scan cannot begin; an empty csv file with a header cannot be used',''),
('C10','ef29351','a failed read of a json data file ends a scan as if the records had ended: a 200 with missing records',''),
('C09','aeff733','a search without index leaves the data file open when it ends early (limit or first match)',''),
('C03','9816d05','reading one xml record disturbs the parser of another: wrong record or error depending on the history',''),
('C08','fd15ccb','the process exits at an interrupt before the requests in progress are answered',''),
('C12','9dd12be','a record that cannot be encoded as json gives a 200 with an empty or truncated body',''),
('C14','64a046e','nested or several relationships are matched with the data of the previous record',''),
('C12','15719e8','the values of the path parameters of a route are taken from the groups of the parsers\' patterns: wrong parameter values (C01, C14)',''),
('C01','8e0dc6c','two requests evaluating one xpath at the same time get values of each other\'s records (C17)',''),
('C17','f6f3ee9','parameters, filters and relationships are handled in map order: the same request gets different errors or bytes',''),
('C04','28d824c','sqlite and fts5 indexes are built with synchronous off in several transactions: a power loss leaves a partial index that a later start accepts',''),
('C02','7ccd469','an in-memory sqlite index loses its tables when database/sql opens a second connection under load',''),
('C08','ff17b0d','at an interrupt the process waits forever for a client that stalls (C11, C19)',''),
('C08','d5abe2c','an interrupt right after the address has been announced kills the process without answering',''),
('C14','5428b4d','more than 12 related records that are equal for the sort criteria come out of file order',''),
('C16','fdf845a','the process panics when a configured file cannot be examined for another reason than that it does not exist',''),
('C06','56305c6','a wildcard index is accepted after its properties were replaced by as many others: requests are answered from the tree of another property',''),
('C06','54cccc4','a sqlite or fts5 index is accepted after its properties, collations or tokenizer were changed: requests are answered from the former ones',''),
('C06','8402b65','the process panics when the file at the path of a wildcard index is no such index',''),
('C16','6d91fd7','the process announces an https service whose certificate cannot be loaded, and serves nothing on it',''),
('C18','d66bdd4','an http+https service of which one server has failed goes on, half of it dead, without an exit or a message',''),
('C18','4cc30c5','a service which fails is not noticed as long as another one runs',''),
('C12','13b9e7b','a property path with a negative array index (tags.-1) panics: the connection is closed without an answer, or the start-up of an index ends in a panic (C16)',''),
('C07','f6d656e','a data file over which another one is renamed is not noticed: scans combine positions of the new file with records of the former one',''),
]
import subprocess
out=[]
for prop,c,what,inp in F:
    full=subprocess.run(['git','-C','/repo','rev-parse',c],capture_output=True,text=True).stdout.strip() or c
    e=dict(property=prop,status='fixed',commit=full,what='fixed: property=%s %s %s'%(prop,c,what))
    if inp: e['input']=inp
    out.append(e)
json.dump({'findings':out},open('/verif/known-findings.json','w'),indent=1); open('/verif/known-findings.json','a').write('\n')
