#!/usr/bin/env python3
"""Writes DESIGN.md from design.md.tmpl, the rules below and tools/catch.txt."""
import json,os,subprocess
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
T=[
("C01","every operation that can panic (index, slice, nil use, type assertion, division, size of make, call of nil) reachable from any Decode, from `handleConn` and from what they call is an obligation: its guard and the failing condition exclude each other","any bytes, any stream; the tests decode one packet"),
("C02","every loop reachable from a decoder ranges over something finite or consumes a byte per turn; nested sections get fewer bytes than their container (recursion); every allocation size is at most 65535","all inputs, including zero lengths and nesting"),
("C03","success of each decoder implies that the input has every byte of its layout (tables in `spec.go`), under each flag combination; every read that can fall short leads to an error","all cut points × all flags"),
("C04","fields after `Package.Decode` equal the header table at the right bits under success, success is possible exactly for right frames; `Encode` of an arbitrary well-formed packet equals the table's bytes, with routing fields under the flag","all header values, plain, with key, encrypted"),
("C05","the list loops are analysed in one arbitrary turn at an arbitrary position: header fields, the body handed to the nested decoder (exactly the announced bytes), the next position, every element kept in order; encoders: what a turn appends to the output","lists of any length"),
("C06","decoded fields and encoded bytes equal the layout table bit by bit, under presence flags, with scaling","all values, all flags"),
("C07","as C06, with delimited texts (up to the delimiter, or end)","all values, all texts"),
("C08","the encoder runs on an arbitrary well-formed value, its symbolic output is the decoder's input in the same analysis; every field comes back under its flag and nothing is refused. No layout table is consulted. Lists: see limits","all well-formed values"),
("C09","success implies both checksum equations over exactly header and body; output carries checksums of the bytes sent. Checksum loops become folds with a canonical step, compared with the standard's","all packets, all lengths"),
("C10","for each step with an error: step fails and function succeeds exclude each other (errors noted in variables followed by invariants); codes: OK if and only if no error, others from the standard's set","all inputs and failing steps"),
("C11","dispatch of each of the 256 codes to the type it allocates, unknown ones skip; the encoder's code per dynamic type is the inverse","all codes, lists of any length"),
("C12","typestate of the body around the key: encrypted and success imply the key was called once on exactly the body, without error, and its result is what is decoded or sent; plain packets do not call it","any key implementation"),
("C13","write and alias effects: no write to argument memory, receiver of an encoder or globals; results share no memory with the input","all inputs"),
("C14","per turn of the connection loop: what was taken from the stream in total at each exit and each decode equals header arithmetic; no read-ahead is lost; refusals happen before decode","all headers, any segmentation"),
("C15","writes to the connection traced to the packet encoded; ids, results, record statuses, order and number of confirmations; answered or not per packet type","any list of records"),
("C16","Save calls per turn of the record loop: guard equals 'a position was seen in this record', once, before the answer; its error decides the record's status","any list of records"),
("C17","provenance of each field of the value given to Save, including state carried over records and packets (client) and state that must not be; JSON tags","any history"),
("C18","write effects of handler, library, repository, stores on shared objects; locks are released on every way out and not held while a client is waited for; no process exit reachable; accept loop hands each connection to its own goroutine","all schedules (nothing shared is written)"),
("C19","Close covers every return; a deadline from the configured limit precedes each read and write of a turn; failed reads leave the loop; no deadline without a limit; Stop and Run","all histories"),
("C20","store loops in an arbitrary turn: who is called with what, error reported, order; loading: name to backend, Init before registration, errors","any number of stores and settings"),
("C21","per backend: Init then Save on a symbolic configuration; the delivery call's arguments and error; no record data in query text","all settings and records"),
("C22","flow from file through settings to listener, limit, log level, stores; failures stop the start; never without a store; read settings lead to listening and accepting","all files"),
("C23","flow from flags to the packet's bytes; exit status exactly by what was read and decoded","all values, all answers"),
("C24","lengths written equal symbolic lengths of what follows; longer parts are errors; every Length method equals the length of Encode's result","all contents"),
]
man=json.load(open(root+'/MANIFEST.json'))
n={}
tab="| id | how it is decided | why beyond tests |\n|---|---|---|\n"+"".join("| %s | %s | %s |\n"%t for t in T)
catch="| change | reported by | what it needs |\n|---|---|---|\n"
for l in open(here+'/catch.txt'):
    i,r=l.strip().split(': ',1)
    w=r.split()
    m=json.load(open(root+'/seeded/'+i+'/meta.json'))
    catch+="| %s | %s | %s |\n"%(i,("**%s** "%m['property'] if w[0]=='own' else "not by %s; "%m['property'])+" ".join(x for x in w[1:] if x!=m['property']),m['needs'])
s=open(here+'/design.md.tmpl').read().replace('@TABLE@',tab).replace('@CATCH@',catch)
open(root+'/DESIGN.md','w').write(s)
