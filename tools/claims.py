AI = "abstract interpretation (gated value-flow dataflow over SSA)"
TRUST = " Trusted: go/ssa, the analyser in /verif/gsa, its models of standard library calls; floats are taken as exact rationals."
CLAIMS = {
 "C01": ("proof", AI + ": every possible panic site reachable from the decoders discharged", "Every index, slice, nil use, type assertion, conversion and explicit panic reachable from decoding." + TRUST),
 "C02": ("proof", AI + " plus progress and section-size rules over loops and recursion", "Loops consume input, nested sections are strictly smaller, allocations bounded." + TRUST),
 "C03": ("proof", AI + ": success implies input length, per decoder", "Success conditions are compared with the bytes the filled fields need, for every input." + TRUST),
 "C10": ("proof", AI + ": failure conditions of every step must imply failure of the result", "Every failing step of every decoder and encoder, and Package.Decode's codes." + TRUST),
 "C13": ("proof", AI + ": write events and aliasing of results", "No write to arguments, globals or (for encoders) sections; no alias of the input kept." + TRUST),
 "C06": ("proof", AI + " against layout tables", "Holds for every input: fields decoded and bytes encoded equal the standard's tables." + TRUST),
 "C07": ("proof", AI + " against layout tables", "Holds for every input: fields decoded and bytes encoded equal the standard's tables, texts up to their delimiter." + TRUST),
 "C04": ("proof", AI + " against the transport layout", "Decode of every frame and Encode of every well-formed packet, flags, optional header, body length, nested body and checksums (as folds over the exact bytes)." + TRUST),
 "C09": ("proof", AI + "; checksum loops summarised as folds with a canonical step", "Acceptance implies both checksums over exactly header and body; output carries them." + TRUST),
 "C05": ("proof", AI + "; record loops summarised per iteration and compared with header tables at an arbitrary position", "Record, subrecord and response headers in both directions, for every list." + TRUST),
 "C08": ("proof", AI + ": the encoder's symbolic output fed to the decoder in the same analysis; lists by both directions' equality with one layout", "Every well-formed value of every section and packets with any nested body; decoder acceptance and every field under its flag. Lists of records and subrecords compose through the header tables (so a change of both directions of a list header at once is reported too)." + TRUST),
 "C11": ("proof", AI + " of the type dispatch against the standard's code table", "All 256 codes when decoding, all kinds when encoding." + TRUST),
 "C24": ("proof", AI + ": lengths written compared with the symbolic lengths of what follows", "Frame, record and subrecord lengths and every Length method, for every content." + TRUST),
 "C12": ("proof", AI + ": typestate of the body around the key's calls", "Encrypted bodies pass through the key in both directions or the call fails, for any key implementation." + TRUST),
 "C14": ("proof", AI + ": every read from the connection against the bytes consumed so far", "Lengths read per packet equal the header's arithmetic for every header; exactly the bytes read are decoded; nothing read ahead is lost." + TRUST),
 "C15": ("proof", AI + ": answers on the connection traced back to the encoded packets", "Which packets are answered, how often, and the content of every answer, for every list of records and subrecords." + TRUST),
 "C16": ("proof", AI + ": storage calls per record and their order relative to the answer", "Exactly one Save per record with a position, before the answer, its failure reflected in the record's status." + TRUST),
 "C17": ("proof", AI + ": provenance of every field of the stored record", "Each field of the record handed to storage and each JSON key, for every list of records and subrecords." + TRUST),
 "C18": ("proof", AI + ": write effects on shared memory, shared calls, locks and channels, process exits and the accept loop", "Handler, library, repository and every backend's Save, for all inputs; external client libraries are taken at their documented concurrency." + TRUST),
 "C20": ("proof", AI + ": the store loops in an arbitrary turn, calls guarded by their names and errors", "Any number of stores and any configuration; which store is called, with what, and what its error leads to." + TRUST),
 "C21": ("proof", AI + ": Init followed by Save per backend, connection steps and delivery call with their arguments and errors", "Every configuration and record for all six backends and the log store; the client libraries' own behaviour is taken as documented (no error means delivered)." + TRUST),
 "C22": ("proof", AI + ": the start sequence of the receiver from command line to connection handler", "Every command line, file content and loading outcome; the YAML library is taken to fill the tagged fields or report an error." + TRUST),
 "C23": ("proof", AI + ": the generator from command line to exit status, with an inductive argument over the loops on record statuses", "Every command line whose values fit their fields, every outcome of each step and every answer read within the timeout; Package.Decode and Encode by their contracts, proved by C04 and C10." + TRUST),
 "C19": ("proof", AI + ": typestate of the connection (closed at every exit, deadline before every wait)", "Every return, every read and write of an arbitrary turn, accept loop and Stop." + TRUST),
}
NA = {
 "C25": "durability of external brokers and databases is outside the source; the code has no durability point of its own to analyse",
 "C26": "a bound on wall-clock time under load is a runtime quantity no static argument over this source can give",
}
