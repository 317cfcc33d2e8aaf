#!/usr/bin/env python3
"""Writes MANIFEST.json; a property is claimed when it is listed in CLAIMED."""
import json,os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
T="bounded explicit-state model checking: exhaustive enumeration of %s, each executed on the real code and compared with a reference model"
CLAIMED={
 "C01":("all bounded property trees and encodings","Every image in the stated families is decoded by the crate exactly as the reference encoder stored it. Trusts the reference encoder, which is written from the format; sizes beyond the bounds are not covered."),
 "C02":("all bounded images and, for each, all existing and derived paths","Every lookup in every image of the families gives what the parsed tree gives and leaves the image unparsed. Trusts the reference encoder only for building inputs; the comparison is between two views of the same code plus the model."),
 "C06":("all strings up to a length over an alphabet, every length around every form boundary, and all compact integers of the boundary classes, through every reading path","Every string and integer in the families round-trips. Trusts the reference encoder."),
 "C07":("all sequences of size requests, single reads and decryptions up to a depth, for every key","Every request history in the families gives the keystream of an independent AES-CFB-style definition. Trusts the aes crate used by the reference."),
 "C16":("all bounded sounds, scripts, raw blocks and videos in every header form and key","Every payload in the families is extracted byte for byte. Trusts the reference encoder and the reference sound container."),
 "C18":("all bounded trees of all property kinds with extreme values","Every tree in the families exports to the JSON the model defines and every object reads back. Trusts serde_json's value type."),
 "C23":("the full matrix of node kinds, boundary values and accessors","Every accessor on every kind and boundary value answers as the model says."),
 "C03":("all bounded directory trees, layouts, header forms, versions, keys and entry storage forms","Every archive in the families opens to what the reference encoder stored. Archives with more entries or deeper nesting than the bounds are not covered."),
 "C04":("all bounded directory trees, layouts, header forms and entry storage forms of each release, for a set of header hash pairs","Every archive in the families opens to what the reference encoder stored. 32-bit hash pairs are a fixed set, because each first opening searches the whole hash space."),
 "C22":("all classic versions and header values, and the full 32-bit hash space for a set of header hash pairs","For every pair in the families, the set the crate finds equals the set found by evaluating the equation at all 2^32 hashes. Other pairs are not covered."),
 "C11":("all small trees and, from every node, all paths up to a length, and all short sequences of moving children","Every tree, node and path in the families answers as the arena model does. Larger trees and longer paths are not covered."),
 "C12":("all small images with up to three links and all short link texts, and all small trees with inlinks and outlinks","Every link in the families resolves to the node the arena model gives; links are resolved in document order."),
 "C13":("all small trees and images with links, walked from every node, and all small archives and packs in every state of being parsed, walked from every entry","Every walk in the families visits the places of the model, parents first, and leaves the tree as it was."),
 "C17":("all bounded packs of both generations: file names, salts, entry tables, image sizes, keys and storage forms, and all single-byte replacements and truncations of small headers","Every pack in the families lists and decrypts to what the reference encoder stored; the reference has its own SNOW 2.0 (tables computed from the field definition) and ChaCha20."),
 "C10":("all sequences of parse, unparse, walk and lookup operations up to a depth on archives, packs and images, sound and damaged, including nodes held after they left the tree","Every history in the families leaves the tree, the parsed flags and the results of the object-graph model. Longer histories and larger trees are not covered."),
 "C21":("all sequences and interleavings up to a depth of making and parsing the objects for a set of archives and images, sound and damaged, each history in a fresh process, and all sequences after several first-opening orders of 32-bit archives that share their header hashes","In every history every object shows what the reference model says it shows alone, also when parsed again. Archives that several releases or version hashes explain equally are outside the statement."),
 "C05":("all pairs of letters, lengths and storage forms of the first name, all header forms and keys, and every way of giving a key that fits or not","Every file in the families is decoded as it was stored, or refused where no standard key explains it. First names of one letter, and names whose wrong decoding is text by chance under a non-standard key, are outside the statement."),
 "C14":("all bounded sizes of every pixel format, every stored 16-bit value, every value of each channel, and all classes of compressed blocks, in the parallel and the sequential build","Every bitmap in the families decodes to the pixels of the reference decoder, and what cannot be decoded is an error. BC7 modes other than 6 trust the block decoder the crate links."),
 "C15":("all divisions of short payloads into encrypted chunks, all plain stream headers, chunk lengths and header fields, and all sequences of reads through one key","Every container in the families gives the stored pixels and fields. Longer payloads are cut at chosen places only."),
 "C19":("all truncations, all single-byte and four-byte replacements by hostile values, and all pairs of them in small files, of samples of every kind, each opened and used in every way","No damaged file of the families makes a call panic, hang or take more than 512 MB, and the shared key serves other files afterwards. 32-bit pkg2 archives are left out, because damage to them starts the search over all hashes."),
 "C20":("all small folder layouts: flat and nested, archives present or absent, up to three parts with every distribution of entries, sub folders, stray files, ways of naming the base, and everything that can be missing or damaged","Every folder in the families assembles to the tree the model gives, with every image's content, or is refused. Images of one name stored in two parts of one archive are outside the statement."),
 "C24":("all bounded images, archives and packs under several naming schemes, all permutations of a few sibling names, all small images with links and all small moves, in the build with the feature indexmap","Every listing and walk of the families is in stored order. Folders assembled from several archives, and names stored twice in one list, are outside the statement."),
 "C25":("all sequences of operations up to a depth on the small worlds of C10, all small images with links, all pairs of property kinds, all small hand-made trees with moves, and all truncations of samples","In every history of the families only what can be reached from held nodes is alive, and equal histories leave equal memory. Trees a caller ties into a cycle by hand are outside the statement."),
 "C08":("all schedules","In every schedule of the families every thread obtains what it obtains alone and none waits forever. Threads switch at lock operations only; more threads, operations and preemptions than the bounds are not covered.","stateless model checking of the implementation: exhaustive exploration of all thread schedules (to completion for two threads, up to a preemption bound for more) of the real code under a controlled scheduler that replaces the standard library's locks"),
 "C09":("all schedules","Every schedule of the families ends, and what the threads obtain and leave equals a serial order of their operations or, for walks, exports and drawings, what each visited node shows in some reachable state of the tree. Threads switch at lock operations only; more threads, operations and preemptions than the bounds are not covered. One known finding: at_path_parsed with a look upwards and a waiting writer can deadlock.","stateless model checking of the implementation: exhaustive exploration of all thread schedules (to completion for two atomic operations, up to a preemption bound otherwise) of the real code under a controlled scheduler that replaces the standard library's locks, judged against all serial orders"),
}
LATER="machinery under construction; see DESIGN.md"
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in CLAIMED:
        what,note=CLAIMED[i][:2]
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",technique=T%what if len(CLAIMED[i])<3 else CLAIMED[i][2],level="model_checking",level_note=note))
    else:
        na.append(dict(property=i,reason=LATER))
m=dict(version=1,setup_cmd="./run.sh build",checks=checks,not_applicable=na,notes="No hooks in /repo: the harness uses the public API; C08 and C09 link the crate against a substitute std::sync.")
open(os.path.join(here,"MANIFEST.json"),"w").write(json.dumps(m,indent=1)+"\n")
print(len(checks),"claimed",len(na),"not claimed")
