import json
T={}
def t(i,tech,note,level="exploration"): T[i]=(tech,note,level)
t("C01","monitored directory builds, checked by an independent image decoder","random and boundary-directed source trees built for real; every file compared through the library and through the reference decoder. Trusts the reference decoder; samples the input space.")
t("C02","trace monitor on a partition definition plus layout oracle","every request to the definition is recorded and the placement of every file judged on the decrypted image. Samples definitions, biased to group boundaries and odd paddings.")
t("C03","monitored builds with byte-level carry-over oracle","all system files and metadata compared at their on-disc place and through the accessors, for random and extreme layouts.")
t("C04","hash-tree and encryption monitor over every group of built images","independent AES/SHA-1 tree verification of every block of every group; includes dirty destinations and several partitions.")
t("C05","header/TMD truthfulness monitor","header fields, TMD hash and size, fake signature checked against the bytes stored, up to the largest TMD that fits and beyond.")
t("C06","history monitor over sequences of succeeding and failing additions","each history's final image is compared with the list of additions that succeeded, on empty, random and old-image destinations.")
t("C07","model-based online checker of reader histories","each operation's result and position compared with the plaintext, over foreign and library images and interleaved partitions.")
t("C08","fault injection on the source with an online data oracle","errors, short reads, interrupts and failing seeks while opening and reading; afterwards a fault-free re-read on the same reader.")
t("C09","model-based online checker with fault injection","window histories against a byte array model, step by step, incl. nested windows and short or failing sources.")
t("C10","model-based online checker of tree histories","tree compared with a reference tree after each operation.")
t("C11","round trips against an independent table encoder and parser","both directions, all name-table layouts, name-table limits, deep nesting.")
t("C12","hostile-input workload under panic, stack, allocation and time monitors","corruption in the clear and behind valid encryption, hostile tables, records and system files; allocator refuses requests beyond what the input justifies; process death is traced to its case.")
t("C13","fault enumeration over destination operations","every operation of fixed builds is failed in every applicable way, others sampled; noise builds must be byte-identical.","fault_enumeration")
t("C14","crash-point enumeration over recorded write logs","every prefix of the writes (and torn small writes) is opened and judged.","fault_enumeration")
t("C15","differential monitoring of repeated builds and of extract-rebuild cycles","pairs of directories with other creation order and time stamps, other destinations; rebuilt partitions compared byte for byte.")
t("C16","online trace checker of progress events","progress values interleaved with file requests judged against the trace specification.")
t("C17","model-based monitor of the Python module on real extractions","imports the built module under CPython, compares all files written with the model, then rebuilds.")
t("C18","containment monitor: snapshots around hostile extractions as an unprivileged user","file system outside the destination compared before and after; extraction must raise when a name leads out.")
t("C19","callback trace monitor on the Python removal filter","callback calls recorded, later extraction compared with the expected remainder.")
t("C20","black-box monitor of the command line tool","output, files and exit status of the binary compared with the model and with the library's build.")
t("C21","layout monitor with independent encoder","random and extreme field values of all records, parsed and re-written, compared field by field; keys recomputed independently.")
t("C22","model-based monitor of image opening","reference-made images with up to a hundred table entries; everything reported compared.")
t("C23","defect-injection workload with controls","one defect per directory at a random place must be refused; the same directory without it must build.")
t("C24","model-based monitor of image copies","copies taken apart by the reference decoder and compared with the source model; source checked unmodified.")
checks=[dict(property=i,quick_cmd=f"python3 check.py {i}",thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",evidence_file=f"evidence/{i}.json",technique=a,level=c,level_note=b) for i,(a,b,c) in sorted(T.items())]
json.dump(dict(version=1,setup_cmd="python3 check.py --setup",checks=checks,not_applicable=[],
 notes="No hooks in /repo: everything is observed through the public API, the built binary and the built Python module. Defects found and repaired are listed in known_findings.txt."),open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
