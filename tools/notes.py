BASE = ("TLC accepts exactly the recorded executions the specification allows; assurance is over the executions generated "
        "(all model programs up to the bound, plus seeded random ones), not all inputs. Trusted: the driver's projection of results, TLC. ")
NOTES = {
    "C01": BASE + "Save/load of all 14 types x shapes x orders x byte orders through memory streams and files, element by element; large arrays by digest.",
    "C02": BASE + "Every byte of every saved image is compared with the specification's own encoder.",
    "C03": BASE + "All headers of a token grammar up to the bound (exhaustive), random producers' headers; the decoder's meaning is the oracle.",
    "C04": BASE + "All one-edit token mutations of valid headers, every prefix, byte mutations; verdicts by the specification's decoder. Readings the format leaves open are allowed to be refused or read.",
    "C05": BASE + "All 14 x 14 (stored, requested) pairs in streams, files, archives; about 1500 type codes.",
    "C06": BASE + "Header reports compared with the decoder, repeated and interleaved peeks, header-only inputs.",
    "C07": BASE + "All programs of 3 (thorough 4) operations on one stream, random sequences, streams that cannot seek.",
    "C22": BASE + "All values of the 8-bit types and boundary values of all others in ten ways of making a boolean.",
    "C25": BASE + "Seven number groupings x five character classifications, before and after the locale is installed.",
    "C08": BASE + "Every shape up to the bound x both orders: bijection, agreement of call/vector/get/set, negative and out-of-range indices.",
    "C09": BASE + "Model-checked value semantics; all programs up to the bound over construct/copy/assign/move/fill/copy_from, plus random ones.",
    "C10": BASE + "All writer programs up to the bound x methods x media, random archives of all types and orders; contents by digest and by element.",
    "C12": BASE + "All name pairs of a small alphabet around the suffix, lookups, key lists.",
    "C13": BASE + "All writer programs including writes after close, rejected writes, snapshots of the in-memory writer.",
    "C14": BASE + "All reader programs up to the bound over archives with damaged and missing entries, closings.",
    "C11": BASE + "The specification's own ZIP reader, CRC-32 and inflater accept a closed archive only if it is exactly the records and images prescribed, every byte accounted for; archives up to a few thousand bytes (larger ones: C17, C20).",
    "C15": BASE + "Single-byte damage at every position (two values quick, all bit flips thorough), multi-byte edits, cuts, exchanges, over library-made and foreign archives; verdicts by the specification's reader of the damaged bytes.",
    "C16": BASE + "All producers of the model (ZIP64 placements, versions, flags, gaps, order), archives made by Python's zipfile, by NumPy and by a randomized producer with all deflate block types.",
    "C24": BASE + "Every proper prefix of finished archives, writers asked before closing, processes killed while writing.",
    "C17": BASE + "Names, entry counts, header lengths and entry sizes around every limit (255/256, 65535, 2.4 GB with ZIP64; thorough: beyond 4 GiB); sizes as sequences of bytes in the specification, data by digest and CRC.",
    "C18": BASE + "A model of a file behind a buffer and a disk which refuses at any call; the driver's stand-ins for the write and close calls refuse the n-th one, for all n; full, missing and read-only targets.",
    "C20": BASE + "The compression and decompression loops as state machines for all block schedules (small block sizes), and contents of sizes around the internal blocks against the specification's inflater (small) and digests (large).",
    "C21": BASE + "All programs up to the bound of writes by a tensor of the user that writes, throws or throws at once, on streams and archives; random type codes, shapes and payloads; a tensor template of the user in place of the built-in one.",
    "C19": BASE + "Thread-ownership model (static scratch, guarded, flag, cached variants refuted); real threads under ThreadSanitizer and under all schedules of the model at the driver's scheduling points (allocation, system call, stream and tensor callbacks), results equal to running alone.",
    "C23": BASE + "Results as a function of a term that forgets which form was used: all 5040 variants of making and reading an archive, all save/load/peek forms, damaged and foreign bytes through both readers; every overload must also compile.",
    "C26": BASE + "A reader over a stream with a mark of failure (three broken variants refuted); stand-ins for the read call refuse the n-th read, of transfers of one byte and more, once or for good; streams that throw at every byte; all programs of the model.",
    "C27": BASE + "A writer over streams that drop data for lack of memory (three broken variants refuted); the driver's allocator refuses the n-th request made by the library, for all n, in saves, loads, writers, readers and tensors; all (quick: a fifth of the) programs of the model.",
    "C28": BASE + "Table of descriptors under all programs of a writer, a reader and single arrays (four broken variants refuted); descriptors counted after every call; every kind of refusal and failure repeated in rounds: memory in use and descriptors do not grow.",
    "C29": BASE + "The same model (a variant refuted); names, sizes, contents, modes and times of all files after every call; reading without permission to write.",
    "C30": BASE + "Table of things and of what each call is for (variants which swap in place, return or throw without putting back refuted); digests of all arrays, user tensors, streams, strings, writers, readers and of the state of the process after every call, also after those that throw.",
}
