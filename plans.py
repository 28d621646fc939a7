"""Which monitors decide which property, in which builds, for how many cases (quick, thorough)."""


def job(bin, build="release", cases=None, secs=(60, 1500), **kw):
    """secs: no further case is started after this time (a bound for slow machines)"""
    j = dict(bin=bin, build=build, secs=secs, **kw)
    if cases:
        j["cases"] = cases
    return j


def huge(pid):
    """buffers of more than 4 GiB"""
    return job("huge", cases=(2, 60), secs=(60, 600), shards=2, mem=10, env={"MON_PROP": pid})


def guided(b, secs=(10, 300)):
    """cases whose draws libFuzzer supplies, guided by the coverage of the code under test"""
    return job(b, "fuzz", secs=secs, mem=0)


MIRI = dict(stall_wall=400, stall_cpu=400)

PLANS = {
    "C01": [job("c01", cases=(200_000, 6_000_000)), guided("c01")],
    "C02": [job("c02", cases=(200_000, 6_000_000)), guided("c02")],
    "C03": [job("c03", cases=(500_000, 15_000_000)), guided("c03")],
    "C04": [job("c04", cases=(800_000, 30_000_000)), guided("c04"), huge("C04")],
    "C05": [job("c05", cases=(400_000, 12_000_000)), guided("c05"), huge("C05")],
    "C06": [job("c06", cases=(400_000, 16_000_000)), guided("c06"), huge("C06")],
    "C07": [job("c07", cases=(60_000, 2_500_000)), guided("c07"), huge("C07")],
    "C08": [job("c08", cases=(40_000, 1_000_000), needs=["MON_BIN"])],
    "C09": [job("c09", cases=(200_000, 8_000_000)), guided("c09"), huge("C09")],
    "C10": [job("c10", cases=(150_000, 6_000_000)), guided("c10"), huge("C10")],
    "C11": [job("c11", cases=(1_000_000, 40_000_000)), guided("c11")],
    "C12": [job("c12", cases=(1_200_000, 60_000_000)), guided("c12")],
    "C13": [
        job("c13", cases=(700_000, 30_000_000)),
        guided("c13"),
        job("c16", cases=(6_000, 200_000), needs=["MON_BIN"], env={"MON_REPORTS": "split_timestamp"}),
    ],
    "C14": [job("c14", cases=(12_000, 400_000), mem=16)],
    "C15": [
        job("c15", cases=(6_000, 200_000), needs=["MON_BIN", "MON_BIN_DEV", "MON_SHIM"]),
        job("c15", cases=(2, 4), shards=2, secs=(300, 900), needs=["MON_BIN", "MON_BIN_DEV"], env={"MON_LONG": "1"}, stall_wall=400, stall_cpu=300),
    ],
    "C16": [job("c16", cases=(5_000, 200_000), needs=["MON_BIN"], mem=10)],
    "C17": [
        job("c17", "checked", cases=(60_000, 2_500_000), secs=(45, 1200)),
        job("c17", "asan", cases=(20_000, 800_000), secs=(45, 1200)),
        job("c17", "miri", cases=(120, 4000), secs=(40, 1200), **MIRI),
    ],
    "C18": [
        job("c18", cases=(100_000, 4_000_000)),
        job("c18", "dev", cases=(12_000, 400_000)),
    ],
    "C19": [job("c19", cases=(3_000, 120_000), needs=["MON_BIN", "MON_BIN_DEV"])],
    "C20": [
        job("c20", cases=(6_000, 400_000), secs=(40, 1200)),
        job("c20", "tsan", cases=(2_000, 100_000), secs=(50, 1200), shards=4, env={"MON_CAP": "20000"}),
        job("c20", "miri", cases=(64, 2_000), secs=(40, 1200), **MIRI),
        job("c08", cases=(300, 15_000), secs=(30, 600), needs=["MON_BIN"], env={"MON_ONLY": "1"}),
        job("c20r", cases=(160, 12_000), secs=(40, 900), shards=4, mem=0, needs=["MON_BIN_TSAN"]),
    ],
    "C21": [job("c21", cases=(6_000, 200_000), needs=["MON_BIN", "MON_BIN_DEV", "MON_SHIM"])],
    "C22": [job("c22", cases=(2_400, 100_000), needs=["MON_BIN"], mem=8)],
}

LOGS = "Logs are generated from the seed: valid, corrupted, truncated, embedded, overlapping and maximum-size entries, split markers, garbage, mutations. "
RULES = {
    "C01": "Each case reads an entry (with and without storage header) at every position around headers of edge-case lengths, markers and truncations, and compares with the layout. Non-trivial and distinct: the hash of the bytes read, if they hold at least a marker. A second job lets libFuzzer supply the draws, guided by coverage.",
    "C02": "Case n<256: header type n with every body length 0..=48 twice; then random flags and body lengths up to the maximum. Every accessor is compared with the layout. Distinct: hash of flags and body. A second job lets libFuzzer supply the draws, guided by coverage.",
    "C03": "Headers built from edge-case and random fields are read back and their bytes compared; all 256 message info bytes and all types are enumerated. Distinct: hash of the fields. A second job lets libFuzzer supply the draws, guided by coverage.",
    "C04": LOGS + "Five record types, several start offsets, iterators with and without offsets, resumed and interleaved. Non-trivial: the log is not empty; distinct: hash of the log. A second job lets libFuzzer supply the draws, guided by coverage.",
    "C05": LOGS + "Forward, strict and reverse iterators and marker searches from several offsets. Non-trivial: not empty; distinct: hash of the log. A second job lets libFuzzer supply the draws, guided by coverage.",
    "C06": LOGS + "Ranges around messages, edges and at random (all ranges of small buffers). Non-trivial: the log has a message; distinct: hash of the log. A second job lets libFuzzer supply the draws, guided by coverage.",
    "C07": LOGS + "Several partition counts per log. Non-trivial: the log has a message; distinct: hash of the log and count. A second job lets libFuzzer supply the draws, guided by coverage.",
    "C08": LOGS + "Partitions read one by one and by threads that a random gate interleaves (the trace of reads is recorded), and parallel against sequential ripdlt reports on 1..all CPUs. Non-trivial: more than one message; distinct: hash of log and partition count.",
    "C09": LOGS + "Patterns that match empty, across messages, in headers, markers and invalid UTF-8; several starts. Non-trivial: more than one message; distinct: hash of log and pattern. A second job lets libFuzzer supply the draws, guided by coverage.",
    "C10": LOGS + "Patterns whose group is missing from some matches, empty, nested or reaches across messages. Non-trivial: more than one message; distinct: hash of log and pattern. A second job lets libFuzzer supply the draws, guided by coverage.",
    "C11": "Random sequences through random compositions of operations, each result compared with list operations and the calls of every closure with the expected trace. Distinct: hash of composition and input. A second job lets libFuzzer supply the draws, guided by coverage.",
    "C12": "Random sequences and relations (reflexive, irreflexive, asymmetric), grouped by generator, adapter and iterator. Distinct: hash of relation and sequence. A second job lets libFuzzer supply the draws, guided by coverage.",
    "C13": "Random sequences of intervals, sets and keyed values in several arrival orders. Distinct: hash of the sequence. A second job lets libFuzzer supply the draws, guided by coverage.",
    "C14": "Files of edge-case sizes, mapped and read while read(2)/mmap(2) are cut short, interrupted or fail at drawn positions; fifos, links, sparse files beyond 2 and 4 GiB, unopenable names. Distinct: hash of contents and of what the monitor injected.",
    "C15": "dd_dlt runs with reads and writes cut short, interrupted or failing: every position of small runs, drawn positions of larger ones; refused and missing parameters; failing devices; runs of 42.9 million messages. Distinct: hash of input and faults, if there is a block to write.",
    "C16": LOGS + "Each report of the ripdlt binary is compared line by line with its definition over the reference model's messages. Non-trivial: the log has a message; distinct: hash of log and report.",
    "C17": LOGS + "All operations run over the buffer between inaccessible pages with overflow, alignment and bounds checks, under AddressSanitizer, and (small buffers) under Miri; every returned reference is checked to lie in its message. Non-trivial: not empty; distinct: hash of the buffer.",
    "C18": "17 families of hostile inputs, up to 3 MB, run on a thread with a 512 KB stack; entry reads are counted and the stack depth is taken at each read, in optimised and unoptimised builds. Non-trivial: more than 20 bytes; distinct: hash of the input.",
    "C19": "Files of 14 families (random, no messages, all flags, chains, markers, mutated logs, one thing or a log repeated) through every report, access method, CPU count, optimised and unoptimised builds. Distinct: hash of the file.",
    "C20": LOGS + "2 to 8, at times 70, threads start together and run all operations on one buffer or several of one length, partly on shared iterators; results are compared with a single thread's, natively, under ThreadSanitizer and under Miri with varied schedules. Distinct: hash of log and order of completion.",
    "C21": "Each report, mapped and read, while opening, mapping, reads and writes are cut short, interrupted or fail: at every position of small files and reports, at drawn ones of others; full device, closed pipe, log through a pipe, files and names that do not exist, too few and too many arguments. Compared with the undisturbed run. Distinct: hash of the report, the faults drawn and what was injected.",
    "C22": "Hostile and mixed inputs of 100 to 200 kB and 16 copies of each: every operation runs on both, and its peak heap use may not grow with the copies. Reports on a mapped log of several hundred copies, within the memory (plus a quarter and 4 MB) that one copy needs. Distinct: hash of the input and the operation, if the copies give more results than the input.",
}
