"""Which suites decide which property, and in which build of the code under test."""


def L(suite, flavour="plain", weight=1.0, scale=1.0, ref=False):      # linked with the library
    return dict(suite=suite, flavour=flavour, lib=True, programs=None, weight=weight, scale=scale, ref=ref)


def P(suite, programs="plain", weight=1.0, scale=1.0, ref=False):     # drives the programs
    return dict(suite=suite, flavour="plain", lib=False, programs=programs, weight=weight, scale=scale, ref=ref)


CHECKS = {
    "C01": [L("c01", weight=2), P("cli01"), P("cli01", "release", scale=0.5), L("c01", "release", scale=0.5)],
    "C02": [L("c02"), P("cli02"), L("c02", "asan", scale=0.2), P("giant02")],
    "C03": [L("c03"), L("c03", "asan", scale=0.15)],
    "C04": [L("c04"), P("cli04")],
    "C05": [P("c05")],
    "C06": [L("c06"), P("cli06")],
    "C07": [L("c07"), L("c07", "asan", scale=0.03)],
    "C08": [L("c08"), L("c08", "asan", scale=0.05)],
    "C09": [L("c09"), L("c09", "asan", scale=0.03)],
    "C10": [L("c10"), L("c10", "asan", scale=0.08)],
    "C11": [L("c11"), L("c11", "asan", scale=0.12)],
    "C12": [P("c12")],
    "C13": [P("c13"), P("c13", "release", scale=0.3), P("c13", "asan", scale=0.06)],
    "C14": [L("c14"), L("c14", "asan", scale=0.1)],
    "C15": [L("c01", "asan", scale=0.1), L("c02", "asan", scale=0.15), L("c03", "asan", scale=0.1), L("c07", "asan", scale=0.03),
            P("cli01", "asan", scale=0.08), P("cli02", "asan", scale=0.15), P("c15")],
    "C16": [L("c16")],
    "C17": [L("c17", ref=True), P("cli17")],
    "C19": [L("c19", ref=True), P("cli19", ref=True)],
    "C20": [L("c20", "cov", ref=True)],
    "C21": [P("c21")],
    "C22": [P("c22")],
    "C18": [L("c18", ref=True), P("cli18", ref=True)],
}

_IN = ("Inputs are byte strings built from a recorded tape of choices: 1-6 segments of literal, uniform, run, periodic, LZ-copy, "
       "skewed, word, 256-cycle, self-similar, run-length and Fibonacci-frequency data with point edits, lengths biased to block, "
       "section, buffer and power-of-two boundaries, plus pair-rich and deep-code texts. ")
RULES = {
    "C01": _IN + "Each is compressed with drawn coder/BWT/starts/memory/rounds, in memory, through files and through the programs, and decompressed again. Non-trivial: not empty (tiny: >=1 byte, small: >=2, medium: >256); distinct by input bytes and options.",
    "C02": _IN + "One to six replacement rounds in place and into a second buffer, expanded with the grammar in memory and with the stored one, several precompressed blocks per run, and preprocess|postprocess with drawn block sizes, once with a single block of 2^32 bytes. Non-trivial: at least one rule was created (library), or a non-empty input with at least one round (programs).",
    "C03": _IN + "Each block is transformed with divsufsort and SA-IS and 1-256 starting points and compared with a suffix-sorting reference; then inverted. One generator builds texts that exhaust the sorter's work budget inside tandem repeats. Non-trivial: more than two bytes over more than one symbol.",
    "C04": _IN + "Each input is compressed with all three BWT choices, repeatedly, after other inputs in the same process, with verbosity -1 to 10, other file names and option spellings; archives are compared byte for byte. Non-trivial: at least two bytes.",
    "C05": _IN + "Every program runs file to file and then over drawn combinations of eight input kinds (file, redirected from the start or from a later position, whole, chunked or slow pipe, named pipe, socket) and eight output kinds (file, redirected, positioned inside a longer file, appended, pipe, slow pipe, named pipe, socket), with -i/-c or by leaving the name out, plus real shell pipelines; outputs are compared byte for byte. Non-trivial: input not empty.",
    "C06": _IN + "Reported sizes against bytes written; the archive is walked by its length fields to exactly its end; a few streams of more than 4 GiB. Non-trivial: at least one compressed slice (all cases beyond 4 GiB).",
    "C07": "Arbitrary byte blocks (not BWT outputs), arbitrary starting points and section layouts, 1-6 blocks per coder object, for all six coders; decoded values, sizes, and the exact number of bytes consumed are compared. Non-trivial: more than one byte in total.",
    "C08": "Bit sequences with probability sequences drawn from extremes, constants, noise and model outputs, 1-5 sequences per stream; every model against a twin, against its range, and against a fresh model after reset. Non-trivial: more than eight bits.",
    "C09": "Integers of every magnitude through each integer code, frequency tables (uniform, Fibonacci, skewed, ties, single) against a reference Huffman and Kraft's equality, run statistics against a direct count. Non-trivial: more than the one-symbol / one-byte case as stated per code (value >127, more than 4 bits, more than 2 symbols or bytes).",
    "C10": "Histories of adding rules, special symbols and freed symbols (model-based) and grammars left behind by the real pair replacer; written, read back, compared symbol by symbol, and used to expand texts against a reference expander. Non-trivial: the grammar has at least one rule.",
    "C11": _IN + "plus overlapping triples and texts in which nearly all symbols must be freed first; lengths before and after every round, with guard bytes around the block. Non-trivial: a replacement took place (tiny: more than two bytes).",
    "C12": "Faults: file size limits at every byte (small outputs) or drawn bytes, devices and pipes that refuse data, closed descriptors, bad paths, every k-th read/write/close failing (injected with strace), rejected command lines. A case is one job (program, options, input) with all its faults. Non-trivial: the fault actually prevents output or input (output >1 byte, at least one call to fail, or a rejected line).",
    "C13": "Archives of all coders/options and precompressed files, cut at every byte (small) or at drawn bytes, buffer sizes and block boundaries, fed as file or pipe. A case is one archive with all its cuts. Non-trivial: archive longer than 2 bytes (every cut) or 300 bytes (drawn cuts), or several blocks.",
    "C14": "Generated histories of byte/block/48-bit writes, position queries, back-patches and flushes on named files, redirected, offset, appended and piped stdout; and of bit/byte/block/48-bit reads and end queries on files, redirected stdin and pipes; lengths aimed at the 64 KB buffers, a few beyond 4 GiB. Compared with an in-memory model. Non-trivial: at least two kinds of operation and more than a few bytes.",
    "C15": _IN + "Library and programs built with AddressSanitizer and UBSan (assertions on), and the programs under valgrind memcheck, over round trips. Non-trivial: as in C01, C02, C03, C07.",
    "C16": _IN + "Multi-block inputs: the archive must be the concatenation of what each block compresses to on its own. Non-trivial: at least two slices.",
    "C17": "Cycles of 1-3 blocks repeated 6-10 times with the allocator wrapped: live heap at each cycle boundary and peak per cycle, for compression and decompression, in memory and through files, pipes and appended output; resident memory of the programs for 6 and 18-160 blocks; peaks compared with the version of record. Non-trivial: several blocks per cycle, or blocks over 256 bytes; all program cases.",
    "C19": _IN + "Archive sizes against the version of record (1% + 64 bytes), against the entropy of memoryless sources, and of a text against its repetition. Non-trivial: more than 256 bytes, or at least one rule.",
    "C20": "Highly repetitive texts (runs, periodic, Fibonacci and Thue-Morse strings, copies, doubled and mirrored), the general byte strings, pair-rich texts, many-block inputs, periodic blocks of up to 20 MB, and runs through files, pipes and appended files; the number of basic blocks executed (compiler instrumentation, deterministic) and bytes moved are bounded by a constant per byte plus a fixed cost per block and round, and by four times what the version of record needs, and the number of read and write calls by the length. Non-trivial: more than 20000 bytes.",
    "C21": "Every program on generated inputs in a directory with other files, odd file names, relative and absolute paths, read-only inputs, and an output file that is absent, shorter, equal or longer than the result (also archives that are cut short), with drawn permissions, under a drawn umask, and reached through a symbolic link: the directory is compared before and after, and the output with the one written without any history. Non-trivial: input longer than one byte.",
    "C22": "Crash points: a job (program, options, input) is stopped by a signal or a write error at every byte of a small output, at drawn bytes of larger ones, and at every (or drawn) open, write, seek and close of the output file or read of the input (strace; drawn signals and errors), over nothing or over an older complete output; plus archives cut at drawn bytes. What is left behind is given to the decompressor or compared with the original. A case is one job with all its stops. Non-trivial: output longer than one byte, or at least one call to stop at.",
    "C18": _IN + "Each is compressed (precompressed) by the tree under test and by the version of record, a frozen copy of the sources in /verif/ref, and each side restores what the other wrote, in memory and through the programs. Non-trivial: more than one byte.",
}
ASSUME = ["the compilers and the C/C++ runtime libraries are correct", "the harness engine, generators and reference models in /verif/harness are correct",
          "a generated-input search shows presence of violations, never their absence outside the cases explored"]
assert set(RULES) == set(CHECKS)
