#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = 'deterministic simulation with fault injection: '
CLAIMED = {
    'C01': (DST + 'seeded crash/torn-tail histories of the CSV log on a simulated disk, read-back against a model log',
            'Sampled histories and crash points, not exhaustive. Real reader/writer, FILE adapter and glibc stdio; the device below is simulated as a prefix-preserving append log with optional zero-filled tail.'),
    'C02': (DST + 'seeded write-fault sequences under the CSV writer, acknowledgement checked against the bytes accepted by the stream',
            'Sampled fault placements at single write calls, custom stream and stdio with every buffer mode. Assumes stdio and the callback report what they accepted.'),
    'C03': (DST + 'seeded read/seek fault sequences under the CSV reader with exact-size buffers, delivery checked against the stored log, AddressSanitizer and UBSan as memory oracle',
            'Sampled faults, contents and buffer sizes. A buffer smaller than the line plus two bytes may be refused.'),
    'C04': (DST + 'seeded interleavings of writer and tailing reader tasks at single stream calls, delivery checked against the written history, bounded-progress check after the writer stops',
            'Sampled schedules; visibility granularity is one device write split into chunks. stdio buffers of both sides are real.'),
    'C05': (DST + 'seeded instruction-level preemption of tasks using distinct instances (and shared constant models) of generated code, compared bit for bit with each task running alone',
            'Sampled schedules on a simulated single core; preemption points are the basic blocks and memory accesses of the -O1 build.'),
    'C06': (DST + 'seeded histories of valid, rejected and NaN/inf-fed calls over dirty working memory, compared with the only call of a fresh process; AddressSanitizer as memory oracle in a second variant',
            'Sampled histories over 26 generated models and the feature-extraction functions. Rejections are required only where a function has the length it needs to check.'),
    'C07': (DST + 'seeded call sequences under an allocator that refuses every request, compared with the sequence under a working allocator',
            'Sampled sequences; allocator interposed below the code under test (malloc family).'),
    'C08': (DST + 'seeded histories of add, predict, rejected calls and restarts on the on-device kNN store, against a plain 64-bit kNN; step budget from compiler instrumentation as termination check',
            'Sampled histories. Any label that is most voted for some choice among items tied at the k-th integer distance is accepted.'),
    'C09': (DST + 'seeded chunk schedules, rejected operations and restarts on array windows, against the list of the latest rows; AddressSanitizer and UBSan as memory oracle',
            'Sampled schedules on two-dimensional arrays with element sizes 1 to 8.'),
    'C10': (DST + 'seeded instruction-level preemption of filter tasks with checkpoints, restarts and power cuts, bit-compared with each instance alone and with a double-precision cascade',
            'Sampled schedules; stable sections with pole radius up to 0.95; preemption points are basic blocks and memory accesses of the filter code.'),
    'C11': (DST + 'the benchmark clock on a simulated operating-system clock whose wall clock is stepped, set and slewed',
            'Unix, Zephyr, Windows and Arduino branches. The clock functions below eml_benchmark_micros are simulated (stub headers for the other platforms); 2 us plus one tick are allowed.'),
    'C12': (DST + 'seeded histories and preempted threads and processes of convert, predict, save, refit, delete over 18 model kinds with colliding temporary names; each prediction compared exactly with that of a process that did nothing else',
            'Sampled histories. Preemption at Python line granularity in emlearn, distutils, os and shutil and at process starts. Keras itself is replaced by an object with the attributes convert() reads.'),
    'C13': (DST + 'seeded faults in the compiled program, the compiler and the file system under predictions, and malformed inputs; anything returned must equal the undisturbed prediction',
            'Sampled faults at single process starts, output bytes and file-system calls. A row the C code reports as an error, and non-finite or mis-shaped input, must raise.'),
    'C14': (DST + 'seeded failing, short and crashing file-system calls and preempted savers under save() and the command-line generators, directory compared before and after',
            'Sampled faults at libc call granularity on the process, not power loss of the device: what a call reported as done is kept.'),
    'C15': (DST + 'seeded failing calls, crashes, damaged libraries and concurrent installers under the Arduino library installation, library and surroundings compared with the sources',
            'Sampled faults and schedules. stat() itself does not fail; concurrent updates of different versions are not judged.'),
    'C18': (DST + 'seeded histories, threads, processes, directories and hash seeds of code generation, all code compared byte for byte with a fresh process under another hash seed',
            'Sampled histories over 18 model kinds in three fits each.'),
    'C16': (DST + 'seeded faults in make, compiler, linker, objcopy, size and the file system under size measurements, with preempted concurrent measurements and colliding temporary names; sizes compared with undisturbed ones that are themselves checked against known differences',
            'Sampled faults on AVR and ARM Cortex-M with the real toolchains. Failing calls of the clean-up itself are excluded from the nothing-left-behind check.'),
    'C17': (DST + 'seeded build histories with changing sources, objects of earlier builds, faults and crashes at compiler starts and file-system calls, and preempted concurrent builds; each program reported as built is run and compared with its sources',
            'Sampled histories. A compiler that reports success without writing its output is not counted as a failing one; concurrent builds use names of their own.'),
}
CLAIMED['C19'] = (DST + 'seeded power cuts, preemption, sensor faults and storage faults under sensor-to-log pipelines built from the real filter, window, feature, model and CSV code; rows compared with the undisturbed run over the same samples, the log with the acknowledged rows',
            'Sampled schedules and fault sequences. The firmware that ties the calls together and its checkpoints are part of the harness.')
CLAIMED['C28'] = (DST + 'the Zephyr application and its sampling thread on a simulated kernel with seeded preemption, stalls, sensor and disk faults and power cuts; chunks, counters, features and log compared with the samples given',
            'Sampled schedules and fault sequences on one simulated core. Kernel, drivers and disk are simulated behind stub headers; the code of main.c and sensor_reader.c is compiled unchanged.')
CLAIMED['C29'] = (DST + 'seeded histories of accepted and rejected calls on interleaved preprocessors, and the offline tool over a storage with seeded read, seek, write and close faults; features compared with a fresh process and a double-precision definition, the table with the windows of the input',
            'Sampled histories, configurations and faults; AddressSanitizer and UBSan as memory oracle. Changing filter coefficients in mid-stream is only checked for history independence.')
CLAIMED['C30'] = (DST + 'seeded histories of valid and unusable calls of the extension modules in one process with failing allocations, dirty memory and inaccessible pages behind each array; results compared with the call as the only one of a process and with a double-precision definition',
            'Sampled histories, inputs and allocation failures. One failing allocation per call; the report pybind11 itself makes of unconvertible arguments is not subject to failing allocations.')
CLAIMED['C31'] = (DST + 'seeded histories of logging units in preempted tasks over a console that fails, stalls and calls back into the library; results compared with the same history with the log off, entries with the facts of the call',
            'Sampled histories and schedules. Integers are limited to the range of int that the log documents; which entries a call makes is not judged.')
NA = {}
PURE = 'Pure function of its input: no schedule, clock, I/O, fault or history for the property to depend on, so there is nothing for a simulator to decide (checking it would be input generation against a reference, another technique). '
NA.update({
    'C20': PURE + 'The parts of tree inference that do depend on history, preemption and faults are C05-C07, C12, C13.',
    'C21': PURE + 'History, preemption and fault aspects of the networks are C05-C07, C12, C13.',
    'C22': PURE + 'History, preemption and fault aspects of these models are C05-C08, C12, C13.',
    'C23': PURE + 'Reuse and preemption of the feature extractors are C05, C06.',
    'C24': PURE + 'Reuse and preemption of the quantizer are C05, C06.',
    'C25': PURE + 'Reproducibility of the generated text is C18.',
    'C26': PURE,
    'C27': PURE + 'The tool faults around size measurement are C16.',
})
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {
    'version': 1,
    'setup_cmd': 'mkdir -p evidence build replays && python3 -m py_compile check.py lib/simrun.py lib/props.py && rm -rf __pycache__ lib/__pycache__',
    'checks': [{
        'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
        'evidence_file': 'evidence/%s.json' % i, 'technique': CLAIMED[i][0], 'level': 'exploration', 'level_note': CLAIMED[i][1]} for i in ids if i in CLAIMED],
    'not_applicable': [{'property': i, 'reason': NA.get(i, 'Check not built yet.')} for i in ids if i not in CLAIMED],
    'notes': 'No hooks in /repo: every seam used (stream callbacks, stdio, allocator, clock functions, scratch directories, process creation, the compiler found on PATH, audit hooks) already exists. Repairs of genuine defects are the fix: commits, listed in KNOWN_FINDINGS.txt.',
}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
