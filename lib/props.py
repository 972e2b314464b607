"""What each property's check builds and runs."""
import os, shutil, subprocess
from simrun import VERIF, REPO, PY, Variant, sh, HarnessError, BuildViolation

CSIM = os.path.join(VERIF, 'csim')


class Spec:
    rule = ''
    state_measure = ''
    real = []
    stub = []
    assumptions = []
    expect = []

    def __init__(self, prop):
        self.prop = prop


def parallel(jobs):
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: sh(c), jobs))


SAN = ['-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero', '-fno-sanitize-recover=undefined']
COV = '-fsanitize-coverage=trace-pc-guard'


class Csv(Spec):
    real = ['emlearn/eml_csv.h reader and writer', 'emlearn/eml_fileio.h stdio adapter', 'glibc stdio buffering (FILE runs)']
    stub = ['storage device below stdio or below the custom stream (simulated: durable/volatile bytes, short/failed calls, power loss)', 'applications (writer, reader, recovery procedure)']
    state_measure = 'distinct (operation, fault kind and position, outcome, stream kind, medium state class) tuples'
    assumptions = ['appends reach the medium as a prefix (optionally zero-filled tail), as on a journalled or log-structured file system',
                   'the simulated device is faithful to POSIX short-write/short-read semantics']

    RULES = {
        'C01': 'A run is a seeded history of header/row/flush/sync/crash/recover operations on one log; non-trivial: at least one operation with an injected crash or a read-back.',
        'C02': 'A run is a seeded history of header/row/flush operations with faults at chosen write calls.',
        'C03': 'A run is a seeded log content plus a history of read calls with faults at chosen read and seek calls and varying buffer sizes.',
        'C04': 'A run is a seeded interleaving, at single stream calls, of a writer task and a polling reader task.',
    }
    EXPECT = {
        'C01': ['fault_crash', 'fault_crash_lost_tail', 'fault_crash_zero_tail', 'fault_power_loss_in_write', 'torn_tail_cut', 'row_rejected', 'long_logs'],
        'C02': ['fault_w_short', 'fault_w_zero', 'fault_w_neg', 'fault_w_enospc', 'row_rejected', 'long_logs'],
        'C03': ['fault_r_short', 'fault_r_zero', 'fault_r_neg', 'fault_s_keep', 'fault_s_moved', 'fault_s_lost', 'torn_tail', 'long_logs', 'gigabyte_logs'],
        'C04': ['switches', 'poll_no_data', 'poll_partial_row', 'poll_header_early', 'long_logs'],
    }
    RUNS = {'C01': (24000, 600000), 'C02': (24000, 600000), 'C03': (24000, 600000), 'C04': (40000, 1000000)}

    def __init__(self, prop):
        super().__init__(prop)
        self.rule = self.RULES[prop]
        self.expect = self.EXPECT[prop]

    def build(self, d):
        san = SAN if self.prop != 'C04' else []
        o, x = d + '/sut.o', d + '/sim'
        parallel([
            ['clang', '-I' + REPO + '/emlearn', '-g', '-O1', '-std=c99', '-w', *san, COV, '-c', CSIM + '/csv_sut.c', '-o', o],
            ['clang++', '-std=c++17', '-g', '-O1', '-w', *(['-fsanitize=address'] if san else []), '-c', CSIM + '/csv_sim.cpp', '-o', d + '/sim.o'],
        ])
        sh(['clang++', *san, d + '/sim.o', o, '-o', x])
        q, t = self.RUNS[self.prop]
        v = [Variant('csv', [x], q, t)]
        if self.prop == 'C03':
            # a log of gigabytes: without sanitizers and step counting
            sh(['clang', '-I' + REPO + '/emlearn', '-g', '-O2', '-std=c99', '-w', '-c', CSIM + '/csv_sut.c', '-o', d + '/sut-big.o'])
            sh(['clang++', '-std=c++17', '-g', '-O2', '-w', CSIM + '/csv_sim.cpp', d + '/sut-big.o', '-o', d + '/sim-big'])
            v.append(Variant('csv-gigabytes', [d + '/sim-big'], 3, 12, env={'SIM_BIG': '1', 'SIM_CPU': '200'}))
        return v


ACC = '-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores'


class Dev(Spec):
    """Simulators of single devices: kNN store, array windows, filters, benchmark clock."""
    SIMS = {
        # sim source, SUT source, C standard, sanitizer flags, quick runs, thorough runs
        'C08': ('knn_sim', 'dev_sut', 'c99', SAN, 26000, 700000),
        'C09': ('array_sim', 'dev_sut', 'c99', SAN, 26000, 700000),
        'C10': ('iir_sim', 'dev_sut', 'c99', [], 26000, 700000),
        'C11': ('clock_sim', 'clock_sut', 'gnu99', ['-fsanitize=undefined', '-fno-sanitize-recover=undefined'], 40000, 900000),
    }
    RULES = {
        'C08': 'A run is a seeded history of add, predict, rejected calls, checkpoints and brown-out restarts on one model; every prediction is compared with a plain 64-bit kNN over the accepted items, every rejected call with the state before it.',
        'C09': 'A run is a seeded schedule of chunks into 1-3 windows with rejected operations and restarts in between; after every operation all windows are compared with the list of the latest rows.',
        'C10': 'A run is a seeded preemptive schedule of 1-4 filter tasks with saves, restarts into new instances, power cuts inside a call and rejected initialisations; every output is compared bit for bit with the instance running alone, and that with a double-precision cascade.',
        'C11': 'A run is a seeded history of readings, work, suspensions and wall-clock steps, sets and slews; every pair of readings is compared with the simulated time between them.',
    }
    STATES = {
        'C08': 'distinct (operation, k, tie at the k-th distance, label range, outcome, items) tuples',
        'C09': 'distinct (operation, kind of rejection or chunk size, outcome) tuples',
        'C10': 'distinct (stages, number of concurrent instances) tuples; interleavings are counted by the event-log hash',
        'C11': 'distinct (sign of the wall clock offset, magnitude of the uptime) pairs',
    }
    EXPECT = {
        'C08': ['fault_full_store', 'fault_label_out_of_range', 'fault_restart', 'fault_short_scratch', 'fault_too_few_items', 'fault_wrong_length_add', 'fault_wrong_length_query', 'boundary_ties'],
        'C09': ['fault_bad_%d' % i for i in range(16)] + ['fault_restart', 'fault_unsupported_type'],
        'C10': ['fault_bad_init', 'fault_powercut', 'fault_restart', 'fault_preemption', 'saves'],
        'C11': ['fault_process_suspended', 'fault_wall_set', 'fault_wall_slew', 'fault_wall_step_back', 'fault_wall_step_forward'],
    }
    REAL = {'C08': ['emlearn/eml_neighbors.h', 'emlearn/eml_qsort.h'], 'C09': ['emlearn/eml_array.h'], 'C10': ['emlearn/eml_iir.h'], 'C11': ['emlearn/eml_benchmark.h (its branches for Unix, Zephyr, Windows and Arduino)']}
    STUB = {'C08': ['device memory across a restart', 'application'], 'C09': ['sample source', 'device memory across a restart'],
            'C10': ['task scheduler (simulated RTOS)', 'checkpoint storage', 'signal source'], 'C11': ['operating system clocks (clock_gettime, gettimeofday, time, clock)', 'clock APIs of Zephyr, Windows and Arduino', 'passage of time']}

    def __init__(self, prop):
        super().__init__(prop)
        self.rule, self.state_measure, self.expect = self.RULES[prop], self.STATES[prop], self.EXPECT[prop]
        self.real, self.stub = self.REAL[prop], self.STUB[prop]

    def build(self, d):
        sim, sut, std, san, q, t = self.SIMS[self.prop]
        asan = ['-fsanitize=address'] if '-fsanitize=address,undefined' in san else []
        if self.prop == 'C11':
            # the Unix branch, and those of the other platforms with their APIs over the simulated clocks
            plat = [('device', 0, [], 2), ('zephyr', 1, ['-D__ZEPHYR__'], 4), ('windows', 2, ['-D_WIN32'], 4), ('arduino', 3, ['-DARDUINO=10800'], 4)]
            no_unix = ['-U__unix__', '-U__unix', '-Uunix', '-U__linux__']
            parallel([['clang', '-I' + REPO + '/emlearn', '-I' + CSIM + '/platform', '-DPLATFORM=%d' % k, *(no_unix if k else []), *f, '-g', '-O1', '-std=' + std, '-w', *san, ACC, '-c', CSIM + '/clock_sut.c', '-o', d + '/sut-%s.o' % n] for n, k, f, _ in plat] +
                     [['clang++', '-std=c++17', '-g', '-O1', '-w', '-c', CSIM + '/clock_sim.cpp', '-o', d + '/sim.o']])
            v = []
            for n, k, f, w in plat:
                sh(['clang++', *san, d + '/sim.o', d + '/sut-%s.o' % n, '-o', d + '/sim-' + n])
                v.append(Variant(n, [d + '/sim-' + n], q // w, t // w))
            return v
        # unoptimised code has the most preemption points: every access to a variable is one
        opts = ['1', '0'] if self.prop == 'C10' else ['1']
        parallel([['clang', '-I' + REPO + '/emlearn', '-g', '-O' + o, '-std=' + std, '-w', *san, ACC, '-c', '%s/%s.c' % (CSIM, sut), '-o', d + '/sut%s.o' % o] for o in opts] +
                 [['clang++', '-std=c++17', '-g', '-O1', '-w', *asan, '-c', '%s/%s.cpp' % (CSIM, sim), '-o', d + '/sim.o']])
        v = []
        for o in opts:
            sh(['clang++', *san, d + '/sim.o', d + '/sut%s.o' % o, '-o', d + '/sim' + o])
            v.append(Variant('device' if o == '1' else 'device-O' + o, [d + '/sim' + o], q // len(opts), t // len(opts)))
        return v


class Rtos(Spec):
    """Simulated RTOS running the computational units of the library and of generated code."""
    RULES = {
        'C05': 'A run is a seeded preemptive schedule of 2-4 tasks calling the units of the library and of 26 generated models; every result is compared bit for bit with the same task running alone in a fresh process.',
        'C06': 'A run is a seeded history of valid, rejected and NaN/inf-fed calls over dirty working memory; probes are compared with the only call of a fresh process, rejected calls with the state before them.',
        'C07': 'A run is a seeded sequence of calls under an allocator that refuses (all or most of) what the code under test asks for, compared with the same sequence under a working allocator.',
    }
    EXPECT = {
        'C05': ['fault_preemption', 'fault_preemption_at_shared_access', 'switches', 'calls', 'fault_rejected_calls'],
        'C06': ['fault_dirty_memory', 'fault_input_empty', 'fault_input_long', 'fault_input_short', 'fault_input_negative_length', 'fault_unusable_configuration', 'fault_input_missing',
                'fault_output_short', 'fault_output_long', 'fault_output_missing', 'fault_scratch_short', 'fault_special_values', 'probes'],
        'C07': ['fault_allocator_refusing_runs', 'calls_without_heap'],
    }
    real = ['emlearn/*.h: trees, net, bayes, mixture, distance, neighbors, fft, vector, audio, iir, quantizer, array, csv', 'convert() and save(): code generated by the current tree for 26 models']
    stub = ['task scheduler (simulated RTOS: ucontext tasks preempted at instrumented basic blocks and memory accesses)', 'heap (simulated failing allocator in C07)', 'sensor inputs', 'CSV stream (memory)']
    assumptions = ['instrumented loads, stores and basic-block edges of the -O1 build are the preemption points; finer ones inside one access are not simulated', 'memcpy/memset calls of the code under test are replaced by instrumented loops']
    RUNS = {'C05': (30000, 700000), 'C06': (24000, 500000), 'C07': (40000, 800000)}

    def __init__(self, prop):
        super().__init__(prop)
        self.rule, self.expect = self.RULES[prop], self.EXPECT[prop]
        self.state_measure = 'distinct (unit, operation, input or rejection kind, outcome) tuples; interleavings are counted by the event-log hash'

    def build(self, d):
        gm = d + '/models'
        shutil.rmtree(gm, ignore_errors=True)
        generate_models(gm)
        inc = ['-I' + REPO + '/emlearn', '-I' + gm, '-g', '-O1', '-std=c99', '-w', '-fno-builtin']
        jobs = [
            ['clang', *inc, ACC, '-c', CSIM + '/units.c', '-o', d + '/units.o'],
            ['clang++', '-std=c++17', '-g', '-O1', '-w', '-c', CSIM + '/rtos_sim.cpp', '-o', d + '/rtos.o'],
        ]
        if self.prop == 'C05':
            jobs += [['clang', *[x if x != '-O1' else '-O0' for x in inc], ACC, '-c', CSIM + '/units.c', '-o', d + '/units0.o']]
        if self.prop == 'C06':
            jobs += [['clang', '-fsanitize=address', *inc, COV, '-c', CSIM + '/units.c', '-o', d + '/unitsa.o'],
                     ['clang++', '-DSIM_ASAN', '-fsanitize=address', '-std=c++17', '-g', '-O1', '-w', '-c', CSIM + '/rtos_sim.cpp', '-o', d + '/rtosa.o']]
        try:
            parallel(jobs)
        except HarnessError:
            # each generated header alone compiles, all of them in one program do not: they disturb one another
            bad = []
            for h in sorted(os.listdir(gm)):
                if h.endswith('.h'):
                    with open(d + '/one.c', 'w') as f:
                        f.write('#include "%s"\nint main(void) { return 0; }\n' % h)
                    sh(['clang', *inc, '-c', d + '/one.c', '-o', d + '/one.o'])
            with open(d + '/all.c', 'w') as f:
                f.write(''.join('#include "%s"\n' % h for h in sorted(os.listdir(gm)) if h.endswith('.h')) + 'int main(void) { return 0; }\n')
            r = subprocess.run(['clang', *inc, '-c', d + '/all.c', '-o', d + '/all.o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildViolation('models-clash', 'generated models that compile alone do not compile in one program: ' + r.stdout.decode(errors='replace').split('\n')[0])
            raise
        sh(['clang++', d + '/rtos.o', d + '/units.o', '-lm', '-o', d + '/sim'])
        q, t = self.RUNS[self.prop]
        v = [Variant('rtos', [d + '/sim'], q, t)]
        if self.prop == 'C05':
            sh(['clang++', d + '/rtos.o', d + '/units0.o', '-lm', '-o', d + '/sim0'])
            v[0].quick, v[0].thorough = q // 2, t // 2
            v.append(Variant('rtos-O0', [d + '/sim0'], q // 2, t // 2))
        if self.prop == 'C06':
            sh(['clang++', '-fsanitize=address', d + '/rtosa.o', d + '/unitsa.o', '-lm', '-o', d + '/sima'])
            v.append(Variant('rtos-asan', [d + '/sima'], 6000, 120000))
        return v


class Pipe(Spec):
    """Device programs from sensor to log: filter, window, features, model and CSV log under preemption, power cuts and storage faults."""
    rule = 'A run is 1-3 pipelines of two preempted tasks each and a task using other units, with power cuts, sensor faults, write, sync and read faults; every row is compared with the undisturbed run of the real code over the same samples, and the log with the acknowledged rows.'
    state_measure = 'distinct (model, features, restart mode, boots), recovery and power-cut state tuples; interleavings are counted by the event-log hash'
    real = ['emlearn/eml_iir.h, eml_array.h, eml_fft.h, eml_audio.h, eml_vector.h, eml_quantizer.h, eml_csv.h, eml_fileio.h, eml_trees.h, eml_net.h, eml_bayes.h, eml_mixture.h, eml_neighbors.h', 'convert() and save(): code generated by the current tree for 26 models', 'glibc stdio (FILE logs)']
    stub = ['task scheduler (simulated RTOS)', 'storage device (simulated: durable/volatile bytes, short/failed calls, power loss)', 'sensors', 'the firmware tying the calls together', 'checkpoint storage']
    assumptions = ['preemption and power cuts happen at instrumented basic blocks and memory accesses of library and generated code, and at device calls', 'unsynced log bytes survive a power cut as a prefix with an optional zero-filled end; truncation is durable at once']
    expect = ['fault_power_cut', 'fault_lost_tail', 'fault_zero_tail', 'fault_write_short', 'fault_write_zero', 'fault_write_neg', 'fault_write_full', 'fault_sync_failed', 'fault_read_short', 'fault_read_neg', 'fault_read_zero',
              'fault_sensor_dropout', 'fault_sensor_nan', 'fault_sensor_inf', 'fault_samples_missed', 'fault_checkpoint_torn', 'restores', 'rows_recomputed', 'torn_tail_cut', 'fault_preemption', 'noise_calls']
    RUNS = {'C19': (14000, 300000)}

    def build(self, d):
        gm = d + '/models'
        shutil.rmtree(gm, ignore_errors=True)
        generate_models(gm)
        inc = ['-I' + REPO + '/emlearn', '-I' + gm, '-I' + CSIM, '-g', '-std=c99', '-w', '-fno-builtin']
        parallel([['clang', *inc, '-O' + o, ACC, '-c', CSIM + '/pipe_sut.c', '-o', d + '/sut%s.o' % o] for o in '10'] +
                 [['clang++', '-std=c++17', '-g', '-O1', '-w', '-c', CSIM + '/pipe_sim.cpp', '-o', d + '/sim.o']])
        q, t = self.RUNS[self.prop]
        v = []
        for o, part in (('1', 0.75), ('0', 0.25)):
            sh(['clang++', d + '/sim.o', d + '/sut%s.o' % o, '-lm', '-o', d + '/sim' + o])
            v.append(Variant('pipeline' if o == '1' else 'pipeline-O0', [d + '/sim' + o], int(q * part), int(t * part)))
        return v


class Host(Spec):
    """Simulated host (hostsim/hs.py): real emlearn code in a process whose scheduler, file system, processes, clock and names are simulated."""
    HS = os.path.join(VERIF, 'hostsim')
    state_measure = 'distinct (operation, model kind or configuration, fault kind and position class, outcome) tuples; interleavings are counted by the event-log hash'
    REAL = {
        'C12': ['emlearn.convert and all wrappers, code generation, distutils compiler calls, gcc and the compiled programs'],
        'C13': ['emlearn wrappers, run_classifier, mixture.predict, gcc and the compiled programs'],
        'C18': ['emlearn.convert, save and code generation'],
        'C15': ['emlearn.arduino.install (function and command line), shutil, os'],
        'C16': ['emlearn.evaluate.size, the platform makefiles, make, avr-gcc, arm-none-eabi-gcc and binutils'],
        'C17': ['emlearn.common.compile_executable and build_classifier, emlearn.convert and the wrappers, distutils, gcc and the programs built'],
        'C14': ['save() of all model kinds, eml-window-function and eml-mel-filterbank, Python file objects'],
    }
    STUB = ['thread and process scheduler (one actor at a time, preempted at lines of the code under test and at process starts)',
            'file-system calls below the scratch directory (libc interposition)', 'process creation (real programs, faults in between; compilations cached by content)',
            'clock, random and temporary names', 'Keras model (object with the attributes convert() reads)']
    RULES = {
        'C12': 'A run is a seeded history of conversions, predictions, saves, deletions, refits and in-place changes of estimators, with 0-3 preempted threads or processes; every prediction is compared exactly with that of a process that did nothing else (and those with the estimators).',
        'C13': 'A run is a seeded sequence of predictions with faults in the compiled program, the compiler or the file system, and of malformed inputs; what is returned must equal the undisturbed result.',
        'C15': 'A run is a seeded sequence of installs and updates of three versions with failing calls, crashes at calls, damaged libraries and 0-3 concurrent installs, ended by one update without faults; library and surroundings are compared with the sources.',
        'C16': 'A run is a seeded sequence of measurements of 18 programs for 6 microcontrollers with faults in make, compiler, linker, objcopy, size and the file system, 0-3 of them by preempted threads or processes with colliding temporary names; sizes must equal the undisturbed measurement (itself checked against known differences) or be refused, and nothing may be left behind.',
        'C17': 'A run is a seeded history of builds (compile_executable and model programs) with changing sources and headers under unchanged time stamps, objects and programs of earlier builds in place, removed and read-only output directories, faults and crashes at compiler starts and file-system calls, and 0-3 preempted threads or processes; a build that reports success must give a program with the output of exactly its sources, and nothing outside the directories given may change.',
        'C14': 'A run is a seeded sequence of saves and tool calls to new, existing, linked, missing and read-only targets, with failing, short and crashing file-system calls and 0-2 preempted threads or processes; the directory is compared before and after.',
        'C18': 'A run is a seeded history of conversions and saves in threads, processes, directories and under another hash seed than the reference; all code is compared byte for byte.',
    }
    EXPECT = {
        'C12': ['fault_preemption', 'switches', 'actors', 'fault_refit', 'fault_estimator_overwritten', 'fault_chdir', 'deletions', 'saves'],
        'C13': ['fault_proc_prog_' + f for f in ('enoent', 'eacces', 'enomem', 'exit', 'kill', 'silent', 'cut', 'cutkill', 'cutexit', 'late', 'errline')] + ['fault_input_nan', 'fault_input_wide', 'predictions_raised', 'conversions_failed'],
        'C15': ['fault_io_write_fail', 'fault_io_write_crash', 'fault_io_mkdir_crash', 'fault_io_openw_fail', 'fault_io_list_fail', 'installs_failed', 'actors', 'fault_library_file_truncate'],
        'C16': ['fault_proc_make_' + f for f in ('enoent', 'exit', 'kill', 'silent', 'late', 'interrupt')] + ['fault_proc_size_' + f for f in ('enoent', 'exit', 'kill', 'silent', 'cut', 'cutkill', 'cutexit', 'late')] + ['fault_tool_gcc_missing', 'fault_io_write_fail', 'fault_io_openw_fail', 'fault_io_mkdir_fail', 'actors', 'measurements_raised'],
        'C17': ['fault_source_changed', 'fault_header_changed', 'fault_stale_objects', 'fault_output_removed', 'fault_output_readonly', 'fault_proc_compile_exit', 'fault_proc_link_kill', 'fault_proc_cc_torn', 'fault_io_write_fail', 'fault_proc_link_crashtorn', 'fault_io_mkdir_crash', 'builds_raised', 'conversions_failed', 'actors'],
        'C14': ['fault_io_write_fail', 'fault_io_write_short', 'fault_io_write_crash', 'fault_io_close_fail', 'fault_io_openw_fail', 'saves_raised', 'actors'],
        'C18': ['saves', 'actors', 'fault_chdir', 'fault_preemption', 'fault_refit'],
    }
    RUNS = {'C12': (1400, 30000), 'C13': (1000, 30000), 'C18': (480, 16000), 'C14': (1000, 50000), 'C15': (4000, 150000), 'C16': (1600, 60000), 'C17': (1600, 50000)}
    ZOO = {'C17': [], 'C12': [], 'C13': [], 'C18': ['--code-only'], 'C14': ['--code-only']}
    assumptions = ['preemption happens at line granularity inside emlearn, distutils, os and shutil, and at process starts', 'the programs started (gcc, compiled models) are deterministic']

    def __init__(self, prop):
        super().__init__(prop)
        self.rule, self.expect, self.real, self.stub = self.RULES[prop], self.EXPECT[prop], self.REAL[prop], self.STUB

    def build(self, d):
        cache = d + '/cc-cache'
        shutil.rmtree(cache, ignore_errors=True)
        os.makedirs(cache); os.chmod(cache, 0o777)
        parallel([['gcc', '-shared', '-fPIC', '-O1', '-w', self.HS + '/iofault.c', '-o', d + '/iofault.so', '-ldl'],
                  ['gcc', '-O1', '-w', self.HS + '/procshim.c', '-o', d + '/procshim'],
                  ['gcc', '-w', '-c', self.HS + '/stale.c', '-o', d + '/stale.o']])
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        env.update(SIM_REPO=REPO, SIM_BUILD=d, SIM_PROPERTY=self.prop, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LC_ALL='C')
        if self.prop in self.ZOO:
            r = subprocess.run([PY, self.HS + '/zoo.py', d + '/zoo'] + self.ZOO[self.prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode(errors='replace')
            if r.returncode or 'DISAGREES' in out:
                import re
                m = re.search(r'^(FAILS|DISAGREES) (.*)$', out, re.M)
                if m:
                    why = re.search(r'^WHY (.*)$', out, re.M)
                    raise BuildViolation({'FAILS': 'conversion-fails', 'DISAGREES': 'wrong-without-faults'}[m.group(1)], m.group(2) + (': ' + why.group(1) if why and m.group(1) == 'FAILS' else ''))
                raise HarnessError('zoo: ' + out[-3000:])
        if self.prop == 'C16':
            out = subprocess.run([PY, self.HS + '/p_size.py'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode(errors='replace')
            m = [l for l in out.split('\n') if l.startswith('FAILS ')]
            if m:
                raise BuildViolation('wrong-without-faults', m[0][6:])
            if not os.path.exists(d + '/size-refs.json'):
                raise HarnessError('sizes: ' + out[-3000:])
        sh(['chmod', '-R', 'a+rX', d])
        q, t = self.RUNS[self.prop]
        e = {'LD_PRELOAD': d + '/iofault.so', 'SIM_BUILD': d, 'SIM_REPO': REPO}
        cmd = [PY, self.HS + '/hs.py']
        if self.prop == 'C18':
            return [Variant('host-hash%s' % h, cmd, q // 2, t // 2, env=dict(e, PYTHONHASHSEED=h), chunk=20, timeout=900, serve=True) for h in ('1', '90210')]
        return [Variant('host', cmd, q, t, env=e, chunk=20, timeout=900, serve=True)]


def generate_models(outdir, only=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(SIM_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    sh([PY, os.path.join(VERIF, 'hostsim', 'genmodels.py'), outdir] + ([','.join(only)] if only else []), env=env)


def python_tool(script, out):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    sh([PY, os.path.join(REPO, script), '--out', out], env=env)


class Zephyr(Spec):
    """The Zephyr sensor application (main loop and sampling thread) on a simulated kernel, sensor and flash disk."""
    rule = 'A run is either the whole application (its main loop and its sampling thread) or one or two sampling threads with seeded consumers, on a simulated kernel with preemption, stalled threads, failing and slow sensor and disk, and power cuts; chunks, error counts, features and the log are compared with the samples the sensor gave.'
    state_measure = 'distinct (outcome of a receive, channels, window, session) and (report, chunk number) tuples; interleavings are counted by the event-log hash'
    real = ['platform_examples/zephyr/motion_recognition/src/main.c, sensor_reader.c', 'examples/motion_recognition/motion_preprocessing.h and the filter generated by tools/gravity_lowpass.py', 'emlearn/eml_iir.h, eml_fft.h', 'glibc stdio']
    stub = ['Zephyr kernel (threads, message queues, sleeping, time; stub headers in csim/zephyr)', 'sensor driver', 'flash disk below stdio (durable/volatile bytes, failed, short and slow calls, power loss)', 'USB', 'console (printk lines are read as reports)']
    assumptions = ['preemption happens at instrumented basic blocks and memory accesses, and at kernel, driver and disk calls; never while the scheduler is locked', 'unsynced log bytes survive a power cut as a prefix']
    expect = ['fault_fetch', 'fault_get', 'fault_sensor_slow', 'fault_slow_write', 'fault_write_neg', 'fault_write_short', 'fault_open_failed', 'fault_close_failed', 'fault_power_cut', 'fault_lost_tail', 'fault_preemption',
              'fault_preemption_at_shared_access', 'fault_preemption_at_kernel_call', 'fault_stalled', 'fault_thread_stopped', 'queue_full', 'fault_usb', 'fault_attr_set']
    RUNS = {'C28': (16000, 400000)}

    def build(self, d):
        z, m = REPO + '/platform_examples/zephyr/motion_recognition/src', REPO + '/examples/motion_recognition'
        python_tool('examples/motion_recognition/tools/gravity_lowpass.py', d + '/motion_gravity_lowpass.h')
        inc = ['-I' + CSIM + '/zephyr', '-I' + z, '-I' + m, '-I' + REPO + '/emlearn', '-I' + d, '-g', '-w', '-fno-builtin']
        c = [*inc, '-std=gnu11', '-include', 'zsim.h']
        parallel([['clang', *c, '-O' + o, ACC, '-DZSIM_APP', '-Dmain=app_main', '-c', z + '/main.c', '-o', d + '/main%s.o' % o] for o in '10'] +
                 [['clang', *c, '-O' + o, ACC, '-DZSIM_APP', '-c', CSIM + '/zephyr_reader_sut.c', '-o', d + '/reader%s.o' % o] for o in '10'] +
                 [['clang', *inc, '-std=gnu11', '-O1', '-c', CSIM + '/zephyr_ref_sut.c', '-o', d + '/ref.o'],
                  ['clang++', *inc, '-std=c++17', '-O1', '-c', CSIM + '/zephyr_sim.cpp', '-o', d + '/sim.o']])
        sh(['objcopy', '--keep-global-symbol=zm_features', d + '/ref.o'])
        q, t = self.RUNS[self.prop]
        v = []
        for o, part in (('1', 0.75), ('0', 0.25)):
            sh(['clang++', d + '/sim.o', d + '/main%s.o' % o, d + '/reader%s.o' % o, d + '/ref.o', '-lm', '-o', d + '/sim' + o])
            v.append(Variant('zephyr' if o == '1' else 'zephyr-O0', [d + '/sim' + o], int(q * part), int(t * part)))
        return v


class Log(Spec):
    """The diagnostic log of the library (eml_log.h) over a simulated console."""
    rule = 'A run is 1-4 preempted tasks that classify, regress, add and look up neighbours and log entries of their own with the log on, over a console that fails, stalls and calls back into the library; every result is compared with the same history with the log off, every entry with the facts of the call it is from.'
    state_measure = 'distinct (kind of call, event, number of words) tuples; interleavings are counted by the event-log hash'
    real = ['emlearn/eml_log.h and the log calls of eml_trees.h, eml_neighbors.h (all log levels)']
    stub = ['console (fprintf and printf of the code under test)', 'task scheduler (simulated RTOS)', 'application']
    assumptions = ['preemption happens at instrumented basic blocks and memory accesses, and while the console stalls']
    expect = ['fault_console_failed', 'fault_console_stalled', 'fault_console_calls_back', 'fault_preemption', 'log_entries']
    RUNS = {'C31': (14000, 400000)}

    def build(self, d):
        on, off = [['clang', '-I' + REPO + '/emlearn', '-g', '-O1', '-std=c11', '-w', *SAN, ACC, '-DON=%d' % k, '-c', CSIM + '/log_sut.c', '-o', d + '/%s.o' % n] for k, n in ((1, 'on'), (0, 'off'))]
        parallel([off, ['clang++', '-std=c++17', '-g', '-O1', '-w', '-fsanitize=address', '-c', CSIM + '/log_sim.cpp', '-o', d + '/sim.o']])
        r = subprocess.run(on, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildViolation('log-does-not-compile', 'what compiles with the log off does not with it on: ' + r.stdout.decode(errors='replace').split('\n')[0])
        for n in ('on', 'off'):
            sh(['objcopy', '-w', '--keep-global-symbol=%s_*' % n, d + '/%s.o' % n])
        sh(['clang++', *SAN, d + '/sim.o', d + '/on.o', d + '/off.o', '-o', d + '/sim'])
        q, t = self.RUNS[self.prop]
        return [Variant('log', [d + '/sim'], q, t)]


class Bind(Spec):
    """The Python extension modules, built from the current tree, in a process whose heap fails, holds old contents and ends each block at an inaccessible page."""
    rule = 'A run is a seeded history of up to 12 valid and unusable calls of the extension modules in one process, with allocations failing at chosen requests; each result is compared with that of the call as the only one of a process over other memory, and with the definition in double precision.'
    state_measure = 'distinct (function, form of the data, usable or not, outcome, allocation failed) tuples'
    real = ['bindings/eml_audio.cpp, eml_signal.cpp, emlpy_common.hpp compiled from the current tree', 'emlearn/eml_audio.h, eml_fft.h, eml_vector.h, eml_iir.h', 'pybind11, numpy and the Python interpreter']
    stub = ['heap of the process (failing requests, dirty memory, inaccessible page behind each block)']
    assumptions = ['allocations fail for the requests made inside one call; the interpreter itself survives its own failures']
    expect = ['fault_allocation', 'fault_invalid_arguments', 'calls_raised', 'calls']
    RUNS = {'C30': (4000, 200000)}

    def build(self, d):
        import sysconfig
        inc = subprocess.check_output([PY, '-c', 'import pybind11, sysconfig; print(pybind11.get_include()); print(sysconfig.get_path("include")); print(sysconfig.get_config_var("EXT_SUFFIX"))']).decode().split()
        os.makedirs(d + '/ext', exist_ok=True)
        parallel([['clang++', '-shared', '-fPIC', '-O1', '-std=c++17', '-w', '-fvisibility=hidden', '-I' + REPO + '/bindings', '-I' + REPO + '/emlearn', '-I' + inc[0], '-I' + inc[1], REPO + '/bindings/%s.cpp' % m, '-o', d + '/ext/%s%s' % (m, inc[2])] for m in ('eml_audio', 'eml_signal')] +
                 [['gcc', '-shared', '-fPIC', '-O1', '-w', Host.HS + '/iofault.c', '-o', d + '/iofault.so', '-ldl'], ['gcc', '-O1', '-w', Host.HS + '/procshim.c', '-o', d + '/procshim'],
                  ['gcc', '-shared', '-fPIC', '-O1', '-w', Host.HS + '/memfault.c', '-o', d + '/memfault.so']])
        sh(['chmod', '-R', 'a+rX', d])
        q, t = self.RUNS[self.prop]
        e = {'LD_PRELOAD': d + '/iofault.so ' + d + '/memfault.so', 'SIM_BUILD': d, 'SIM_REPO': REPO}
        return [Variant('bind', [PY, Host.HS + '/hs.py'], q, t, env=e, chunk=20, timeout=900, serve=True)]


class Motion(Spec):
    """Motion feature extraction: histories on the preprocessing, and the offline tool on a failing storage."""
    rule = 'A run is a seeded history of valid and rejected calls on up to three interleaved preprocessors, or one execution of the offline tool with failing, short and torn input and output; features are compared with a fresh process given only the accepted calls and with the definition in double precision, the table on disk with the windows of the input.'
    state_measure = 'distinct (features configured, filter, windows seen) and (tool outcome, configuration) tuples'
    real = ['examples/motion_recognition/motion_preprocessing.h', 'examples/motion_recognition/tools/motion_process.c and the filter generated by tools/gravity_lowpass.py', 'emlearn/eml_iir.h, eml_fft.h, eml_csv.h, eml_fileio.h', 'glibc stdio']
    stub = ['storage device below stdio (simulated: short and failed calls, torn tails)', 'sensor data']
    assumptions = ['a tool that exits with 0 has reported its table as complete']
    expect = ['fault_read_neg', 'fault_read_short', 'fault_seek_failed', 'fault_write_neg', 'fault_write_short', 'fault_close_failed', 'fault_open_failed', 'fault_torn_tail', 'fault_wide_row', 'fault_bad_configuration', 'fault_rejected_calls']
    RUNS = {'C29': (20000, 600000)}

    def build(self, d):
        python_tool('examples/motion_recognition/tools/gravity_lowpass.py', d + '/gravity_filter.h')
        parallel([['clang', '-I' + REPO + '/examples/motion_recognition', '-I' + REPO + '/emlearn', '-I' + d, '-g', '-O1', '-std=gnu11', '-w', *SAN, COV, '-c', CSIM + '/motion_sut.c', '-o', d + '/sut.o'],
                  ['clang++', '-std=c++17', '-g', '-O1', '-w', '-fsanitize=address', '-c', CSIM + '/motion_sim.cpp', '-o', d + '/sim.o']])
        sh(['clang++', *SAN, d + '/sim.o', d + '/sut.o', '-lm', '-o', d + '/sim'])
        q, t = self.RUNS[self.prop]
        return [Variant('motion', [d + '/sim'], q, t)]


def get(prop):
    n = int(prop[1:])
    if prop in Rtos.RUNS:
        return Rtos(prop)
    if n <= 4:
        return Csv(prop)
    if prop in Pipe.RUNS:
        return Pipe(prop)
    if prop in Zephyr.RUNS:
        return Zephyr(prop)
    if prop in Motion.RUNS:
        return Motion(prop)
    if prop in Bind.RUNS:
        return Bind(prop)
    if prop in Log.RUNS:
        return Log(prop)
    if prop in Host.RUNS:
        return Host(prop)
    if prop in Dev.SIMS:
        return Dev(prop)
    raise KeyError(prop)
