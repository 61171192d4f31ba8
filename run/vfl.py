"""Builds the library under test from /repo's working tree in instrumented variants, runs workload
processes, aggregates what their monitors report, decides, writes the evidence file."""
import ctypes, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SRC = os.path.join(VERIF, 'src')
NCPU = max(2, min(8, os.cpu_count() or 8))

SAN = '-fsanitize=address,undefined -fno-sanitize=alignment,pointer-overflow,nonnull-attribute -fsanitize-recover=undefined -fno-omit-frame-pointer'
BASE = '-pthread -fPIC -g -w'
VARIANTS = {
    # name:     (compiler, flags, assembly decoder, linker)
    'asm':      ('gcc', '-O2 -DLZMA2_DEC_OPT', True, 'g++'),
    'c':        ('gcc', '-O2', False, 'g++'),
    'cclang':   ('clang', '-O2', False, 'clang++'),
    'asan':     ('clang', '-O1 ' + SAN, False, 'clang++ -fsanitize=address,undefined'),
    'asanasm':  ('clang', '-O1 -DLZMA2_DEC_OPT ' + SAN, True, 'clang++ -fsanitize=address,undefined'),
    'msan':     ('clang', '-O1 -fsanitize=memory -fsanitize-memory-track-origins -fsanitize-recover=memory -fno-omit-frame-pointer', False, 'clang++ -fsanitize=memory'),
    'tsan':     ('clang', '-O1 -fsanitize=thread', False, 'clang++ -fsanitize=thread'),
    'dbg':      ('clang', '-O1 -DFL2_DEBUG=1 ' + SAN, False, 'clang++ -fsanitize=address,undefined'),
    'rmf':      ('gcc', '-O2 -DRMF_CHECK_INTEGRITY', False, 'g++'),
    'st':       ('gcc', '-O2 -DFL2_SINGLETHREAD', False, 'g++'),
    'noxx':     ('gcc', '-O2 -DNO_XXHASH', False, 'g++'),
    # other ways to build the sources (C22): unaligned access by memcpy, packed structs or direct; the decoder for size, with conditional moves (as on
    # Windows), with narrow probabilities; the range encoder without 64-bit arithmetic, with wide probabilities; other levels of optimisation
    'o3m0':     ('gcc', '-O3 -DMEM_FORCE_MEMORY_ACCESS=0 -DNO_PREFETCH', False, 'g++'),
    'm1':       ('clang', '-O3 -DMEM_FORCE_MEMORY_ACCESS=1 -funsigned-char', False, 'clang++'),
    'm2':       ('gcc', '-O1 -fno-strict-aliasing -DMEM_FORCE_MEMORY_ACCESS=2 -D_M_X64', False, 'g++'),
    'small':    ('gcc', '-Os -DHAVE_SMALL -DLZMA_DEC_PROB16', False, 'g++'),
    'no64':     ('gcc', '-O2 -DLZMA_ENC_PROB32 -include %s/no64.h' % SRC, False, 'g++'),
    'o0':       ('gcc', '-O0 -DFL2_NO_INLINE', False, 'g++'),
    'sched':    ('gcc', '-O1 -finstrument-functions', False, 'g++'),
}


def repo_sources():
    c = sorted(glob.glob(os.path.join(REPO, '*.c')))
    h = sorted(glob.glob(os.path.join(REPO, '*.h')))
    s = sorted(glob.glob(os.path.join(REPO, '*.S')))
    return c, h, s


def fhash(paths, extra=''):
    m = hashlib.sha256(extra.encode())
    for p in paths:
        m.update(os.path.basename(p).encode() + b'\0')
        with open(p, 'rb') as f:
            m.update(hashlib.sha256(f.read()).digest())
    return m.hexdigest()[:20]


class BuildError(Exception):
    pass


def run_all(cmds):
    """runs shell commands in parallel; raises on failure"""
    it = iter(cmds); live = []; err = []
    def start():
        for c in it:
            live.append((c, subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))); return True
        return False
    for _ in range(NCPU + 2):
        if not start(): break
    while live:
        c, p = live.pop(0); out, _ = p.communicate()
        if p.returncode: err.append('%s\n%s' % (c, out.decode(errors='replace')))
        start()
    if err: raise BuildError('\n'.join(err[:3]))


def build_harness():
    deps = sorted(glob.glob(SRC + '/*.h')) + [os.path.join(REPO, 'fast-lzma2.h'), os.path.join(REPO, 'fl2_errors.h')]
    return deps


def build(need):
    """need: set of (variant, worker). Returns {(variant, worker): executable}."""
    os.makedirs(BUILD, exist_ok=True)
    c, h, s = repo_sources()
    cmds = []; result = {}
    libs = {}
    tmp = '.tmp%d' % os.getpid()
    hh = fhash(h + [SRC + '/syms.txt', SRC + '/no64.h'])
    for v in sorted({v for v, _ in need}):
        cc, flags, asm, ld = VARIANTS[v]; libs[v] = []
        for f in c + (s if asm else []):
            n = os.path.basename(f); isasm = n.endswith('.S')
            o = os.path.join(BUILD, 'lib-%s-%s-%s.o' % (v, n.rsplit('.', 1)[0] + ('_S' if isasm else ''), fhash([f], cc + flags + BASE + hh))); libs[v].append(o)
            if os.path.exists(o): continue
            if isasm: cmds.append('gcc -DMS_x64_CALL=0 -I%s -c %s -o %s%s && mv %s%s %s' % (REPO, f, o, tmp, o, tmp, o))
            else: cmds.append('%s %s %s -I%s -c %s -o %s%s && objcopy --redefine-syms=%s/syms.txt %s%s && mv %s%s %s' % (cc, flags, BASE, REPO, f, o, tmp, SRC, o, tmp, o, tmp, o))
    deps = build_harness(); objs = {}
    for w in sorted({w for _, w in need} | {'vf', 'vfhook'}):
        f = os.path.join(SRC, w + '.cc'); defs = ''
        kinds = {''}
        if w not in ('vf', 'vfhook'):
            kinds = {('-DNO_XXHASH' if v == 'noxx' else '-DFL2_SINGLETHREAD' if v == 'st' else '') for v, w2 in need if w2 == w}
        for defs in kinds:
            o = os.path.join(BUILD, 'obj-%s-%s.o' % (w, fhash(deps + [f], defs))); objs[w, defs] = o
            if os.path.exists(o): continue
            cmds.append('g++ -O2 -g1 -std=c++17 -w %s -I%s -c %s -o %s%s && mv %s%s %s' % (defs, REPO, f, o, tmp, o, tmp, o))
    if cmds: run_all(cmds)
    links = []
    for v, w in sorted(need):
        defs = '-DNO_XXHASH' if v == 'noxx' else '-DFL2_SINGLETHREAD' if v == 'st' else ''
        os_ = [objs[w, defs], objs['vf', ''], objs['vfhook', '']]
        exe = os.path.join(BUILD, 'exe-%s-%s-%s' % (w, v, hashlib.sha256('|'.join(os_ + libs[v]).encode()).hexdigest()[:20]))
        result[v, w] = exe
        if not os.path.exists(exe):
            links.append('%s -pthread -Wl,-z,noexecstack -o %s%s %s %s -lstdc++ -llzma -lm 2>&1 && mv %s%s %s' % (VARIANTS[v][3], exe, tmp, ' '.join(os_), ' '.join(libs[v]), exe, tmp, exe))
    if links: run_all(links)
    return result


def prune():
    """keeps the build directory small: only the newest entries of each kind stay"""
    try:
        ents = sorted((os.path.getmtime(os.path.join(BUILD, e)), e) for e in os.listdir(BUILD))
    except OSError:
        return
    if len(ents) < 1500: return
    for _, e in ents[:len(ents) - 1000]:
        p = os.path.join(BUILD, e)
        if os.path.isdir(p): shutil.rmtree(p, ignore_errors=True)
        else:
            try: os.remove(p)
            except OSError: pass


# ---------------------------------------------------------------- sanitizer reports
def classify(err):
    """list of (key, text) for the reports found in a process's stderr"""
    out = []
    lines = err.split('\n')
    def frame(i, n=60):
        for j in range(i, min(i + n, len(lines))):
            m = re.match(r'\s+#\d+ 0x[0-9a-f]+ in (\S+) ?(\S*)', lines[j])
            m2 = re.match(r'\s+#\d+ (\S+) (\S+)', lines[j])
            mm = m or m2
            if mm and ('/repo/' in mm.group(2) or mm.group(2).startswith(REPO)):
                return mm.group(1)
        return '?'
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.search(r'ERROR: AddressSanitizer:? (\S+)', l)
        if m:
            out.append(('asan:%s:%s' % (m.group(1), frame(i)), '\n'.join(lines[i:i + 40])))
        m = re.search(r'^(\S+?):(\d+):(\d+): runtime error: (.*)', l)
        if m and not re.search(r'index -1 out of bounds', l):
            out.append(('ubsan:%s:%s' % (os.path.basename(m.group(1)), re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(4))[:80]), l))
        if 'WARNING: MemorySanitizer' in l:
            out.append(('msan:uninit:%s' % frame(i), '\n'.join(lines[i:i + 25])))
        if 'WARNING: ThreadSanitizer' in l:
            kind = l.split('ThreadSanitizer:')[1].split('(pid')[0].strip()
            blk = []; fns = []; j = i; grab = False
            while j < len(lines) and j < i + 120 and not lines[j].startswith('SUMMARY:'):
                blk.append(lines[j])
                if re.match(r'\s+(Write|Read|Previous|Atomic|Mutex|Location|Thread|As if|Cycle)', lines[j]) and not lines[j].strip().startswith(('Location', 'Thread')):
                    f = None
                    for k in range(j + 1, min(j + 12, len(lines))):
                        mm = re.match(r'\s+#\d+ (\S+) (\S+)', lines[k])
                        if not mm: break
                        if '/repo/' in mm.group(2): f = mm.group(1); break
                    if f: fns.append(f)
                j += 1
            out.append(('tsan:%s:%s' % (kind, '/'.join(sorted(set(fns[:2])))), '\n'.join(blk[:70])))
        if re.search(r'Assertion .* failed', l):
            m = re.search(r'(\S+): Assertion `(.*)\' failed', l)
            out.append(('assert:%s' % (m.group(2)[:60] if m else '?'), l))
        i += 1
    return out


# ---------------------------------------------------------------- running
class Stage:
    def __init__(self, variant, worker, count, mode='', extra='', tcount=None, hang=120, procs=None, env=None, shards=None, salt=None):
        self.variant, self.worker, self.count, self.mode, self.extra = variant, worker, count, mode, extra
        self.tcount = tcount if tcount is not None else count * 12
        self.hang, self.procs, self.env = hang, procs, env or {}
        self.salt = variant + extra if salt is None else salt
        self.shards = shards

    def name(self):
        return '%s/%s%s' % (self.variant, self.worker, (':' + self.mode) if self.mode else '')


SANENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:malloc_context_size=12:quarantine_size_mb=64',
    'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=0',
    # memory is poisoned by the hooks, for the library's allocations only: the workload itself is not instrumented
    'MSAN_OPTIONS': 'poison_in_malloc=0:poison_in_free=0:exitcode=0:halt_on_error=0:report_umrs=1:print_stats=0',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=0:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0',
}


_libc = ctypes.CDLL(None, use_errno=True)


def die_with_parent():
    _libc.prctl(1, 9, 0, 0, 0)      # a worker does not outlive its driver


# counters that depend on how threads happened to be scheduled
TIMING = set('timeouts polls_while_running progress_polls compression_polls decompression_polls dec_polls_while_running progress_steps dec_progress_steps held_compressions held_decompressions '
    'held_repetitions interleavings abandoned_while_held abandoned_half_way cancels_measured decompression_cancels_measured refused_while_held freed_while_running freed_with_active_stream cancels '
    'dec_ahead_of_delivery timed_calls waits_compared drains_compared sync_events'.split())

class Runner:
    def __init__(self, prop, tier, seed, deadline):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time(); self.deadline = self.t0 + deadline
        self.lock = threading.Lock()
        self.stat, self.mx, self.dist, self.samples = {}, {}, {}, []
        self.viol = {}          # key -> dict
        self.nviol = 0
        self.refs = {}          # answer -> digest -> stages
        self.cases = {}         # stage -> completed
        self.errors = []; self.truncated = False; self.restarts = 0

    def add_viol(self, key, d):
        with self.lock:
            self.nviol += 1
            # something was found: look a little further for other kinds, then report
            if self.tier == 'quick': self.deadline = min(self.deadline, max(time.time() + 45, self.t0 + 150))
            if key not in self.viol: self.viol[key] = d; d['times'] = 1
            else: self.viol[key]['times'] += 1

    def worker(self, st, exe, start, stride, count):
        """one process over cases start, start+stride, ...; restarts after a crash"""
        crashes = 0
        while start < count and time.time() < self.deadline:
            cmd = [exe, '--seed', str(self.seed), '--start', str(start), '--stride', str(stride), '--count', str(count), '--mode', st.mode, '--salt', st.salt, '--tier', self.tier]
            if st.extra: cmd += ['--extra', st.extra]
            last, ok, why, err = self.drive(st, cmd)
            if ok: return
            crashes += 1
            with self.lock: self.restarts += 1
            key, text = why
            if key == 'deadline':
                self.truncated = True; return
            if key == 'killed':
                # ended from outside (memory guard): try that case alone once
                cmd1 = [exe, '--seed', str(self.seed), '--only', str(last), '--mode', st.mode, '--salt', st.salt, '--tier', self.tier] + (['--extra', st.extra] if st.extra else [])
                _, ok1, why1, _ = self.drive(st, cmd1)
                if not ok1:
                    with self.lock: self.errors.append('%s case %s ended by a signal from outside: %s' % (st.name(), last, text[:200]))
            elif key:
                self.add_viol(key, dict(stage=st.name(), variant=st.variant, worker=st.worker, mode=st.mode, salt=st.salt, extra=st.extra, case=last, text=text[:6000]))
            if crashes >= 12 or last is None: return
            start = last + stride

    def compare(self):
        """the same case must have had the same answer in every build"""
        for (w, mode, salt, extra, k), by in self.refs.items():
            n = sum(len(v) for v in by.values())
            if n > 1: self.stat['answers_compared'] = self.stat.get('answers_compared', 0) + 1; self.stat['builds_compared'] = self.stat.get('builds_compared', 0) + n
            if len(by) < 2: continue
            most = max(by.values(), key=len); case, what = k.split(':', 1)
            for v in by.values():
                if v is most: continue
                for st, note in v[:1]:
                    self.add_viol('builds-differ:' + what.split(':')[0], dict(stage=st.name(), variant=st.variant, worker=w, mode=mode, salt=salt, extra=extra, case=int(case), others=sorted({o.variant for o, _ in most})[:1],
                        text='%s: build %s: %s; builds %s: %s' % (what, '+'.join(sorted({o.variant for o, _ in v})), note, '+'.join(sorted({o.variant for o, _ in most})), most[0][1])))

    def drive(self, st, cmd):
        env = dict(os.environ); env.update(SANENV); env.update(st.env)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, errors='replace', start_new_session=True, preexec_fn=die_with_parent)
        last = [None]; tick = [time.time()]; done = [0]
        errbuf = []
        def rd_err():
            n = 0
            for l in p.stderr:
                n += len(l)
                if n < 400000: errbuf.append(l)
        te = threading.Thread(target=rd_err, daemon=True); te.start()
        loc = dict(stat={}, mx={}, dist={}, samples=[], viol=[])
        def rd_out():
            for l in p.stdout:
                t = l[0:2]; tick[0] = time.time()
                try:
                    if t == 'C ': last[0] = int(l[2:]); done[0] += 1
                    elif t == 'S ': k, v = l[2:].split(); loc['stat'][k] = loc['stat'].get(k, 0) + int(v)
                    elif t == 'M ': k, v = l[2:].split(); loc['mx'][k] = max(loc['mx'].get(k, 0), int(v))
                    elif t == 'D ': k, v = l[2:].split(); loc['dist'].setdefault(k, set()).add(v)
                    elif t == 'R ':
                        _, k, dg, note = l.rstrip('\n').split(' ', 3)
                        with self.lock: self.refs.setdefault((st.worker, st.mode, st.salt, st.extra, k), {}).setdefault(dg, []).append((st, note))
                    elif t == 'E ': loc['samples'].append(l[2:].strip()[:400])
                    elif t == 'V ':
                        _, c, rest = l.split(' ', 2); k, _, msg = rest.partition(' | ')
                        self.add_viol(k.strip(), dict(stage=st.name(), variant=st.variant, worker=st.worker, mode=st.mode, salt=st.salt, extra=st.extra, case=int(c), text=msg.strip()[:6000]))
                except ValueError:
                    pass
        to = threading.Thread(target=rd_out, daemon=True); to.start()
        why = None; base_cpu = None; base_case = object(); watch = time.time()
        def cpu():
            try:
                f = open('/proc/%d/stat' % p.pid).read().rsplit(')', 1)[1].split(); return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
            except Exception: return None
        while True:
            try:
                p.wait(timeout=0.5); break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            if last[0] != base_case: base_case = last[0]; base_cpu = cpu(); watch = now
            if now > self.deadline + (5 if self.nviol else 60):
                os.killpg(p.pid, signal.SIGKILL); p.wait(); why = ('deadline', ''); break
            if now - max(tick[0], watch) > st.hang and now - watch > st.hang:
                c0 = cpu(); time.sleep(10); c1 = cpu()
                if p.poll() is not None: break
                used = (c1 or 0) - (base_cpu or 0); idle = c0 is not None and c1 is not None and c1 - c0 < 0.05
                if last[0] == base_case and (idle or used > st.hang * 0.4):
                    st_txt = stacks(p.pid)
                    os.killpg(p.pid, signal.SIGKILL); p.wait()
                    why = ('hang:' + ('idle' if idle else 'busy'), 'no progress for %.0f s in case %s, %.1f s of processor time; %s' % (now - watch, last[0], used, st_txt)); break
                watch = time.time() if not idle and used <= st.hang * 0.4 else watch
        to.join(20); te.join(20)
        err = ''.join(errbuf)
        rep = classify(err)
        with self.lock:
            for k, v in loc['stat'].items(): self.stat[k] = self.stat.get(k, 0) + v
            for k, v in loc['mx'].items(): self.mx[k] = max(self.mx.get(k, 0), v)
            for k, v in loc['dist'].items(): self.dist.setdefault(k, set()).update(v)
            if len(self.samples) < 12: self.samples += loc['samples'][:4]
            self.cases[st.name()] = self.cases.get(st.name(), 0) + done[0]
        for k, t in rep:
            self.add_viol(k, dict(stage=st.name(), variant=st.variant, worker=st.worker, mode=st.mode, salt=st.salt, extra=st.extra, case=last[0], text=t[:6000]))
        if why: return last[0], False, why, err
        rc = p.returncode
        if rc == 0 or (rc == 66 and any(k.startswith('tsan') for k, _ in rep)): return last[0], True, None, err
        if rc == -signal.SIGKILL: return last[0], False, ('killed', err[-500:]), err
        if rep: return last[0], False, (None, ''), err      # already reported
        return last[0], False, ('crash:%s' % (signal.Signals(-rc).name if rc < 0 else 'exit%d' % rc), err[-3000:]), err

    def run(self, stages):
        need = {(s.variant, s.worker) for s in stages}
        exes = build(need)
        self.t_build = time.time() - self.t0
        jobs = []
        for s in stages:
            n = s.tcount if self.tier == 'thorough' else s.count
            k = s.shards or (s.procs or NCPU) * 2
            k = max(1, min(k, n))
            for i in range(k): jobs.append((s, exes[s.variant, s.worker], i, k, n))
        # interleave the stages
        jobs.sort(key=lambda j: j[2])
        q = queue.Queue()
        for j in jobs: q.put(j)
        def loop():
            while True:
                try: j = q.get_nowait()
                except queue.Empty: return
                if time.time() > self.deadline:
                    self.truncated = True; return
                try: self.worker(*j)
                except Exception as e:      # noqa
                    with self.lock: self.errors.append('driver: %r' % e)
        ts = [threading.Thread(target=loop) for _ in range(NCPU)]
        [t.start() for t in ts]; [t.join() for t in ts]


def stacks(pid):
    try:
        r = subprocess.run(['gdb', '-p', str(pid), '-batch', '-ex', 'thread apply all bt 8'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=40, errors='replace')
        ls = r.stdout.split('\nThread '); ls = [l for t in [ls[0]] + ls[:0:-1] for l in ('Thread ' + t).split('\n') if l.startswith(('#', 'Thread'))]
        return ' || '.join(ls)[:4000]
    except Exception:
        return ''


def known():
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            l = l.strip()
            if l and not l.startswith('#'): out.append(l)
    except OSError:
        pass
    return out


def main(spec):
    """spec: {property: dict(stages=[...], rule=..., level=..., assumptions=[...], min=...)}"""
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier'); ap.add_argument('--replay'); ap.add_argument('--stage', type=int); ap.add_argument('--scale', type=float)
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop; sp = spec[prop]
    if a.replay:
        d = json.load(open(a.replay)); exes = build({(d['variant'], d['worker'])})
        cmd = [exes[d['variant'], d['worker']], '--seed', str(d['seed']), '--only', str(d['case']), '--mode', d['mode'], '--salt', d.get('salt', ''), '--tier', d['tier'], '--verbose'] + (['--extra', d['extra']] if d['extra'] else [])
        env = dict(os.environ); env.update(SANENV)
        for v in d.get('others', []):       # the answers of another build first
            c2 = [build({(v, d['worker'])})[v, d['worker']]] + cmd[1:]; print(' '.join(c2), flush=True); subprocess.call(c2, env=env)
        print(' '.join(cmd), flush=True); sys.exit(subprocess.call(cmd, env=env))
    R = Runner(prop, tier, seed, sp.get('deadline', 560) if tier == 'quick' else sp.get('tdeadline', 5400))
    stages = sp['stages']
    if a.stage is not None: stages = [stages[a.stage]]
    if a.scale:
        for s in stages: s.count = max(1, int(s.count * a.scale))
    try:
        R.run(stages); R.compare()
    except BuildError as e:
        print('BUILD FAILED\n' + str(e)); return 2
    prune()
    kn = [k for k in known() if ('property=%s ' % prop) in k and not k.startswith('fixed:')]
    hits = {}; bad = []
    for key, d in R.viol.items():
        m = None
        for k in kn:
            km = re.search(r'key=(\S+)', k)
            if km and km.group(1) == key.replace(' ', '_') : m = k
        if m: hits[m] = hits.get(m, 0) + d['times']
        else: bad.append((key, d))
    for k in kn:
        print('KNOWN-FINDING: %s' % re.sub(r'^known:\s*', '', k))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True); rd = os.path.join(VERIF, 'build', 'replay'); os.makedirs(rd, exist_ok=True)
    total = sum(R.cases.values())
    cov = dict(evaluations=total, distinct_nontrivial=len(R.dist.get('nontrivial', ())), rule=sp['rule'], samples=R.samples[:8] or ['(none)'],
               cases_by_stage=R.cases, observed=dict(sorted(R.stat.items())), maxima=dict(sorted(R.mx.items())),
               distinct={k: len(v) for k, v in R.dist.items() if k != 'nontrivial'}, build_s=round(R.t_build, 1), truncated_by_deadline=R.truncated, worker_restarts=R.restarts)
    ev = dict(property=prop, tier=tier, seed=seed, level=sp.get('level', 'exploration'), coverage=cov, assumptions=sp.get('assumptions', []), wall_s=round(time.time() - R.t0, 2), violations=len(bad))
    rc = 0
    for n, (key, d) in enumerate(sorted(bad)):
        d.update(property=prop, key=key, seed=seed, tier=tier)
        path = os.path.join(rd, '%s-%d.json' % (prop, n))
        json.dump(d, open(path, 'w'), indent=1)
        if n < 8:
            print('%s: [%s] x%d case %s: %s' % (prop, key, d['times'], d['case'], d['text'].replace('\n', ' ')[:700]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    if not bad:
        # the run must have observed something: a monitor that saw nothing decides nothing
        for k, v in sp.get('floor', {}).items():
            # the floors only have to notice a monitor that no longer sees anything: counts vary with the machine's speed and scheduling
            v = int(v * (0.15 if k in TIMING else 0.5)) or 1
            got = total if k == 'evaluations' else len(R.dist.get(k, ())) if k in R.dist else R.stat.get(k, 0)
            if got < v and not a.scale and a.stage is None and not R.truncated:
                print('%s: monitor saw only %d of %s (floor %d)' % (prop, got, k, v)); rc = 2
        if R.errors: print('\n'.join(R.errors[:5])); rc = 2
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d distinct non-trivial, %d kinds of violation, %.1f s (build %.1f)' % (prop, tier, total, cov['distinct_nontrivial'], len(bad), ev['wall_s'], R.t_build))
    return rc
