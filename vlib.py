"""Build + run machinery shared by the checks."""
import os, sys, json, subprocess, tempfile, shutil, time, hashlib, re, fcntl
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CLOX_REPO', '/repo')
SRCS = "debug.c memory.c chunk.c value.c scanner.c compiler.c vm.c object.c string.c array.c map.c options.c vendor/vec.c nodes.c parser.c table.c runtime.c process.c signal.c io.c file.c dir.c thread.c block.c rand.c time.c repl.c debugger.c regex_lib.c regex.c socket.c errors.c binding.c vendor/linenoise.c".split()
DEFS = ['-std=c99', '-I.', '-Ivendor', '-pthread', '-DNAN_TAGGING', '-DCOMPUTED_GOTO', '-DLX_BUILT_DIR=/repo', '-D_GNU_SOURCE', '-DCLOX_VERIF']
BC = ['clang-18', '-O1', '-g0', '-fno-vectorize', '-fno-slp-vectorize', '-fno-inline-functions', '-fno-builtin-printf', '-ffp-contract=off', '-w', '-emit-llvm', '-c']
HFLAGS = ['-Wno-everything'] 
def symex():
    p = os.path.join(V, 'build', 'symex')
    if not os.path.exists(p) or any(os.path.getmtime(os.path.join(V, 'engine', f)) > os.path.getmtime(p) for f in os.listdir(os.path.join(V, 'engine'))):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p + '.lock', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            subprocess.check_call([os.path.join(V, 'engine', 'build.sh'), p])
    return p
def sources():
    """every C file the interpreter is built from (taken from the current tree)"""
    s = list(SRCS)
    have = set(s)
    for f in sorted(os.listdir(REPO)):
        if f.endswith('.c') and f not in have and f != 'main.c' and not f.endswith('linenoise.c'):
            # a new file only counts when the Makefile lists it
            mk = open(os.path.join(REPO, 'Makefile')).read()
            if re.search(r'(^|\s)' + re.escape(f) + r'(\s|$)', mk): s.append(f)
    return [f for f in s if os.path.exists(os.path.join(REPO, f))]
def par(cmds, cwd):
    procs = []; fails = []
    q = list(cmds); n = os.cpu_count() or 4
    run = []
    while q or run:
        while q and len(run) < n:
            c = q.pop(0); run.append((c, subprocess.Popen(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        c, p = run.pop(0); o = p.communicate()[0]
        if p.returncode: fails.append((c, o.decode(errors='replace')))
    return fails
def loxheader(d, defs):
    """-DLOX=name embeds harness/lox/name.lox as the string LOXSRC"""
    out = []
    for x in defs:
        if x.startswith('-DLOX='):
            n = x[6:]; h = os.path.join(d, 'lox_%s.h' % n)
            src = open(os.path.join(V, 'harness', 'lox', n + '.lox')).read()
            lines = ['"' + l.replace('\\', '\\\\').replace('"', '\\"').replace('?', '\\?') + '\\n"' for l in src.split('\n')]
            open(h, 'w').write('static const char LOXSRC[] =\n' + '\n'.join(lines) + ';\n')
            out += ['-include', h]
        elif x.startswith('-DLIB='): # -DLIB=a,b embeds lib/a.lox as LIB_a, ...
            h = os.path.join(d, 'lib_%s.h' % hashlib.md5(x.encode()).hexdigest()[:6]); t = ''
            for n in x[6:].split(','):
                p = os.path.join(REPO, 'lib', n + '.lox'); src = open(p).read() if os.path.exists(p) else ''
                t += 'static const char LIB_%s[] =\n' % n + '\n'.join('"' + l.replace('\\', '\\\\').replace('"', '\\"').replace('?', '\\?') + '\\n"' for l in src.split('\n')) + ';\n'
            open(h, 'w').write(t); out += ['-include', h]
        else: out.append(x)
    return out
class Build:
    """compiles the current tree once into a scratch directory"""
    def __init__(self, extra=()):
        self.d = tempfile.mkdtemp(prefix='cloxsym.'); self.extra = list(extra); self.native = None
    def close(self): shutil.rmtree(self.d, ignore_errors=True)
    def bitcode(self):
        t = time.time(); cmds = []; outs = []
        for f in sources():
            o = os.path.join(self.d, f.replace('/', '_') + '.bc'); outs.append(o)
            cmds.append(BC + DEFS + self.extra + [f, '-o', o])
        fails = par(cmds, REPO)
        if fails: raise RuntimeError('bitcode build failed: ' + fails[0][1][-2000:])
        self.all = os.path.join(self.d, 'all.bc')
        subprocess.check_call(['llvm-link-18', '-o', self.all] + outs)
        self.t_bc = time.time() - t
    def harness(self, name, defs=()):
        """links a harness with the interpreter's bitcode"""
        key = hashlib.md5(' '.join(defs).encode()).hexdigest()[:6]
        outs = []
        cmds = []
        defs = loxheader(self.d, defs)
        for f in (name + '.c', 'hx.c', 'libc_model.c'):
            o = os.path.join(self.d, 'h_%s_%s_%s.bc' % (name, key, f)); outs.append(o)
            fl = ['-fno-builtin'] if f == 'libc_model.c' else []
            cmds.append(BC + HFLAGS + fl + DEFS + self.extra + list(defs) + ['-std=gnu11', '-I', os.path.join(V, 'harness'), '-I', REPO, '-I', os.path.join(REPO, 'vendor'), os.path.join(V, 'harness', f), '-o', o])
        fails = par(cmds, REPO)
        if fails: raise RuntimeError('harness build failed: ' + fails[0][1][-2000:])
        out = os.path.join(self.d, '%s_%s.bc' % (name, key))
        subprocess.check_call(['llvm-link-18', '-o', out, self.all] + outs)
        return out
    def nat(self, name, defs=()):
        """native (gcc, address sanitizer) build of the same harness"""
        key = hashlib.md5(' '.join(defs).encode()).hexdigest()[:6]
        exe = os.path.join(self.d, 'n_%s_%s' % (name, key))
        if os.path.exists(exe): return exe
        fl = ['gcc', '-O1', '-g', '-w', '-U_FORTIFY_SOURCE', '-fsanitize=address', '-fno-omit-frame-pointer', '-c']
        if self.native is None:
            cmds = []; outs = []
            for f in sources():
                o = os.path.join(self.d, f.replace('/', '_') + '.o'); outs.append(o)
                cmds.append(fl + DEFS + self.extra + [f, '-o', o])
            fails = par(cmds, REPO)
            if fails: raise RuntimeError('native build failed: ' + fails[0][1][-2000:])
            self.native = outs
        outs = []; cmds = []
        defs = loxheader(self.d, defs)
        for f in (name + '.c', 'hx.c', 'replay.c'):
            o = os.path.join(self.d, 'n_%s_%s_%s.o' % (name, key, f)); outs.append(o)
            cmds.append(fl + DEFS + self.extra + list(defs) + ['-std=gnu11', '-I', os.path.join(V, 'harness'), '-I', REPO, '-I', os.path.join(REPO, 'vendor'), os.path.join(V, 'harness', f), '-o', o])
        fails = par(cmds, REPO)
        if fails: raise RuntimeError('native harness build failed: ' + fails[0][1][-2000:])
        wraps = ''.join(',--wrap=' + w for w in sorted(set(re.findall(r'__wrap_(\w+)', open(os.path.join(V, 'harness', name + '.c')).read()))))
        subprocess.check_call(['gcc', '-rdynamic', '-fsanitize=address', '-Wl,--wrap=exit,--wrap=_exit,' + ','.join('--wrap=' + w for w in 'pthread_mutex_lock pthread_mutex_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_create pthread_join pthread_detach pthread_exit sched_yield pthread_mutex_destroy pthread_cond_destroy'.split()) + wraps, '-o', exe] + outs + self.native + ['-ldl', '-lm', '-pthread'])
        return exe
def run_symex(bc, timeout, known=(), jobs=8, extra=()):
    fd, out = tempfile.mkstemp(suffix='.json'); os.close(fd)
    cmd = [symex(), '-o', out, '-j', str(jobs), '-t', str(timeout)]
    for k in known: cmd += ['-k', k]
    cmd += list(extra) + [bc]
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    try:
        err = p.communicate(timeout=timeout + 120)[1]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); err = b'engine overran its time limit'; p.wait()
    finally:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
    try: r = json.load(open(out))
    except Exception: r = {'fatal': err.decode(errors='replace')[-1500:]}
    r['stderr'] = err.decode(errors='replace')[-3000:]
    os.unlink(out)
    return r
def replay(exe, model_path, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1')
    d = tempfile.mkdtemp(prefix='cloxreplay.')
    try:
        p = subprocess.run([exe, model_path, str(max(5, timeout - 10))], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, stdin=subprocess.DEVNULL)
        rc, err = p.returncode, p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        rc, err = -1, 'replay timed out'
    finally: shutil.rmtree(d, ignore_errors=True)
    return rc, err
