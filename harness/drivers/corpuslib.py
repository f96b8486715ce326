"""Runs operations of the code under test in children forked from a pristine process, each with a home directory of choice,
a number of workers of choice, a deadline, and, on request, a SIGKILL just before the k-th change of a file.

HOME is a symbolic link (codeprep fixes its directories when imported); it is pointed at the home wanted before a child starts."""
import errno, faulthandler, hashlib, json, mmap, os, shutil, signal, struct, sys, time
import prep_common as P


class Lab:
    def __init__(self, scratch, warm=('java', 'py', 'js', 'c')):
        self.scratch = scratch
        self.n = 0
        self.link = os.path.join(scratch, 'h')
        os.makedirs(os.path.join(scratch, 'homes'))
        self.first = self.new_home()
        self.use(self.first)
        os.environ['HOME'] = self.link
        for v in ('XDG_CONFIG_HOME', 'XDG_CACHE_HOME', 'XDG_DATA_HOME'):
            os.environ.pop(v, None)
        os.environ['TZ'] = 'UTC'
        time.tzset()
        sys.dont_write_bytecode = True
        sys.path.insert(0, P.REPO)
        import logging
        logging.disable(logging.CRITICAL)
        self.ctl = None
        if os.environ.get('VERIF_SHIM'):
            with open(os.environ['VERIF_SHIM'], 'r+b') as f:
                self.ctl = mmap.mmap(f.fileno(), 4096)
        import codeprep.api.text, codeprep.api.corpus, codeprep.cli.impl, codeprep.cli.spec      # noqa
        import pygments.lexers, regex, dill, docopt     # noqa
        for e in warm:
            P.lexemes('class A { int a = "s"; } // x\n', e)

    # ------------------------------------------------------------------ homes
    def new_home(self):
        self.n += 1
        d = os.path.join(self.scratch, 'homes', '%d' % self.n)
        os.makedirs(d)
        return d

    def use(self, home):
        tmp = self.link + '.new'
        os.symlink(home, tmp)
        os.rename(tmp, self.link)

    def drop(self, home):
        shutil.rmtree(home, ignore_errors=True)

    def copy_home(self, home):
        self.n += 1
        d = os.path.join(self.scratch, 'homes', '%d' % self.n)
        copytree(home, d)
        return d

    # --------------------------------------------------------------- children
    def run(self, fn, home, workers=1, timeout=60, kill_at=0, torn=False, cwd=None):
        """-> dict(ok, val | err, status): status is 'ended', 'killed' or 'hangs'; n = number of file changes made."""
        self.use(home)
        res = os.path.join(self.scratch, 'result.json')
        if os.path.exists(res):
            os.unlink(res)
        stacks = os.path.join(self.scratch, 'stacks.txt')
        go_r, go_w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(go_w)
                os.read(go_r, 1)
                null = os.open('/dev/null', os.O_RDWR)
                for k in (0, 1, 2):
                    os.dup2(null, k)
                os.cpu_count = lambda: workers
                open(stacks, 'w').close()
                dump = open(stacks, 'a')
                faulthandler.register(signal.SIGUSR1, file=dump, all_threads=True)
                if cwd:
                    os.chdir(cwd)
                try:
                    out = {'ok': True, 'val': fn()}
                except SystemExit as e:
                    out = {'ok': False, 'err': 'exit %s' % (e.code,)}
                except BaseException as e:      # noqa: the verdict is the specification's
                    out = {'ok': False, 'err': repr(e)[:300]}
                if self.ctl is not None:
                    out['n'] = struct.unpack_from('<q', self.ctl, 8)[0]
                    struct.pack_into('<q', self.ctl, 0, 0)
                with open(res + '.tmp', 'w') as f:
                    json.dump(out, f)
                os.rename(res + '.tmp', res)
            finally:
                os._exit(0)
        os.close(go_r)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        if self.ctl is not None:
            struct.pack_into('<6q', self.ctl, 0, pid, 0, kill_at, 1 if torn else 0, 0, 0)
        os.write(go_w, b'x')
        os.close(go_w)
        end = time.time() + timeout
        status = 'hangs'
        nap = .0005
        while time.time() < end:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                status = 'ended'
                break
            time.sleep(nap)
            nap = min(nap * 1.3, .01)
        where = ''
        if status == 'hangs':           # where is everybody?
            try:
                for q in sorted(int(x) for x in os.listdir('/proc') if x.isdigit()):
                    try:
                        if os.getpgid(q) == pid:
                            with open(stacks, 'a') as f:
                                f.write('\n=== process %d\n' % q)
                            os.kill(q, signal.SIGUSR1)
                            time.sleep(.2)
                    except OSError:
                        pass
                with open(stacks) as f:
                    where = f.read()[:20000]
            except OSError:
                pass
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        if status == 'hangs':
            os.waitpid(pid, 0)
        killed = False
        if self.ctl is not None:
            killed = bool(struct.unpack_from('<q', self.ctl, 40)[0])
            self.was_write = bool(struct.unpack_from('<q', self.ctl, 32)[0])
            struct.pack_into('<q', self.ctl, 0, 0)
        # wait until the whole group is gone, so that no leftover process still writes
        for _ in range(2000):
            try:
                os.killpg(pid, 0)
            except OSError:
                break
            reap()
            time.sleep(.001)
        if killed:
            return {'ok': False, 'status': 'killed', 'err': 'killed'}
        if status == 'ended' and os.path.exists(res):
            with open(res) as f:
                out = json.load(f)
            out['status'] = 'ended'
            return out
        return {'ok': False, 'status': 'hangs' if status == 'hangs' else 'died', 'err': status + where}


def subreaper():
    """Adopt orphaned workers, so that they can be reaped here."""
    import ctypes
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)


def reap():
    while True:
        try:
            p, _ = os.waitpid(-1, os.WNOHANG)
        except OSError:
            return
        if not p:
            return


# -------------------------------------------------------------------- file trees
def copytree(src, dst):
    """A copy that keeps links, modification times and any names."""
    if isinstance(src, str):
        src, dst = os.fsencode(src), os.fsencode(dst)
    os.makedirs(dst, exist_ok=True)
    for e in os.scandir(src):
        d = os.path.join(dst, e.name)
        if e.is_symlink():
            os.symlink(os.readlink(e.path), d)
        elif e.is_dir():
            copytree(e.path, d)
        else:
            with open(e.path, 'rb') as f, open(d, 'wb') as g:
                g.write(f.read())
            st = os.stat(e.path)
            os.utime(d, ns=(st.st_atime_ns, st.st_mtime_ns))
    st = os.stat(src)
    os.utime(dst, ns=(st.st_atime_ns, st.st_mtime_ns))


def tree(path):
    """{relative name (bytes): kind and content digest} of everything below path."""
    res = {}
    path = os.fsencode(path)

    def go(d, rel):
        for e in sorted(os.scandir(d), key=lambda x: x.name):
            r = os.path.join(rel, e.name)
            if e.is_symlink():
                res[r] = 'link:' + hashlib.sha1(os.readlink(e.path)).hexdigest()
            elif e.is_dir():
                res[r] = 'dir'
                go(e.path, r)
            elif e.is_file():
                with open(e.path, 'rb') as f:
                    res[r] = 'file:' + hashlib.sha1(f.read()).hexdigest()
            else:
                res[r] = 'other'
    if os.path.isdir(path):
        go(path, b'')
    elif os.path.exists(path):
        with open(path, 'rb') as f:
            res[b''] = 'file:' + hashlib.sha1(f.read()).hexdigest()
    return res


def digest(obj):
    if isinstance(obj, dict):
        obj = sorted((k.decode('latin-1') if isinstance(k, bytes) else k, v) for k, v in obj.items())
    return hashlib.sha1(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:16]


def times(path):
    """Source digest including times, to see that nothing was modified."""
    res = dict(tree(path))
    path = os.fsencode(path)
    for k in list(res):
        st = os.lstat(os.path.join(path, k)) if k else os.lstat(path)
        res[k] += ' %d' % st.st_mtime_ns
    return digest(res)


def outputs(path, suffix=b'.prep'):
    """Finished output files below an output directory: {relative name without the suffix: bytes}."""
    res = {}
    path = os.fsencode(path)
    for root, dirs, files in os.walk(path):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as g:
                res[os.path.relpath(p, path)] = g.read()
    return res


# ---------------------------------------------------------------------- options
CORPUS_KW = dict(spaces='no_spaces', unicode='no_unicode', com='no_com', str='no_str')


def corpus_call(c, path, exts, out, codes=None, vocab=False, suppress=False):
    """Run the corpus function for option record c (see prep_common.cfg); the PreprocessedCorpus."""
    import codeprep.api.corpus as A
    kw = dict(extensions=exts, output_path=out, calc_vocab=vocab, suppress_caching=suppress,
              no_spaces=not c['spaces'], no_unicode=not c['unicode'], no_com=not c['com'], no_str=not c['str'])
    if c['max']:
        kw['max_str_length'] = c['max']
    m = c['mode']
    if m == 'no':
        return A.nosplit(path, **kw)
    if m == 'full':
        return A.nosplit(path, full_strings=True, **kw)
    if m == 'basic':
        return A.basic(path, no_case=not c['case'], **kw)
    if m == 'num':
        return A.basic(path, no_case=not c['case'], split_numbers=True, **kw)
    if m == 'chars':
        return A.chars(path, **kw)
    if m == 'bpe':
        return A.bpe(path, codes, **kw)
    raise AssertionError(m)
