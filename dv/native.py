"""Native (ASan) build of /repo's current sources plus a harness; runs it in a scratch directory."""
import os, subprocess, tempfile, shutil, glob, concurrent.futures as cf, re
from . import front

CXX = ['clang++', '-std=c++14', '-fno-rtti', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-g1', '-DNDEBUG', '-fno-access-control']
CC = ['clang', '-w', '-fsanitize=address', '-g1', '-DNDEBUG']
LIBS = ['-lexpat', '-lz', '-lminizip', '-luriparser']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class NativeError(Exception):
    pass


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return r.returncode, r.stdout


def build(dirs, files, gen=None, extra=(), opt='-O1', tmp=None):
    """dirs: /repo/src/kml subdirectories; files: harness sources under /verif/harness; gen: {name: text} -> (exe, tmpdir)"""
    tmp = tmp or tempfile.mkdtemp(prefix='dvn_')
    srcs = front.sources(dirs)
    if 'base' in dirs:
        b = front.REPO + '/src/kml/base/'
        srcs += [b + 'contrib/minizip/unzip.c', b + 'contrib/minizip/iomem_simple.c']
        if b + 'file_posix.cc' not in srcs:
            srcs.append(b + 'file_posix.cc')
    hs = [os.path.join(HERE, 'harness', f) for f in files]
    for n, t in (gen or {}).items():
        p = os.path.join(tmp, n)
        open(p, 'w').write(t)
        hs.append(p)
    jobs, objs = [], []
    for s in hs + srcs:
        o = os.path.join(tmp, s.replace('/', '_') + '.o')
        objs.append(o)
        oo = '-O0' if s in hs else opt
        jobs.append((CXX if s.endswith('.cc') else CC) + [oo] + list(extra) + front.INC + ['-I' + HERE + '/harness', '-c', s, '-o', o])
    with cf.ThreadPoolExecutor(int(os.environ.get('DV_JOBS', '8'))) as ex:
        for (rc, out), j in zip(ex.map(_run, jobs), jobs):
            if rc:
                shutil.rmtree(tmp, ignore_errors=True)
                raise NativeError('compile failed: %s\n%s' % (j[-3], out[-3000:]))
    exe = os.path.join(tmp, 'h')
    rc, out = _run(CXX + objs + LIBS + ['-o', exe])
    if rc:
        shutil.rmtree(tmp, ignore_errors=True)
        raise NativeError('link failed: ' + out[-3000:])
    for o in objs:
        os.unlink(o)
    return exe, tmp


def run(exe, tmp, section, tier='quick', timeout=200, seed=None):
    """-> dict(ok, evals, fails[list of str], raw)"""
    wd = tempfile.mkdtemp(prefix='run_', dir=tmp)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0', VERIF_TIER=tier, TMPDIR=wd, HOME=wd)
    if seed is not None:
        env['VERIF_SEED'] = str(seed)
    try:
        r = subprocess.run([exe, section], cwd=wd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout)
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode('utf-8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        err, rc = '', -99
    fails = [l for l in out.split('\n') if l.startswith(('FAIL ', 'HANG '))]
    cur = ''
    try:
        cur = open(wd + '/cur.txt', 'rb').read().split(b'\0')[0].decode('utf-8', 'replace')
    except OSError:
        pass
    if 'NOSECTION' in out:
        raise NativeError('no section ' + section)
    if rc == -99:
        fails.append('HANG %s | input: %s' % (section, cur))
    elif rc not in (0, 1, 3) or (rc == 1 and not fails):
        m = re.search(r'ERROR: AddressSanitizer: ([^\n]*)', err)
        what = m.group(1) if m else ('terminated with status %d %s' % (rc, err[-300:].replace('\n', ' ')))
        fr = re.findall(r'#\d+ \S+ in (\S+[^\n]*?) (/\S+)', err)[:4]
        fails.append('CRASH %s: %s %s | input: %s' % (section, what[:160], ' < '.join(os.path.basename(x[1]) for x in fr), cur))
    m = re.search(r'EVALS (\d+)', out)
    shutil.rmtree(wd, ignore_errors=True)
    return dict(ok=not fails, evals=int(m.group(1)) if m else 0, fails=fails, rc=rc, stderr=err[-4000:])
