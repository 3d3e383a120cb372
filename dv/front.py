"""Front end: compile /repo's current sources (and tiny wrapper TUs) to one linked LLVM IR module."""
import os, subprocess, tempfile, shutil, glob, json, re, sys, concurrent.futures as cf
from . import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
INC = ['-I%s/src' % REPO, '-I/usr/include/uriparser', '-I/usr/include/minizip']
FLAGS = ['-std=c++14', '-fno-rtti', '-fno-exceptions', '-DNDEBUG', '-O0', '-Xclang', '-disable-O0-optnone',
         '-fno-discard-value-names', '-fno-access-control', '-femit-all-decls', '-c', '-emit-llvm', '-w', '-flto', '-fwhole-program-vtables', '-fvisibility=hidden']
PASSES = [os.environ.get('DV_PASSES', 'mem2reg')]
# a second form of the same code, for units whose proof fails on the first: loops test at their end, flags that only end a loop become exits of it
ALT = 'mem2reg,simplifycfg,loop-simplify,loop-rotate,jump-threading,simplifycfg'
SKIP = ('kml22.cc', 'file_posix.cc', 'file_win32.cc')


class FrontError(Exception):
    pass


def sources(dirs):
    out = []
    for d in dirs:
        if d.endswith(('.cc', '.c')):
            out.append('%s/src/kml/%s' % (REPO, d))
        else:
            out += [f for f in sorted(glob.glob('%s/src/kml/%s/*.cc' % (REPO, d))) if os.path.basename(f) not in SKIP]
    return out


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build(dirs, extra_tus=None, scratch=None):
    """dirs: list of 'base', 'dom', 'engine/bbox.cc'...; extra_tus: {name: c++ text}. -> ir.Module"""
    tmp = scratch or tempfile.mkdtemp(prefix='dv_')
    try:
        jobs = []
        srcs = sources(dirs)
        for n, txt in (extra_tus or {}).items():
            p = os.path.join(tmp, n)
            with open(p, 'w') as f:
                f.write(txt)
            srcs.append(p)
        objs = []
        for s in srcs:
            o = os.path.join(tmp, s.replace('/', '_') + '.bc')
            objs.append(o)
            if s.endswith('.c'):
                jobs.append(['clang'] + [x for x in FLAGS if x not in ('-std=c++14', '-fno-rtti', '-fno-exceptions', '-fno-access-control', '-fwhole-program-vtables')] + INC + [s, '-o', o])
                continue
            jobs.append(['clang++'] + FLAGS + INC + [s, '-o', o])
        with cf.ThreadPoolExecutor(int(os.environ.get('DV_JOBS', '8'))) as ex:
            for (rc, out), j in zip(ex.map(_run, jobs), jobs):
                if rc:
                    raise FrontError('compile failed: %s\n%s' % (' '.join(j), out[-3000:]))
        rc, out = _run([LLVM + 'llvm-link'] + objs + ['-o', tmp + '/all.bc'])
        if rc:
            raise FrontError('llvm-link: ' + out[-3000:])
        rc, out = _run([LLVM + 'opt', '-passes=' + PASSES[0], tmp + '/all.bc', '-S', '-o', tmp + '/all.ll'])
        if rc:
            raise FrontError('opt: ' + out[-3000:])
        m = ir.Module(tmp + '/all.ll')
        rc, out = _run([LLVM + 'opt', '-passes=globalopt', tmp + '/all.bc', '-S', '-o', tmp + '/g.ll'])
        m.consts = never_written(tmp + '/g.ll', m) if rc == 0 else set()
        names = list(m.funcs) + list(m.globlines)
        r = subprocess.run([LLVM + 'llvm-cxxfilt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        dem = r.stdout.split('\n')
        m.dem = {n: simplify_name(d) for n, d in zip(names, dem)}
        m.bydem = {}
        for n in m.funcs:
            m.bydem.setdefault(m.dem[n], []).append(n)
        return m
    finally:
        if not scratch:
            shutil.rmtree(tmp, ignore_errors=True)


def never_written(path, m):
    """internal globals LLVM proves are never stored to, plus internal tables whose address occurs only in such tables"""
    const, cand, used = set(), {}, set()
    for l in open(path):
        if l[0] == '@':
            mm = re.match(r'@("[^"]+"|[-\w.$]+) = (.*)', l)
            if not mm:
                continue
            n, b = mm.group(1).strip('"'), mm.group(2)
            if re.match(r'(?:internal|private)[^=]*? constant ', b):
                const.add(n)
            elif re.match(r'(?:internal|private)[^=]*? global ', b):
                cand[n] = b
        elif l[0] == ' ':
            used.update(x.strip('"') for x in re.findall(r'@("[^"]+"|[-\w.$]+)', l))
    holders = {}
    for l in open(path):
        if l[0] == '@':
            mm = re.match(r'@("[^"]+"|[-\w.$]+) = (.*)', l)
            if mm:
                for x in re.findall(r'@("[^"]+"|[-\w.$]+)', mm.group(2)):
                    holders.setdefault(x.strip('"'), set()).add(mm.group(1).strip('"'))
    for n in cand:
        if n not in used and holders.get(n) and holders[n] <= const:
            const.add(n)
    return const


_STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'


def _drop_allocs(s):
    # remove ", std::allocator<...>" with balanced angle brackets (innermost handled by loop)
    key = ', std::allocator<'
    while True:
        i = s.find(key)
        if i < 0:
            return s
        j = i + len(key)
        d = 1
        while d:
            c = s[j]
            if c == '<':
                d += 1
            elif c == '>' and s[j-1] != '-':
                d -= 1
            j += 1
        s = s[:i] + s[j:]


def simplify_name(d):
    d = d.replace(_STR, 'string').replace('[abi:cxx11]', '')
    d = d.replace('std::__cxx11::', 'std::')
    d = _drop_allocs(d)
    d = re.sub(r', std::less<[^<>]*>', '', d)
    d = d.replace('boost::intrusive_ptr<', 'iptr<')
    return d
