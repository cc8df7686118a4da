#!/usr/bin/env python3
"""Builds the simulator: the real sources of /repo, instrumented (every memory access and synchronisation operation
calls into sim/core.cpp), linked with the simulator core and the host program into one executable.

Objects are cached under /verif/build by the hash of everything that goes into them."""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('CLAZY_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-20'
CXX = '/usr/bin/clang++-20'


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(str(len(p)).encode() + b':' + p)
    return h.hexdigest()[:32]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


class BuildError(Exception):
    pass


def run(cmd):
    env = dict(os.environ, LANG='C.UTF-8', LC_ALL='C.UTF-8')
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    return r.returncode, r.stdout.decode(errors='replace')


def sources():
    srcs = []
    for f in ('ClazySources.cmake', 'CheckSources.generated.cmake'):
        txt = open(os.path.join(REPO, f)).read()
        txt = re.sub(r'#.*', '', txt)
        for m in re.findall(r'\$\{CMAKE_CURRENT_LIST_DIR\}/(src/[^\s)]+\.cpp)', txt):
            if m not in srcs and os.path.exists(os.path.join(REPO, m)):
                srcs.append(m)
    for extra in ('src/MiniAstDumper.cpp', 'src/ClazyClangTidyModule.cpp', 'src/ClazyStandaloneMain.cpp'):
        if extra not in srcs and os.path.exists(os.path.join(REPO, extra)):
            srcs.append(extra)
    return srcs


def versions():
    txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()

    def v(n):
        m = re.search(r'set\(%s "(\d+)"\)' % n, txt)
        return m.group(1) if m else '0'
    return '%s.%s' % (v('CLAZY_VERSION_MAJOR'), v('CLAZY_VERSION_MINOR'))


def build(log=lambda s: None):
    t0 = time.time()
    os.makedirs(OUT + '/obj', exist_ok=True)
    os.makedirs(OUT + '/bin', exist_ok=True)
    with open(OUT + '/lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        exe = _build(log)
    log('build: %.1f s' % (time.time() - t0))
    return exe


def _build(log):
    ver = versions()
    json_txt = read(REPO + '/checks.json')
    headers = sorted(glob.glob(REPO + '/src/**/*.h', recursive=True))
    header_hash = sha(*[x for h in headers for x in (os.path.relpath(h, REPO), read(h))], json_txt,
                      read(REPO + '/checks.json.h.in'))
    gen = '%s/gen-%s' % (OUT, sha(json_txt, read(REPO + '/checks.json.h.in')))
    os.makedirs(gen, exist_ok=True)
    tmpl = read(REPO + '/checks.json.h.in').decode()
    body = re.sub(r'\$\{SUPPORTED_CHECKS_JSON_STR\}|@SUPPORTED_CHECKS_JSON_STR@',
                  lambda m: '\nR"meta(%s)meta"\n' % json_txt.decode(), tmpl)
    with open(gen + '/checks.json.h', 'w') as f:
        f.write(body)

    base = [CXX, '-std=gnu++20', '-DCLAZY_VERSION="%s"' % ver, '-DHAVE_CLANG_CONFIG_H', '-D_GNU_SOURCE',
            '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', '-I' + gen, '-I' + LLVM + '/include', '-I' + REPO,
            '-I' + REPO + '/src', '-fno-common', '-fno-strict-aliasing', '-fno-exceptions', '-fno-rtti', '-fPIC',
            '-w', '-O1', '-DNDEBUG']
    inst = base + ['-fsanitize=thread']
    pch_txt = read(HERE + '/pch.h')
    compiler_id = run([CXX, '--version'])[1]

    # precompiled headers: with the headers of the repository first, without as a fallback
    def make_pch(repo_headers):
        key = sha('pch', compiler_id, pch_txt, ' '.join(inst), header_hash if repo_headers else '', str(repo_headers))
        out = '%s/obj/%s.pch' % (OUT, key)
        if not os.path.exists(out):
            cmd = inst + (['-DSIM_PCH_REPO'] if repo_headers else []) + ['-Xclang', '-fno-pch-timestamp',
                  '-fpch-instantiate-templates', '-x', 'c++-header', HERE + '/pch.h', '-o', out + '.tmp']
            rc, o = run(cmd)
            if rc:
                return None, o
            os.rename(out + '.tmp', out)
        return out, key

    srcs = sources()
    pool = concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4)

    def compile_plain(src, extra):
        key = sha('plain', compiler_id, read(src), read(HERE + '/sim.h'), ' '.join(base + extra))
        out = '%s/obj/%s.o' % (OUT, key)
        if not os.path.exists(out):
            rc, o = run(base + extra + ['-c', src, '-o', out + '.tmp'])
            if rc:
                raise BuildError(o)
            os.rename(out + '.tmp', out)
        return out

    plain = [pool.submit(compile_plain, HERE + '/libwrite.cpp', []),
             pool.submit(compile_plain, HERE + '/host.cpp', []),
             pool.submit(compile_plain, HERE + '/core.cpp', ['-O2', '-fno-builtin-malloc'])]

    pch, pkey = make_pch(True)
    if not pch:
        log('build: precompiled repository headers not usable, falling back: ' + pkey[:300])
        pch, pkey = make_pch(False)
        if not pch:
            pkey = ''
    used = set()

    def compile_src(rel):
        src = os.path.join(REPO, rel)
        extra = ['-Dmain=clazy_standalone_main'] if rel.endswith('ClazyStandaloneMain.cpp') else []
        key = sha('inst', compiler_id, rel, read(src), header_hash, ' '.join(inst + extra), pkey or '')
        out = '%s/obj/%s.o' % (OUT, key)
        used.add(out)
        if os.path.exists(out):
            return out
        tries = [['-include-pch', pch, '-fpch-instantiate-templates']] if pch else []
        tries.append([])
        last = ''
        for t in tries:
            if extra and t:
                t = []  # main renamed: macro definitions differ from those of the precompiled header
            rc, o = run(inst + extra + t + ['-c', src, '-o', out + '.tmp'])
            if rc == 0:
                os.rename(out + '.tmp', out)
                return out
            last = o
        raise BuildError('%s does not compile:\n%s' % (rel, last[:4000]))

    # big ones first
    srcs.sort(key=lambda s: (not s.endswith('ClazyStandaloneMain.cpp'), -os.path.getsize(os.path.join(REPO, s))))
    objs = list(pool.map(compile_src, srcs))
    objs += [p.result() for p in plain]
    key = sha('link', *sorted(objs))
    exe = '%s/bin/clazysim-%s' % (OUT, key)
    if not os.path.exists(exe):
        cmd = [CXX, '-no-pie', '-o', exe + '.tmp'] + objs + ['-L' + LLVM + '/lib', '-Wl,-rpath,' + LLVM + '/lib',
               '-lclangTidy', '-lclangTidyUtils', '-lclang-cpp', '-lLLVM-20', '-lpthread', '-ldl',
               '-Wl,--export-dynamic-symbol=__tsan_*']
        rc, o = run(cmd)
        if rc:
            raise BuildError('link failed:\n' + o[:4000])
        os.rename(exe + '.tmp', exe)
    # keep the cache small
    keep = set(objs) | {pch}
    now = time.time()
    for f in glob.glob(OUT + '/obj/*'):
        if f not in keep and now - os.path.getmtime(f) > 6 * 3600:
            os.unlink(f)
    for f in glob.glob(OUT + '/bin/*'):
        if f != exe and now - os.path.getmtime(f) > 6 * 3600:
            os.unlink(f)
    return exe


if __name__ == '__main__':
    try:
        print(build(lambda s: print(s, file=sys.stderr)))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
