#!/usr/bin/env python3
"""Build one check from /repo's current working tree and run it.

usage: run.py <property id> [--thorough] [--replay FILE] [--scenario NAME]
       run.py --build [ids...]      (build checks only)

The tier comes from --thorough or VERIF_TIER.  Objects are cached under /verif/build (ignored by git)
keyed by the hash of everything they are made from, so that nothing stale is ever used.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

DEFS = ['-DBOOST_NO_CXX11_SCOPED_ENUMS', '-D_FILE_OFFSET_BITS=64', '-D__STDC_FORMAT_MACROS', '-DLIBSUB_POSIX',
        '-DLIBSUB_VERSION="devel"', '-Wno-deprecated-declarations']

# Ways in which the code under test is compiled
VARIANTS = {
    # as shipped plus the standard library's own bounds checks
    'plain': dict(cxx='g++', flags=['-O1', '-g1', '-fPIC', '-D_GLIBCXX_ASSERTIONS'], link=[]),
    # memory errors and undefined behaviour stop the process
    'asan': dict(cxx='g++', flags=['-O1', '-g1', '-fPIC', '-D_GLIBCXX_ASSERTIONS',
                                   '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                 link=['-fsanitize=address,undefined']),
    # every memory access and atomic operation calls the scheduler in lib/scheduler.cc (our own __tsan_* functions)
    'sched': dict(cxx='g++', flags=['-O1', '-g1', '-fPIC', '-fsanitize=thread', '-I' + os.path.join(VERIF, 'lib', 'sched_include')], link=['-rdynamic']),
}

LIBS = ['-lboost_filesystem', '-lboost_locale', '-lboost_regex', '-lpthread', '-ldl']

CHECKS = json.load(open(os.path.join(VERIF, 'checks.json')))


def sources():
    """Names of the library's sources, as its own build script lists them."""
    src = os.path.join(REPO, 'src')
    names = []
    try:
        text = open(os.path.join(src, 'wscript')).read()
        m = re.search(r'obj\.source\s*=\s*"""(.*?)"""', text, re.S)
        names = [n for n in m.group(1).split() if n.endswith('.cc') and os.path.exists(os.path.join(src, n))]
    except (OSError, AttributeError):
        pass
    if not names:
        names = [os.path.basename(p) for p in glob.glob(os.path.join(src, '*.cc')) if os.path.basename(p) != 'version.cc']
    return sorted(names)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def headers_digest(d, patterns):
    return digest(*[x for pat in patterns for p in sorted(glob.glob(os.path.join(d, pat))) for x in (os.path.basename(p), read(p))])


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-8000:]))


def compile_one(cxx, flags, source, out):
    tmp = '%s.%d.tmp' % (out, os.getpid())
    run([cxx] + flags + ['-c', source, '-o', tmp])
    os.rename(tmp, out)


def build(ids):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    src = os.path.join(REPO, 'src')
    tools = os.path.join(REPO, 'tools')
    repo_headers = headers_digest(src, ['*.h', '*.hpp'])
    our_headers = headers_digest(os.path.join(VERIF, 'lib'), ['*.h', 'sched_include/bits/*.h'])
    jobs = {}
    links = {}
    used = set()

    def want(kind, cxx, flags, path, deps):
        out = os.path.join(BUILD, '%s-%s.o' % (os.path.basename(path), digest(kind, cxx, flags, read(path), deps)))
        used.add(out)
        if not os.path.exists(out):
            jobs[out] = (cxx, flags, path, out)
        return out

    for i in ids:
        c = CHECKS[i]
        v = VARIANTS[c['variant']]
        objs = []
        own = c.get('own_flags', [])
        hflags = v['flags'] + ['-std=c++17', '-Wall', '-Wno-unused-function', '-I' + src, '-I' + os.path.join(VERIF, 'lib')] + DEFS + own
        for s in c['sources']:
            objs.append(want('check', v['cxx'], hflags, os.path.join(VERIF, s), repo_headers + our_headers))
        lflags = v['flags'] + ['-std=c++11', '-I' + src] + DEFS + c.get('lib_flags', [])
        for s in sources():
            objs.append(want('repo', v['cxx'], lflags, os.path.join(src, s), repo_headers))
        plain = []
        for s in c.get('plain_sources', ['lib/mc.cc']):
            plain.append(want('lib', 'g++', ['-O1', '-std=c++17', '-g1', '-I' + os.path.join(VERIF, 'lib')], os.path.join(VERIF, s), our_headers))
        # the code under test first, so that its instances of templates are the ones used
        n = len(c['sources'])
        objs = objs + plain if c['variant'] == 'sched' else objs[:n] + plain + objs[n:]
        exe = os.path.join(BUILD, '%s-%s' % (i, digest(objs, v['link'], c.get('link', []))))
        used.add(exe)
        links[i] = (exe, [v['cxx']] + objs + v['link'] + c.get('link', []) + LIBS + ['-o', exe + '.tmp%d' % os.getpid()])
        if c.get('dumpsubs'):
            p = os.path.join(tools, 'dumpsubs.cc')
            o = want('tool', v['cxx'], lflags, p, repo_headers)
            n = len(c['sources']) + len(c.get('plain_sources', ['lib/mc.cc']))
            tool = os.path.join(BUILD, 'dumpsubs-%s' % digest(o, objs[n:]))
            used.add(tool)
            links[i + ':tool'] = (tool, [v['cxx'], o] + objs[n:] + v['link'] + LIBS + ['-o', tool + '.tmp%d' % os.getpid()])

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        # longest first
        todo = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[2]))
        for f in [ex.submit(compile_one, *j) for j in todo]:
            f.result()

        def link(i):
            exe, cmd = links[i]
            if not os.path.exists(exe):
                run(cmd)
                os.rename(cmd[-1], exe)
        for f in [ex.submit(link, i) for i in links]:
            f.result()

    # Keep the cache small: forget what has not been used for a while
    files = [p for p in glob.glob(os.path.join(BUILD, '*')) if os.path.isfile(p) and p not in used]
    for p in used:
        if os.path.exists(p):
            os.utime(p)
    total = 0
    for p in sorted(files, key=lambda p: -os.path.getmtime(p)):
        total += os.path.getsize(p)
        if total > 3000 << 20:
            os.unlink(p)
    return {i: links[i][0] for i in links}


def main():
    args = sys.argv[1:]
    if args and args[0] == '--build':
        ids = args[1:] or sorted(CHECKS)
        build(ids)
        return 0
    if not args or args[0] not in CHECKS:
        print(__doc__, file=sys.stderr)
        return 2
    i = args[0]
    thorough = '--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough'
    start = time.time()
    try:
        exes = build([i])
    except RuntimeError as e:
        print('build failed: %s' % e, file=sys.stderr)
        return 2
    built = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evidence = os.path.join(VERIF, 'evidence', i + '.json')
    cmd = [exes[i], '--seed', os.environ.get('VERIF_SEED', '1'), '--known', os.path.join(VERIF, 'KNOWN_FINDINGS'),
           '--replays', os.path.join(VERIF, 'evidence', 'replays')]
    for o in ('--replay', '--scenario'):
        if o in args:
            cmd += [o, args[args.index(o) + 1]]
    if '--replay' not in args and '--scenario' not in args:
        if os.path.exists(evidence):
            os.unlink(evidence)
        cmd += ['--evidence', evidence]
    if thorough:
        cmd.append('--thorough')
    env = dict(os.environ)
    env['LC_ALL'] = 'C.UTF-8'
    env.pop('LANG', None)
    env['VERIF_DIR'] = VERIF
    env['VERIF_REPO'] = REPO
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:malloc_context_size=4:quarantine_size_mb=24'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=66'
    if i + ':tool' in exes:
        env['VERIF_DUMPSUBS'] = exes[i + ':tool']
    sys.stdout.flush()
    r = subprocess.run(cmd, env=env).returncode
    if '--evidence' in cmd and os.path.exists(evidence):
        e = json.load(open(evidence))
        e['coverage']['build_s'] = round(built - start, 2)
        e['wall_s'] = round(time.time() - start, 2)
        json.dump(e, open(evidence, 'w'), indent=1)
    return r if r in (0, 1) else 2


if __name__ == '__main__':
    sys.exit(main())
