"""mkseed.py DEFS.py [ids]: write /verif/seeded/<id> from definitions"""
import sys, os, json, subprocess, runpy
SEEDS = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
W = '/tmp/seedrepo'
DEMO_SH = '''#!/bin/bash
# Build demo.cc against the library in the current directory's build and run it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -w -O1 -DLIBSUB_POSIX -I "$repo/src" "$here/demo.cc" -L "$repo/build/src" -lsub-1.0 -lboost_filesystem -lpthread -o "$tmp/demo" || exit 3
cd "$tmp" || exit 3
LD_LIBRARY_PATH="$repo/build/src" %s./demo
'''
HEAD = r'''#include "subrip_reader.h"
#include "ssa_reader.h"
#include "web_vtt_reader.h"
#include "stl_text_reader.h"
#include "stl_binary_reader.h"
#include "stl_binary_writer.h"
#include "reader_factory.h"
#include "collect.h"
#include "iso6937.h"
#include "exceptions.h"
#include "util.h"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#define EXPECT(x) do { if (!(x)) { printf("line %d: %s does not hold\n", __LINE__, #x); return 1; } } while (0)
using std::string;
using std::vector;
'''
if not os.path.exists(W):
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '--detach', W, 'HEAD'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
for s in SEEDS:
    if only and s['id'] not in only: continue
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--detach', subprocess.check_output(['git','-C','/repo','rev-parse','HEAD']).decode().strip()])
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
    for f, old, new in s['edits']:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', W, 'diff']))
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
    open(d + '/demo.cc', 'w').write(HEAD + s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO_SH % s.get('prefix', ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
