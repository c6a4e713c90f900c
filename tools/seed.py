#!/usr/bin/env python3
"""seed.py make ID PROPERTY   : makes /verif/seeded/ID from /tmp/seed/ID (a spec)
seed.py verify ID...          : checks it: applies, builds, tests, demo, check.

The spec is /tmp/seed/ID/{edit.py,demo.cpp,meta.json,sources} where edit.py edits
the copy of the repository in its working directory."""
import json, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
REPO = '/repo'

DEMO = '''#!/bin/bash
# Run with the working directory at the root of the repository.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
root="$(pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
flags=(-std=c++23 -m64 -msse4.1 -include cstdint -include type_traits
       -include concepts -include "$here/shim/compat.hpp" -fbracket-depth=257
       -fdeclspec -fexceptions -ffp-contract=off -fno-char8_t -w
       '-DPROJECT_DIR=std::filesystem::path("ksp_plugin_adapter/")'
       '-DSOLUTION_DIR=std::filesystem::path("./")'
       '-DTEMP_DIR=std::filesystem::path("/tmp")'
       '-DPLATFORM_WITH_CPU_FEATURES="x64"' -DNDEBUG
       -DPRINCIPIA_REQUIRES_AVX=0 -DPRINCIPIA_REQUIRES_FMA=0
       -I"$here/shim" -I"$root" -I"$scratch/gen" {extra})
{proto}
absl=(-Wl,--start-group)
for l in time time_zone strings strings_internal str_format_internal int128 base raw_logging_internal \\
         throw_delegate civil_time spinlock_wait symbolize stacktrace synchronization \\
         graphcycles_internal malloc_internal debugging_internal demangle_internal hash city \\
         low_level_hash raw_hash_set hashtablez_sampler exponential_biased status statusor cord \\
         cord_internal cordz_info cordz_handle cordz_functions flags flags_internal \\
         flags_reflection flags_config flags_program_name flags_private_handle_accessor \\
         flags_commandlineflag flags_commandlineflag_internal flags_marshalling flags_parse flags_usage_internal bad_optional_access bad_variant_access log_severity strerror; do
  for f in /usr/lib/x86_64-linux-gnu/libabsl_$l.a /usr/lib/x86_64-linux-gnu/libabsl_$l.so; do
    if [ -e "$f" ]; then absl+=("$f"); break; fi
  done
done
absl+=(-Wl,--end-group)
pids=()
n=0
for s in {sources}; do
  case "$s" in
    here/*) p="$here/${{s#here/}}";;
    gen/*) p="$scratch/$s";;
    *) p="$root/$s";;
  esac
  n=$((n + 1))
  clang++-20 "${{flags[@]}}" {opt} -c "$p" -o "$scratch/$n.o" & pids+=($!)
done
for p in "${{pids[@]}}"; do wait "$p"; done
quadmath="$(dirname "$(ls /usr/lib/gcc/x86_64-linux-gnu/*/libquadmath.a | tail -1)")"
clang++-20 {ldflags} -o "$scratch/demo" "$scratch"/*.o "${{absl[@]}}" -L"$quadmath" -lquadmath -lprotobuf -lgmp -lpthread
cd "$scratch"
timeout 120 "$scratch/demo"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)

def make(id):
    spec = '/tmp/seed/' + id
    dst = os.path.join(SEEDED, id)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    assert not sh(['git', '-C', REPO, 'status', '--porcelain']).stdout.strip()
    r = sh([sys.executable, spec + '/edit.py'], cwd=REPO)
    try:
        assert r.returncode == 0, r.stdout
        d = sh(['git', '-C', REPO, 'diff']).stdout
    finally:
        sh(['git', '-C', REPO, 'checkout', '--', '.'])
    assert d.strip(), 'no change'
    open(dst + '/patch.diff', 'w').write(d)
    meta = json.load(open(spec + '/meta.json'))
    opts = {k: meta.pop(k) for k in list(meta)
            if k in ('sources', 'protos', 'opt', 'extra', 'ldflags')}
    json.dump(meta, open(dst + '/meta.json', 'w'), indent=1)
    for f in os.listdir(spec):
        if f.endswith(('.cpp', '.hpp')):
            shutil.copy(os.path.join(spec, f), dst)
    shutil.copytree(os.path.join(VERIF, 'shim'), dst + '/shim',
                    ignore=shutil.ignore_patterns('*.py', '__pycache__'))
    proto = ''
    sources = ['here/demo.cpp'] + opts.get('sources', [])
    if opts.get('protos'):
        proto = ('mkdir "$scratch/gen"\n(cd "$root" && protoc -I. '
                 '--cpp_out="$scratch/gen" serialization/*.proto)')
        sources += ['gen/serialization/%s.pb.cc' % p for p in opts['protos']]
    open(dst + '/demo.sh', 'w').write(DEMO.format(
        sources=' '.join(sources), proto=proto, opt=opts.get('opt', '-O1'),
        extra=opts.get('extra', ''), ldflags=opts.get('ldflags', '')))
    os.chmod(dst + '/demo.sh', 0o755)

def official():
    r = sh(['bash', '/opt/vp/build.sh'])
    if r.returncode: return 'build failed: ' + r.stdout[-1500:]
    sh(['bash', '/opt/vp/test.sh', '/tmp/seed.out.json'])
    j = json.load(open('/tmp/seed.out.json'))
    failed = j['failed'] if not isinstance(j['failed'], int) else j['failed']
    return '' if not failed else 'tests failed: %s' % failed

def verify(id):
    dst = os.path.join(SEEDED, id)
    meta = json.load(open(dst + '/meta.json'))
    out = [id]
    t = time.time()
    tmp = '/tmp/demo.copy'
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(dst, tmp)
    for f in ('patch.diff', 'meta.json'): os.remove(tmp + '/' + f)
    r = sh(['bash', tmp + '/demo.sh'], cwd=REPO)
    out.append('clean demo %d (%.0f s)' % (r.returncode, time.time() - t))
    if r.returncode: print(r.stdout[-1500:])
    assert not sh(['git', '-C', REPO, 'status', '--porcelain']).stdout.strip()
    r = sh(['git', '-C', REPO, 'apply', dst + '/patch.diff'])
    assert r.returncode == 0, r.stdout
    try:
        out.append('official: ' + (official() or 'ok'))
        r = sh(['bash', tmp + '/demo.sh'], cwd=REPO)
        out.append('patched demo %d' % r.returncode)
        out.append(r.stdout[-300:].strip().replace('\n', ' | '))
        t = time.time()
        r = sh(['python3', 'harness/check.py', meta['property']], cwd=VERIF,
               env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        out.append('check %d %s (%.0f s)' % (r.returncode, v[:1], time.time() - t))
        if r.returncode != 1: out.append(r.stdout[-300:])
    finally:
        sh(['git', '-C', REPO, 'checkout', '--', '.'])
        shutil.rmtree(tmp, ignore_errors=True)
    print('; '.join(out))

if __name__ == '__main__':
    for i in sys.argv[2:]:
        if sys.argv[1] in ('make', 'both'): make(i)
        if sys.argv[1] in ('verify', 'both'): verify(i)
