#!/usr/bin/env python3
"""Builds the harnesses from /repo's current working tree.

An object is identified by the hash of its preprocessed text (comments and line
markers excluded) and flags, so that an unchanged tree, or a change of comments,
rebuilds nothing, and any other change of any file that the object includes
rebuilds it.  Objects are cached in /verif/build.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PRINCIPIA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
GEN = os.path.join(BUILD, 'gen')
SHIM = os.path.join(VERIF, 'shim')
CXX = 'clang++-20'
JOBS = os.cpu_count() or 8

BASE_FLAGS = [
    '-std=c++23', '-m64', '-msse4.1',
    '-include', 'cstdint', '-include', 'type_traits', '-include', 'concepts',
    '-include', os.path.join(SHIM, 'compat.hpp'),
    '-fbracket-depth=257', '-fdeclspec', '-fexceptions',
    '-ferror-limit=5', '-ffp-contract=off', '-fno-omit-frame-pointer',
    '-fno-char8_t', '-w',
    '-DPROJECT_DIR=std::filesystem::path("ksp_plugin_adapter/")',
    '-DSOLUTION_DIR=std::filesystem::path("%s/")' % REPO,
    '-DTEMP_DIR=std::filesystem::path("/tmp")',
    '-DPLATFORM_WITH_CPU_FEATURES="x64"', '-DNDEBUG',
    '-DPRINCIPIA_REQUIRES_AVX=0', '-DPRINCIPIA_REQUIRES_FMA=0',
    '-I' + SHIM, '-I' + os.path.join(VERIF, 'harness'),
    '-I' + REPO, '-I' + GEN,
]

def sh256(data):
    return hashlib.sha256(data).hexdigest()

_hash_cache = {}
def file_hash(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, 'rb') as f:
                h = sh256(f.read())
        except OSError:
            h = 'missing'
        _hash_cache[path] = h
    return h

def write_if_changed(path, data):
    try:
        with open(path, 'rb') as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + '.tmp', 'wb') as f:
        f.write(data)
    os.replace(path + '.tmp', path)

def generate_shim():
    subprocess.run([sys.executable, os.path.join(SHIM, 'generate.py')],
                   check=True, stdout=subprocess.DEVNULL)

def generate_protos():
    protos = sorted(glob.glob(REPO + '/*/*.proto'))
    key = sh256(json.dumps([(p, file_hash(p)) for p in protos]).encode())
    stamp = os.path.join(GEN, 'protos.key')
    try:
        if open(stamp).read() == key:
            return
    except OSError:
        pass
    tmp = os.path.join(BUILD, 'gen.tmp')
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    subprocess.run(['protoc', '-I' + REPO, '--cpp_out=' + tmp] + protos,
                   check=True)
    for root, _, files in os.walk(tmp):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as i:
                write_if_changed(os.path.join(GEN, os.path.relpath(p, tmp)),
                                 i.read())
    shutil.rmtree(tmp)
    with open(stamp, 'w') as f:
        f.write(key)

def has_fma():
    try:
        return ' fma ' in open('/proc/cpuinfo').read()
    except OSError:
        return False

class BuildError(Exception):
    pass

def errors_of(stderr):
    lines = stderr.decode(errors='replace').splitlines()
    errors = [l for l in lines if 'error:' in l]
    return '\n'.join(l[:400] for l in (errors or lines)[:12])

def parse_deps(path):
    text = open(path).read().replace('\\\n', ' ')
    deps = text.split(':', 1)[1].split()
    return deps

def source_path(s):
    if s.startswith('gen/'):
        return os.path.join(GEN, s[4:])
    if s.startswith('repo/'):
        return os.path.join(REPO, s[5:])
    if s.startswith('profiles/'):
        return os.path.join(BUILD, s)
    return os.path.join(VERIF, 'harness', s)

def compile_object(source, flags):
    """Returns the path of the object, up-to-date."""
    path = source_path(source)
    flags = BASE_FLAGS + flags
    ident = source.replace('/', '_') + '.' + sh256(
        json.dumps([path, flags]).encode())[:8]
    meta_path = os.path.join(BUILD, 'obj', ident + '.json')
    meta = {}
    try:
        meta = json.load(open(meta_path))
    except (OSError, ValueError):
        pass
    if (meta and os.path.exists(meta['object']) and
        all(file_hash(p) == h for p, h in meta['deps'].items())):
        return meta['object'], 0
    start = time.time()
    dep = os.path.join(BUILD, 'obj', ident + '.d')
    r = subprocess.run([CXX] + flags + ['-E', '-P', '-MMD', '-MF', dep, '-o', '-',
                                        path],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=REPO)
    if r.returncode != 0:
        raise BuildError(source + ':\n' + errors_of(r.stderr))
    pp = sh256(r.stdout)
    obj = os.path.join(BUILD, 'obj', ident + '.' + pp[:16] + '.o')
    deps = {}
    for d in parse_deps(dep):
        d = os.path.normpath(os.path.join(REPO, d))
        if d.startswith(REPO + '/') or d.startswith(VERIF + '/'):
            deps[d] = file_hash(d)
    if not os.path.exists(obj):
        r = subprocess.run([CXX] + flags + ['-c', '-o', obj + '.tmp', path],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           cwd=REPO)
        if r.returncode != 0:
            raise BuildError(source + ':\n' + errors_of(r.stderr))
        os.replace(obj + '.tmp', obj)
        # Keep only a few versions.
        old = sorted(glob.glob(os.path.join(BUILD, 'obj', ident + '.*.o')),
                     key=os.path.getmtime)
        for o in old[:-4]:
            os.remove(o)
    with open(meta_path + '.tmp%d' % threading.get_ident(), 'w') as f:
        json.dump({'object': obj, 'deps': deps, 'source': source}, f)
    os.replace(f.name, meta_path)
    return obj, time.time() - start

_link_flags = None
def link_flags():
    global _link_flags
    if _link_flags is None:
        gcc = sorted(glob.glob('/usr/lib/gcc/x86_64-linux-gnu/*/libquadmath.*'))
        pc = subprocess.run(
            ['pkg-config', '--libs', 'absl_synchronization', 'absl_strings',
             'absl_status', 'absl_statusor', 'absl_time', 'absl_hash',
             'absl_raw_hash_set', 'absl_flags', 'absl_flags_parse', 'absl_cord',
             'absl_btree', 'protobuf'],
            stdout=subprocess.PIPE).stdout.decode().split()
        _link_flags = (['-fuse-ld=lld'] + pc + ['-lre2'] * 0 +
                       (['-L' + os.path.dirname(gcc[-1]), '-lquadmath']
                        if gcc else []) + ['-lgmp', '-lpthread'])
    return _link_flags

def build(targets, config, log=lambda s: None, keep_going=False):
    """Builds the given targets; returns {target: binary}.  If keep_going is
    true, the targets that cannot be built are logged and omitted."""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    generate_shim()
    generate_protos()
    if any(config.TARGETS[t].get('profiles') for t in targets):
        generate_profiles(config, log)
    return build_targets(targets, config, log, keep_going)

def build_targets(targets, config, log, keep_going=False):
    jobs = {}
    for t in targets:
        spec = config.TARGETS[t]
        for s in spec['sources']:
            s, extra = (s, []) if isinstance(s, str) else (s[0], s[1])
            flags = spec.get('flags', ['-O1']) + extra
            jobs.setdefault((s, tuple(flags)), []).append(t)
    costs = {}
    try:
        costs = json.load(open(os.path.join(BUILD, 'costs.json')))
    except (OSError, ValueError):
        pass
    order = sorted(jobs, key=lambda j: -costs.get(j[0], 10))
    objects = {}
    errors = []
    failed = set()
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_object, j[0], list(j[1])): j for j in order}
        for f in concurrent.futures.as_completed(futs):
            j = futs[f]
            try:
                objects[j], secs = f.result()
                if secs > 0:
                    costs[j[0]] = secs
                    log('compiled %s in %.1f s' % (j[0], secs))
            except BuildError as e:
                errors.append(str(e))
                failed.update(jobs[j])
                if not keep_going:
                    for g in futs:
                        g.cancel()
            except concurrent.futures.CancelledError:
                pass
    with open(os.path.join(BUILD, 'costs.json.tmp'), 'w') as f:
        json.dump(costs, f)
    os.replace(os.path.join(BUILD, 'costs.json.tmp'),
               os.path.join(BUILD, 'costs.json'))
    if errors:
        if not keep_going:
            raise BuildError('\n'.join(errors))
        log('\n'.join(errors))
        targets = [t for t in targets if t not in failed]
    result = {}
    def link(t):
        spec = config.TARGETS[t]
        objs = []
        for s in spec['sources']:
            s, extra = (s, []) if isinstance(s, str) else (s[0], s[1])
            flags = spec.get('flags', ['-O1']) + extra
            objs.append(objects[(s, tuple(flags))])
        key = sh256(json.dumps(objs + spec.get('ldflags', [])).encode())[:16]
        binary = os.path.join(BUILD, 'bin', t + '.' + key)
        if not os.path.exists(binary):
            r = subprocess.run([CXX, '-o', binary + '.tmp'] + objs +
                               spec.get('ldflags', []) + link_flags(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise BuildError(t + ': link:\n' + r.stdout.decode()[:4000])
            for o in glob.glob(os.path.join(BUILD, 'bin', t + '.*')):
                if not o.endswith('.tmp'):
                    os.remove(o)
            os.replace(binary + '.tmp', binary)
        return t, binary
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for t, b in ex.map(link, targets):
            result[t] = b
    return result

def generate_profiles(config, log):
    """Runs the repository's own generator of journal profiles."""
    tools = build_targets(['tools'], config, log)['tools']
    key = sh256((tools + file_hash(REPO + '/serialization/journal.proto')
                 ).encode())
    stamp = os.path.join(GEN, 'profiles.key')
    try:
        if open(stamp).read() == key:
            return
    except OSError:
        pass
    tmp = os.path.join(BUILD, 'profiles.tmp')
    shutil.rmtree(tmp, ignore_errors=True)
    for d in ('journal', 'ksp_plugin', 'ksp_plugin_adapter'):
        os.makedirs(os.path.join(tmp, d))
    r = subprocess.run([tools, 'generate_profiles'], cwd=tmp,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('generate_profiles: ' + r.stdout.decode()[:4000])
    for root, _, files in os.walk(tmp):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as i:
                write_if_changed(os.path.join(GEN, os.path.relpath(p, tmp)),
                                 i.read())
    shutil.rmtree(tmp)
    with open(stamp, 'w') as f:
        f.write(key)

if __name__ == '__main__':
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    import config
    names = sys.argv[1:] or sorted(config.TARGETS)
    t = time.time()
    try:
        for n, b in build(names, config, print, keep_going=True).items():
            print(n, b)
    except BuildError as e:
        print(e)
        sys.exit(2)
    print('%.1f s' % (time.time() - t))
