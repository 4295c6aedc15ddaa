"""Builds LLVM IR and native harnesses from the current sources of /repo.

Nothing is copied or edited: every translation unit is compiled from /repo's working tree; the generated *.inc files
are produced by running /repo/tools/gen_*.cc.  `ska/flat_hash_map.hpp` (not available offline) is replaced by an alias
of std::unordered_map."""
import os, re, subprocess, shutil, tempfile, concurrent.futures as cf

REPO = os.environ.get('VC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LL = '/usr/lib/llvm-18/bin/'
CLANG = 'clang++-18' if shutil.which('clang++-18') else LL + 'clang++'


class BuildError(Exception):
    pass


def run(cmd, what):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError('%s failed: %s\n%s' % (what, ' '.join(cmd), p.stderr[-4000:]))
    return p.stdout


def compile_(cmd, out, src):
    """compiles src to out; with VC_CACHE set (development only) the result for the same preprocessed text is reused"""
    cache = os.environ.get('VC_CACHE')
    if not cache:
        return run(cmd + ['-o', out, src], src)
    import hashlib
    pre = run([c for c in cmd if c not in ('-c', '-emit-llvm')] + ['-E', '-P', src], src)
    key = hashlib.sha256((re.sub(r'/tmp/vc\.[^/]*/', '', ' '.join(cmd)) + pre).encode()).hexdigest()
    os.makedirs(cache, exist_ok=True)
    if not os.path.exists(cache + '/' + key):
        run(cmd + ['-o', out, src], src)
        shutil.copy(out, cache + '/' + key)
    else:
        shutil.copy(cache + '/' + key, out)


class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vc.', dir='/tmp')
        self.gen_done = False

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def gen(self):
        if self.gen_done:
            return
        g = self.dir + '/gen'
        os.makedirs(g, exist_ok=True)
        os.makedirs(self.dir + '/stub/inc', exist_ok=True)
        os.makedirs(self.dir + '/stub/ska', exist_ok=True)
        with open(self.dir + '/stub/ska/flat_hash_map.hpp', 'w') as f:
            f.write('#pragma once\n#include <unordered_map>\nnamespace ska {\n'
                    'template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>>\n'
                    'using flat_hash_map = std::unordered_map<K, V, H, E>;\n}\n')

        def one(src, out):
            exe = g + '/' + os.path.basename(src) + '.exe'
            run(['g++', '-std=c++17', '-O0', '-o', exe, REPO + '/tools/' + src], src)
            run([exe, g + '/' + out], src)
        jobs = [('gen_perc_bucket_tags.cc', 'percentile_bucket_tags.inc'), ('gen_perc_bucket_values.cc', 'percentile_bucket_values.inc'),
                ('gen_valid_chars.cc', 'valid_chars.inc')]
        with cf.ThreadPoolExecutor(3) as ex:
            for f in [ex.submit(one, *j) for j in jobs]:
                f.result()
        self.gen_done = True

    def flags(self):
        return ['-std=c++17', '-I' + self.dir + '/stub/inc', '-I' + self.dir + '/gen', '-I' + REPO, '-I' + VERIF + '/vc/drivers', '-I' + VERIF + '/harness']

    def src(self, s):
        return s if s.startswith('/') else REPO + '/' + s

    def ir(self, srcs, extra=(), passes='sroa,simplifycfg'):
        """one linked bitcode module of the given sources -> path"""
        self.gen()
        outs = []

        def one(k, s):
            o = '%s/ir%d.bc' % (self.dir, k)
            compile_([CLANG] + self.flags() + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g0', '-c', '-emit-llvm',
                 '-Wno-everything', '-DVC_IR'] + list(extra), o, self.src(s))
            run([LL + 'opt', '-passes=' + passes, o, '-o', o + '.opt.bc'], 'opt')
            return o + '.opt.bc'
        with cf.ThreadPoolExecutor(8) as ex:
            outs = [f.result() for f in [ex.submit(one, k, s) for k, s in enumerate(srcs)]]
        if len(outs) == 1:
            return outs[0]
        out = self.dir + '/all.bc'
        run([LL + 'llvm-link'] + outs + ['-o', out], 'llvm-link')
        return out

    def exe(self, name, srcs, extra=(), libs=(), sanitize='address,undefined', opt='-O1'):
        """native harness from the current sources -> path"""
        self.gen()
        d = self.dir + '/x_' + name
        os.makedirs(d, exist_ok=True)
        flags = self.flags() + [opt, '-g', '-Wno-everything', '-DVC_NATIVE'] + list(extra)
        if sanitize:
            flags += ['-fsanitize=' + sanitize, '-fno-omit-frame-pointer', '-fno-sanitize=alignment,vptr']
            if 'undefined' in sanitize:
                flags += ['-fno-sanitize-recover=undefined']

        def one(k, s):
            o = '%s/o%d.o' % (d, k)
            compile_([CLANG] + flags + ['-c'], o, self.src(s))
            return o
        with cf.ThreadPoolExecutor(8) as ex:
            objs = [f.result() for f in [ex.submit(one, k, s) for k, s in enumerate(srcs)]]
        out = d + '/' + name
        run([CLANG] + flags + ['-o', out] + objs + list(libs), 'link ' + name)
        return out
