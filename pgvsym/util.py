"""Scratch directories, Go environment, building the plugin from /repo."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get('PGV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


class BuildError(Exception):
    """/repo's code, or code it generated, does not build or run."""
    def __init__(self, what, out):
        Exception.__init__(self, what + '\n' + out[-4000:])
        self.what, self.out = what, out


def run(cmd, cwd=None, env=None, input=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, input=input, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


class Scratch:
    def __init__(self, keep=False):
        self.dir = tempfile.mkdtemp(prefix='pgvsym.')
        self.pid = os.getpid()
        if not keep and not os.environ.get('PGV_KEEP'):
            atexit.register(self.clean)
        self.gocache = os.path.join(self.dir, 'gocache')
        base = '/opt/vp/gocache'
        if os.path.isdir(base):
            rc, _ = run(['cp', '-a', base, self.gocache])
            if rc:
                shutil.rmtree(self.gocache, ignore_errors=True)
        os.makedirs(self.gocache, exist_ok=True)
        self.env = dict(os.environ)
        self.env.update(GOCACHE=self.gocache, GOPROXY='off', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', CGO_ENABLED='0',
                        GOSUMDB='off', GOWORK='off', GOMODCACHE='/root/go/pkg/mod', GOPATH='/root/go',
                        LANG='C.UTF-8')
        self.tools = {}

    def clean(self):
        if os.getpid() == self.pid:
            shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write(self, rel, text):
        p = self.path(rel)
        with open(p, 'w') as f:
            f.write(text)
        return p

    # -- tools ---------------------------------------------------------
    def gotool(self):
        out = self.path('bin', 'gotool')
        if not os.path.exists(out):
            src = self.path('gotool_src', 'x')
            d = os.path.dirname(src)
            for f in ('main.go', 'go.mod', 'go.sum'):
                shutil.copy(os.path.join(VERIF, 'gotool', f), d)
            rc, o = run(['go', 'build', '-o', out, '.'], cwd=d, env=self.env)
            if rc:
                raise RuntimeError('gotool does not build: ' + o)
        return out

    def plugin(self):
        out = self.path('bin', 'protoc-gen-validate')
        if not os.path.exists(out):
            env = dict(self.env, GOFLAGS='-mod=readonly')
            rc, o = run(['go', 'build', '-o', out, '.'], cwd=REPO, env=env)
            if rc:
                raise BuildError('go build of the plugin', o)
            rc, o = run(['go', 'build', '-o', self.path('bin', 'protoc-gen-go'), 'google.golang.org/protobuf/cmd/protoc-gen-go'], cwd=REPO, env=env)
            if rc:
                raise RuntimeError('protoc-gen-go does not build: ' + o)
        return out

    def protos(self, files):
        """files: {relative name: text}; written under proto/."""
        for n, t in files.items():
            self.write('proto/' + n, t)
        self.protonames = list(files)

    def descriptors(self):
        from .desc import Pool
        out = self.path('ds.bin')
        rc, o = run(['protoc', '-I', self.path('proto'), '-I', REPO, '--include_imports', '--descriptor_set_out=' + out] + self.protonames, cwd=self.path('proto'))
        if rc:
            raise RuntimeError('protoc rejects the matrix: ' + o)
        return Pool(open(out, 'rb').read())

    def gen(self, lang, names, outdir, extra=''):
        """Runs the real plugin; returns (rc, output)."""
        self.plugin()
        os.makedirs(outdir, exist_ok=True)
        env = dict(self.env, PATH=self.path('bin') + ':' + self.env['PATH'])
        return run(['protoc', '-I', self.path('proto'), '-I', REPO, '--plugin=' + self.plugin(),
                    '--validate_out=%slang=%s:%s' % (extra, lang, outdir)] + list(names), cwd=self.path('proto'), env=env)

    GOMOD = '''module pgvscratch

go 1.21

require (
	github.com/envoyproxy/protoc-gen-validate v0.0.0
	google.golang.org/protobuf v1.26.0
)

replace github.com/envoyproxy/protoc-gen-validate => %s
'''

    def gomodule(self):
        d = os.path.dirname(self.path('go', 'x'))
        if not os.path.exists(os.path.join(d, 'go.mod')):
            self.write('go/go.mod', self.GOMOD % REPO)
            sums = set(open(os.path.join(REPO, 'go.sum')).read().split('\n'))
            for extra in (os.path.join(REPO, 'tests', 'go.sum'), '/opt/vp/tests.extra.sum'):
                if os.path.exists(extra):
                    sums |= set(open(extra).read().split('\n'))
            self.write('go/go.sum', '\n'.join(sorted(x for x in sums if x)) + '\n')
        return d

    def gen_go(self, names):
        """protoc-gen-go + validate lang=go into the scratch module."""
        d = self.gomodule()
        self.plugin()
        env = dict(self.env, PATH=self.path('bin') + ':' + self.env['PATH'])
        rc, o = run(['protoc', '-I', self.path('proto'), '-I', REPO, '--plugin=' + self.path('bin', 'protoc-gen-go'),
                     '--go_out=module=pgvscratch:' + d] + list(names), cwd=self.path('proto'), env=env)
        if rc:
            raise RuntimeError('protoc-gen-go: ' + o)
        rc, o = self.gen('go', names, d, 'module=pgvscratch,')
        if rc:
            raise BuildError('generating Go validators', o)
