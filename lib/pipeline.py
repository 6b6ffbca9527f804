"""Turns the working tree in /repo into running, monitored code.

build_vgen: compiles the generator of /repo into a driver;
generate:   feeds it corpus packages, each inside its own throw-away module;
compile_:   compiles what it produced together with the monitors in harness/.
Everything happens below one scratch directory that the caller removes.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def go_env():
    env = dict(os.environ)
    try:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
        for kv in out.decode(errors='replace').split('\0'):
            if '=' in kv:
                k, v = kv.split('=', 1)
                if k.startswith('GO') or k in ('PATH', 'HOME', 'CGO_ENABLED'):
                    env[k] = v
    except OSError:
        pass
    env['GOFLAGS'] = '-mod=mod'
    env['GOPROXY'] = 'off'
    env['GOWORK'] = 'off'
    env.setdefault('GOTOOLCHAIN', 'local')
    env.setdefault('HOME', '/root')
    return env


class BuildError(Exception):
    pass


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vjverif-')
        self.env = go_env()
        self.vgen = None
        self.gen_fail = {}
        self.build_fail = {}
        self.pkgs = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def run(self, cmd, cwd, timeout=600, env=None):
        return subprocess.run(cmd, cwd=cwd, env=env or self.env, capture_output=True, text=True, timeout=timeout,
                              errors='replace')

    # -- generator -----------------------------------------------------
    def build_vgen(self, race=False):
        src = os.path.join(self.dir, 'driver')
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, 'driver'), src)
            m = open(os.path.join(src, 'go.mod')).read().replace('/repo', REPO)
            open(os.path.join(src, 'go.mod'), 'w').write(m)
        out = os.path.join(self.dir, 'vgen')
        r = self.run(['go', 'build', '-o', out, '.'], src)
        if r.returncode:
            raise BuildError('generator driver does not build:\n' + r.stderr[-3000:])
        self.vgen = out
        return out

    def call_vgen(self, args, cwd=None, timeout=120):
        r = self.run([self.vgen] + args, cwd or self.dir, timeout)
        res = []
        for line in r.stdout.split('\n'):
            if line.startswith('{'):
                try:
                    res.append(json.loads(line))
                except ValueError:
                    pass
        return r, res

    # -- corpus --------------------------------------------------------
    @property
    def corp(self):
        return os.path.join(self.dir, 'corp')

    def write_pkg(self, pkg, root, gomod=True):
        for path, src in pkg['files'].items():
            full = os.path.join(root, path)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, 'w') as f:
                f.write(src)
        if gomod:
            with open(os.path.join(root, 'go.mod'), 'w') as f:
                f.write('module %s\n\ngo 1.21\n' % pkg['mod'])

    def gen_pkg(self, pkg, root):
        """generates in root; returns None or a failure text"""
        self.write_pkg(pkg, root)
        args = []
        if pkg.get('internals'):
            args += ['-internals', ','.join(pkg['internals'])]
        for g in pkg['gen']:
            p = os.path.join(root, g)
            args += [p, out_name(p)]
        try:
            r, res = self.call_vgen(args)
        except subprocess.TimeoutExpired:
            return 'the generator does not terminate'
        bad = [x for x in res if not x['ok']]
        if r.returncode or bad or len(res) != len(pkg['gen']):
            return '; '.join((x.get('panic') or x.get('err') or '?') for x in bad) or r.stderr[-800:] or 'no result'
        os.remove(os.path.join(root, 'go.mod'))
        return None

    def generate(self, pkgs, workers=8):
        if not self.vgen:
            self.build_vgen()
        os.makedirs(os.path.join(self.corp, 'c'), exist_ok=True)
        with cf.ThreadPoolExecutor(workers) as ex:
            futs = {ex.submit(self.gen_pkg, p, os.path.join(self.corp, 'c', p['name'])): p for p in pkgs}
            for f in cf.as_completed(futs):
                p = futs[f]
                e = f.result()
                if e:
                    self.gen_fail[p['name']] = e
                    shutil.rmtree(os.path.join(self.corp, 'c', p['name']), ignore_errors=True)
        self.pkgs = [p for p in pkgs if p['name'] not in self.gen_fail]
        return self.pkgs

    def write_module(self):
        base = os.path.join(REPO, 'test/tests/fill')
        m = open(os.path.join(base, 'go.mod')).read()
        m = re.sub(r'^module .*$', 'module corp', m, flags=re.M)
        open(os.path.join(self.corp, 'go.mod'), 'w').write(m)
        shutil.copy(os.path.join(base, 'go.sum'), os.path.join(self.corp, 'go.sum'))
        hx = os.path.join(self.corp, 'hx')
        shutil.rmtree(hx, ignore_errors=True)
        os.makedirs(hx)
        for f in sorted(os.listdir(os.path.join(VERIF, 'harness'))):
            if f.endswith('.go'):
                shutil.copy(os.path.join(VERIF, 'harness', f), os.path.join(hx, f))
        os.makedirs(os.path.join(self.corp, 'run'), exist_ok=True)
        with open(os.path.join(self.corp, 'run', 'main.go'), 'w') as f:
            f.write('package main\n\nimport (\n\t"corp/hx"\n\t"corp/reg"\n)\n\nfunc main() { hx.Main(reg.All()) }\n')

    def write_registry(self, corpus):
        imps, body = [], ''
        n = 0
        for p in self.pkgs:
            if p['name'] in self.build_fail:
                continue
            aliases = {}
            hidden = {}
            for t in corpus.types_of(p):
                if not t['name'][0].isupper():  # reachable from here through an exported alias only
                    hidden.setdefault(t['sub'], []).append(t['name'])
            for sub, ns in hidden.items():
                d = os.path.join(self.corp, 'c', p['name'], sub)
                src = next(s for f, s in p['files'].items() if f.endswith('.go') and os.path.dirname(f) == sub)
                with open(os.path.join(d, 'vt_export.go'), 'w') as f:
                    f.write('package %s\n\n' % re.search(r'^package (\w+)', src, re.M).group(1))
                    f.writelines('type VT_%s = %s\n' % (x, x) for x in ns)
            for t in corpus.types_of(p):
                path = 'corp/c/' + p['name'] + ('/' + t['sub'] if t['sub'] else '')
                a = aliases.get(path)
                if not a:
                    a = 'p%d' % n
                    n += 1
                    aliases[path] = a
                    imps.append('\t%s "%s"' % (a, path))
                body += '\t\t{ID: %s, Class: %s, Tags: %s, Pkg: %s, Feat: %s, New: func() any { return new(%s.%s) }},\n' % (
                    q(p['name'] + ('/' + t['sub'] if t['sub'] else '') + '.' + t['name']), q(t['class']),
                    '[]string{%s}' % ', '.join(q(x) for x in t['tags']), q(p['name']), q(t['feat']), a, ('' if t['name'][0].isupper() else 'VT_') + t['name'])
        os.makedirs(os.path.join(self.corp, 'reg'), exist_ok=True)
        with open(os.path.join(self.corp, 'reg', 'reg.go'), 'w') as f:
            f.write('package reg\n\nimport (\n\t"corp/hx"\n%s\n)\n\nfunc All() []*hx.TypeInfo {\n\treturn []*hx.TypeInfo{\n%s\t}\n}\n'
                    % ('\n'.join(imps), body))

    def compile(self, corpus, race=False, out='monitor'):
        """builds the monitor binary, leaving out packages whose generated code does not compile"""
        self.write_module()
        binp = os.path.join(self.dir, out)
        for attempt in range(6):
            self.write_registry(corpus)
            cmd = ['go', 'build', '-o', binp]
            if race:
                cmd.insert(2, '-race')
            r = self.run(cmd + ['./run'], self.corp, timeout=840)
            if r.returncode == 0:
                return binp
            bad = {}
            cur = None
            for line in r.stderr.split('\n'):
                m = re.match(r'# corp/c/([^/\s]+)', line)
                if m:
                    cur = m.group(1)
                    continue
                m = re.match(r'(?:\./)?c/([^/]+)/[^:]*:\d+:\d+: (.*)', line)
                if m:
                    bad.setdefault(m.group(1), line)
                    continue
                m = re.match(r'package corp/c/([^/\s]+)', line)
                if m:
                    bad.setdefault(m.group(1), line)
            known = {p['name'] for p in self.pkgs}
            bad = {k: v for k, v in bad.items() if k in known}
            if not bad:
                raise BuildError('the monitor does not build:\n' + r.stderr[-4000:])
            self.build_fail.update(bad)
            for k in bad:
                shutil.rmtree(os.path.join(self.corp, 'c', k), ignore_errors=True)
        raise BuildError('the corpus does not build')


def out_name(p):
    return p[:-3] + '.gen.go'


def q(s):
    return json.dumps(s, ensure_ascii=False)
