"""Go backend: the real packages of /repo plus the contracts of /verif/contracts/go are loaded with go/packages, translated from
their go/ssa form to LLVM IR by gotool and then go through the same verification condition generator as the C++ code."""
import json
import os
import re
import subprocess

MODULE = 'github.com/Fantom-foundation/Tosca'
LLVM = '/usr/lib/llvm-18/bin/'
GO_ENV = {'GOTOOLCHAIN': 'local', 'GOFLAGS': '-mod=mod', 'GOPROXY': 'off', 'GOSUMDB': 'off', 'CGO_ENABLED': '0', 'GOWORK': 'off'}


def tool(n):
    return LLVM + n if os.path.exists(LLVM + n) else n + '-18'


class Go:
    def __init__(self, spec, work, repo, root):
        self.spec, self.work, self.repo, self.root = spec, work, repo, root
        self.units = [tuple(u) for u in spec['src']]      # (package directory in the repository, contract file)
        self.env = dict(os.environ, **GO_ENV)
        self.env.setdefault('HOME', '/root')
        if os.environ.get('VC_GOCACHE'):
            self.env['GOCACHE'] = os.environ['VC_GOCACHE']
        self.native = {}

    def sh(self, cmd, timeout=600, **kw):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=self.env, **kw)

    def error(self, msg):
        import __main__
        E = getattr(__main__, 'BuildError', None)
        return (E or Exception)(msg)

    def sources(self):
        t = '\n'.join(open(f'{self.root}/contracts/go/{f}').read() for _, fs in self.units for f in fs.split('+'))
        return re.sub(r'\bvc\.Cover\("', '__vc_cover("', t)

    def modfile(self):
        """the module file of the checks: the repository's packages, the contract intrinsics, stand-ins for absent dependencies"""
        g = os.path.join(self.work, 'go.mod')
        if os.path.exists(g):
            return g
        stubs = os.path.join(self.root, 'stubs/go')
        req, rep = [], []
        for d in sorted(os.listdir(stubs)):
            m = os.path.join(stubs, d, 'go.mod')
            if os.path.exists(m):
                path = re.search(r'^module (\S+)', open(m).read(), re.M).group(1)
                v = 'v2.0.0' if path.endswith('/v2') else 'v11.0.0' if path.endswith('/v11') else 'v0.0.0'
                req.append(f'\t{path} {v}\n')
                rep.append(f'replace {path} => {stubs}/{d}\n')
        with open(g, 'w') as f:
            f.write(f'module {MODULE}\n\ngo 1.22.0\n\nrequire (\n{"".join(req)})\n\n{"".join(rep)}')
        open(g[:-3] + 'sum', 'w').close()
        return g

    def overlay(self, pkg, src):
        """files of the package under contract: path -> content file"""
        ov = {os.path.join(self.repo, pkg, f'zz_vc_{i}.go'): os.path.join(self.root, 'contracts/go', f) for i, f in enumerate(src.split('+'))}
        # code outside the verifier's language (cgo bindings, generated mocks) is replaced by the stand-ins listed with the check
        for path, repl in self.spec.get('replace', {}).items():
            ov[os.path.join(self.repo, path)] = os.path.join(self.root, 'contracts/go', repl)
        return ov

    def pkgname(self, src):
        return re.search(r'^package (\w+)', open(os.path.join(self.root, 'contracts/go', src.split('+')[0])).read(), re.M).group(1)

    def build(self):
        exe = os.path.join(self.work, 'gotool')
        r = self.sh(['go', 'build', '-o', exe, '.'], cwd=os.path.join(self.root, 'gotool'))
        if r.returncode != 0:
            raise Exception('gotool does not build: ' + r.stdout.decode()[-2000:])
        rt = os.path.join(self.work, 'rt.bc')
        r = self.sh(['clang-18' if os.path.exists('/usr/bin/clang-18') else 'clang', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin-memcmp', '-w', '-std=c2x', '-c', '-emit-llvm', os.path.join(self.root, 'stubs/go/rt.c'), '-o', rt])
        if r.returncode != 0:
            raise Exception('runtime does not build: ' + r.stdout.decode()[-2000:])
        res = []
        mod = self.modfile()
        for k, (pkg, src) in enumerate(self.units):
            raw = os.path.join(self.work, f'g{k}.ll')
            job = {'Dir': self.repo, 'Modfile': mod, 'Overlay': self.overlay(pkg, src), 'Harness': f'{MODULE}/{pkg}', 'Out': raw, 'NoInit': self.spec.get('noinit', [])}
            r = self.sh([exe], input=json.dumps(job).encode())
            if r.returncode != 0:
                raise self.error(f'translation of {pkg} with {src} failed:\n' + r.stdout.decode(errors='replace')[-3000:])
            out = os.path.join(self.work, f'u{k}.ll')
            keep = ','.join(sorted(set(re.findall(r'^define [^@]*@((?:vch_|vinv2?_|vcontract_)\w+)\(', open(raw).read(), re.M))))
            # functions replaced by their contract in other contracts' proofs keep their identity through the optimizer
            if self.spec.get('contracts'):
                pat = re.compile(r'^define [^@]*@(\w*(?:' + '|'.join(self.spec['contracts']) + r')\w*)\(.*$', re.M)
                txt = open(raw).read()
                names = [m.group(1) for m in pat.finditer(txt) if not m.group(1).startswith('vc')]
                txt = pat.sub(lambda m: m.group(0) if m.group(1).startswith('vc') else re.sub(r' (#\d+)? ?\{$', lambda k: f' noinline {k.group(1) or ""} {{', m.group(0)), txt)
                open(raw, 'w').write(txt)
                keep += ''.join(',' + n for n in names)
            opt = self.spec.get('passes', 'default<O1>')
            full = f'{tool("llvm-link")} {raw} {rt} -o {raw}.bc && {tool("opt")} -passes="internalize,globaldce,{opt}" -internalize-public-api-list={keep} -S {raw}.bc -o {out}'
            r = self.sh(['bash', '-c', full])
            if r.returncode != 0:
                raise Exception('translated code is not valid LLVM: ' + r.stdout.decode(errors='replace')[-3000:])
            res.append(((pkg, src), open(out).read()))
        return res

    # ------------------------------------------------------------ replay on the real code
    def build_native(self, u, harnesses):
        key = str(u)
        if key in self.native:
            return self.native[key]
        pkg, src = u
        n = len(self.native)
        tab = os.path.join(self.work, f'tab{n}.go')
        with open(tab, 'w') as f:
            f.write(f'package {self.pkgname(src)}\n\nfunc VCHarnesses() map[string]func() {{\n\treturn map[string]func(){{\n' + ''.join(f'\t\t"{h}": {h},\n' for h in harnesses) + '\t}\n}\n')
        mainf = os.path.join(self.work, f'main{n}.go')
        with open(mainf, 'w') as f:
            f.write(f'package main\n\nimport (\n\t"vc"\n\n\tp "{MODULE}/{pkg}"\n)\n\nfunc main() {{ vc.Main(p.VCHarnesses()) }}\n')
        ov = self.overlay(pkg, src)
        ov[os.path.join(self.repo, pkg, 'zz_vc_table.go')] = tab
        ov[os.path.join(self.repo, 'go/zz_vcmain/main.go')] = mainf
        ovf = os.path.join(self.work, f'ov{n}.json')
        json.dump({'Replace': ov}, open(ovf, 'w'))
        exe = os.path.join(self.work, f'native{n}')
        r = self.sh(['go', 'build', '-overlay', ovf, '-modfile', self.modfile(), '-o', exe, './go/zz_vcmain'], cwd=self.repo)
        if r.returncode != 0:
            print('note: native replay build failed: ' + r.stdout.decode(errors='replace')[-1500:])
            exe = None
        self.native[key] = exe
        return exe

    def exec_native(self, exe, args, timeout):
        try:
            r = subprocess.run(['bash', '-c', 'ulimit -v 16000000; exec "$@"', 'x', exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            return r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired as e:
            return 124, (e.stdout or b'').decode(errors='replace') + '\nTIMEOUT'
