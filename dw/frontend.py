"""From /repo's current working tree to one LLVM module.

The library's source list is taken from CMake (the file is configured in a scratch copy),
every source is compiled to unoptimised IR, linked, and stack slots are promoted."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

LLVM = '/usr/lib/llvm-18/bin/'


class FrontendError(Exception):
    pass


def tool(n):
    for p in (LLVM + n, '/usr/bin/' + n + '-18', '/usr/bin/' + n):
        if os.path.exists(p):
            return p
    return n


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise FrontendError('%s failed:\n%s' % (' '.join(cmd[:6]), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')


def sources(src, build):
    """the translation units of the library, from CMake's compile commands"""
    run(['cmake', '-S', src, '-B', build, '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', '-DCMAKE_BUILD_TYPE=Debug'], cwd=src)
    with open(os.path.join(build, 'compile_commands.json')) as f:
        cc = json.load(f)
    out = []
    for e in cc:
        p = os.path.realpath(os.path.join(e['directory'], e['file']))
        rel = os.path.relpath(p, os.path.realpath(src))
        if rel.startswith('tests') or rel.startswith('examples') or rel.startswith('..'):
            continue
        if rel not in [r for r, _ in out]:
            cmd = e.get('command') or ' '.join(e['arguments'])
            keep = [a for a in cmd.split() if a[:2] in ('-I', '-D') or a.startswith('-std=')]
            out.append((rel, keep))
    if not out:
        raise FrontendError('no library sources found')
    return out


STATIC = set()         # linkage names of the static member functions


def access(path):
    """linkage name -> 'public' | 'protected' | 'private' of member functions, from the debug information"""
    out = {}
    rx = re.compile(r'linkageName: "([^"]+)"')
    declared = {}
    defined = []
    with open(path) as f:
        for line in f:
            if 'DISubprogram(' not in line:
                continue
            m = rx.search(line)
            if not m:
                # constructors and destructors: the declaration stands for several symbols
                n = line[:line.find(' ')]
                declared[n] = 'public' if 'DIFlagPublic' in line else 'protected' if 'DIFlagProtected' in line else None
                continue
            d = re.search(r'declaration: (!\d+)', line)
            if d:
                defined.append((m.group(1), d.group(1)))
            if 'DIFlagStaticMember' in line:
                STATIC.add(m.group(1))
            if 'DIFlagPublic' in line:
                out[m.group(1)] = 'public'
            elif 'DIFlagProtected' in line:
                out[m.group(1)] = 'protected'
            else:
                out.setdefault(m.group(1), 'private')
    for n, d in defined:
        if declared.get(d):
            out[n] = declared[d]
    return out


INLINE = '''
#include "Server.hpp"
#include "Client.hpp"
#include "SafeConnection.hpp"
using namespace DowowNetwork;
namespace dw_inline_uses {
    void use_copy(const SafeConnection &q) { SafeConnection c(q); }
    void use_delete(SafeConnection *q) { delete q; }
    Connection *use_call(SafeConnection &q) { return &q(); }
    void use_session(Connection *c, int *p) { c->SetSessionData<int>(p); }
    int *use_session2(Connection *c) { return c->GetSessionData<int>(); }
    void use_handlers(Server *s, ConnectionHandler h) { s->SetConnectedHandler(h); s->SetDisconnectedHandler(h); }
}
'''


COPIES = '''
#include <new>
#include <type_traits>
#include "Request.hpp"
#include "Datum.hpp"
#include "values/All.hpp"
namespace dw_inline_uses {
    template<class T> void use(T &a, const T &b, void *p) {
        if constexpr (std::is_copy_constructible_v<T>) new (p) T(b);
        if constexpr (std::is_copy_assignable_v<T>) a = b;
    }
    %s
}
'''


def copies(src):
    names = ['Datum', 'Request']
    for d in ('.', 'values'):
        for n in sorted(os.listdir(os.path.join(src, d))):
            if n.endswith('.hpp'):
                with open(os.path.join(src, d, n), errors='replace') as f:
                    names += re.findall(r'class\s+(\w+)\s*(?:final\s*)?:\s*public\s+Value\b', f.read())
    return COPIES % ' '.join('template void use<DowowNetwork::%s>(DowowNetwork::%s &, const DowowNetwork::%s &, void *);' % (n, n, n) for n in names)


def members(path):
    """class -> {byte offset: member name}, from the debug information"""
    nodes, cls = {}, {}
    with open(path) as f:
        for line in f:
            if line[0] != '!' or ' = ' not in line:
                continue
            if 'DW_TAG_member' in line and 'DIFlagStaticMember' not in line:
                m = re.match(r'!(\d+) = .*name: "([^"]+)", scope: !(\d+)', line)
                if m:
                    o = re.search(r'offset: (\d+)', line)
                    nodes.setdefault(m.group(3), {})[int(o.group(1)) // 8 if o else 0] = m.group(2)
            elif 'DW_TAG_class_type' in line and 'elements:' in line:
                m = re.match(r'!(\d+) = .*name: "([^"]+)".*size: (\d+)', line)
                if m:
                    cls[m.group(2)] = (m.group(1), int(m.group(3)) // 8)
    return {c: (nodes.get(i, {}), sz) for c, (i, sz) in cls.items() if c in (
        'Connection', 'Client', 'Server', 'SafeConnection', 'Request', 'Datum', 'Value')}


def build(repo='/repo', keep=None):
    """-> (Module, info)"""
    from . import ir
    tmp = tempfile.mkdtemp(prefix='dwfe.')
    try:
        src = os.path.join(tmp, 'src')
        shutil.copytree(repo, src, symlinks=True, ignore=shutil.ignore_patterns('.git', '_build', 'build', '*.o', '*.so'))
        if os.path.exists(os.path.join(src, 'prepare.py')):
            subprocess.run([sys.executable, 'prepare.py'], cwd=src, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        srcs = sources(src, os.path.join(tmp, 'b'))
        lls = []

        def one(x):
            rel, flags = x
            o = os.path.join(tmp, rel.replace('/', '__') + '.ll')
            std = [] if any(f.startswith('-std=') for f in flags) else ['-std=gnu++17']
            run([tool('clang++')] + std + flags + ['-I' + src, '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-Xclang', '-fsanitize-address-use-after-scope',
                 '-fno-discard-value-names', '-pthread', '-w', '-S', '-emit-llvm', '-o', o, rel], cwd=src)
            return o
        # what the headers define inline is only compiled where it is used
        with open(os.path.join(src, 'dw_inline.cpp'), 'w') as f:
            f.write(INLINE)

        with open(os.path.join(src, 'dw_copies.cpp'), 'w') as f:
            f.write(copies(src))

        def extra(name):
            try:
                return one((name, srcs[0][1]))
            except FrontendError as e:
                note.append(str(e)[:300])
        note = []
        with cf.ThreadPoolExecutor(8) as ex:
            x = [ex.submit(extra, n) for n in ('dw_inline.cpp', 'dw_copies.cpp')]
            lls = list(ex.map(one, srcs))
            lls += [y.result() for y in x if y.result()]
        linked = os.path.join(tmp, 'l.ll')
        run([tool('llvm-link'), '-S', '-o', linked] + lls)
        final = os.path.join(tmp, 'o.ll')
        run([tool('opt'), '-passes=sroa', '-S', '-o', final, linked])
        if keep:
            shutil.copy(final, keep)
        m = ir.Module(final)
        m.access = access(final)
        m.members = members(final)
        return m, {'sources': [r for r, _ in srcs], 'notes': note, 'functions': sum(1 for f in m.funcs.values() if not f.decl)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    m, info = build(keep=sys.argv[1] if len(sys.argv) > 1 else None)
    print(info)
