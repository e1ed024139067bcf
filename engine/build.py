"""Compilation of the harness translation units (which include the real sources of /repo) to LLVM IR and to a native server."""
import hashlib
import os
import re
import subprocess
import tempfile
import llir

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = []
for s in ('common', 'boosting', 'seco'):
    INC += ['-I%s/cpp/subprojects/%s/include' % (REPO, s), '-I%s/cpp/subprojects/%s/src' % (REPO, s)]
INC += ['-I%s/harness' % VERIF, '-I%s/harness/gen' % VERIF]
FLAGS = ['-std=c++20', '-fno-access-control', '-DMULTI_THREADING_SUPPORT_ENABLED=0', '-w']
PASSES = ('cgscc(devirt<4>(inline,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg<keep-loops;no-sink-common-insts;'
          'no-hoist-common-insts;no-forward-switch-cond;no-switch-to-lookup>,instsimplify))),globaldce')


# strings only occur in error messages; their operations have no effect on the verified state
STRINGS = r'^(std::__cxx11::basic_string<|std::__cxx11::to_string|std::to_string|std::allocator<char>|std::char_traits<char>)'


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd)[:300], p.stderr[-3000:]))
    return p.stdout


def to_ir(src, work, opaque=(), defs=()):
    """returns (Module, demangle dict, ir text). opaque: regexes of demangled names whose bodies are withheld (contracted)"""
    base = os.path.join(work, os.path.basename(src).replace('.cpp', ''))
    run(['clang++-18'] + FLAGS + list(defs) + ['-O2', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-ffp-contract=off',
                                              '-fno-math-errno', '-fno-vectorize'] + INC + [src, '-o', base + '.ll'], timeout=300)
    text = open(base + '.ll').read()
    names = sorted(set(re.findall(r'@(_Z[\w.$]+)', text)))
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    dem = {'@' + n: d for n, d in zip(names, p.stdout.split('\n'))}
    text = withhold(text, dem, list(opaque) + [STRINGS])
    open(base + '.ll', 'w').write(text)
    run(['opt-18', '-passes=' + PASSES, '-inline-threshold=100000', '-S', base + '.ll', '-o', base + '.o.ll'], timeout=300)
    text = open(base + '.o.ll').read()
    return llir.Module(text), dem, text


def withhold(text, dem, opaque):
    rx = [re.compile(o) for o in opaque]
    lines = text.split('\n')
    out = []
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('define '):
            m = re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(', ln)
            d = dem.get(m.group(1), m.group(1)[1:])
            j = i
            while lines[j] != '}':
                j += 1
            if any(r.search(d) for r in rx):
                h = ln[len('define '):]
                h = re.sub(r'^((linkonce_odr|weak_odr|internal|available_externally|private|dso_local|hidden)\s+)+', '', h)
                h = re.sub(r'\bcomdat(\(\$[^)]*\))?', '', h)
                h = re.sub(r'\bpersonality ptr @\w+', '', h)
                h = re.sub(r'(align \d+)? *\{\s*$', '', h)
                h = re.sub(r'!\w+ !\d+', '', h)
                h = re.sub(r'\b(local_)?unnamed_addr\b', '', h)
                out.append('declare ' + h)
                i = j + 1
                continue
            out += lines[i:j + 1]
            i = j + 1
            continue
        out.append(ln)
        i += 1
    return '\n'.join(out)


# ------------------------------------------------------------------ native server
CT = {'u8': 'uint8_t', 'bool': 'bool', 'u32': 'uint32_t', 'i32': 'int32_t', 'u64': 'uint64_t', 'i64': 'int64_t', 'f32': 'float',
      'f64': 'double'}


def server_source(src, contracts):
    from contract import Sc, Arr, KINDS
    o = ['#include "%s"' % src, '#include <cstdio>', '#include <cstdlib>', '#include <cstring>', '#include <stdexcept>',
         '#include <vector>', '#include <unistd.h>',
         'static void rd(void* p, size_t n) { char* c = (char*) p; while (n) { ssize_t k = read(0, c, n); if (k <= 0) _exit(0);'
         ' c += k; n -= k; } }',
         'static std::vector<char> vf_outbuf;',
         'static void wr(const void* p, size_t n) { vf_outbuf.insert(vf_outbuf.end(), (const char*) p, (const char*) p + n); }',
         'static void flush_out() { const char* c = vf_outbuf.data(); size_t n = vf_outbuf.size(); while (n) { ssize_t k = '
         'write(3, c, n); if (k <= 0) _exit(9); c += k; n -= k; } vf_outbuf.clear(); }',
         'struct Blk { void* p; uint32_t n; };',
         'static void* rdarr(uint32_t& bytes) { rd(&bytes, 4); void* p = malloc(bytes); rd(p, bytes); return p; }',
         'int main() { for (;;) { uint32_t id; rd(&id, 4); unsigned char status = 0; vf_outbuf.clear(); switch (id) {']
    for i, c in enumerate(contracts):
        o.append('case %d: {' % i)
        call = []
        for j, p in enumerate(c.params):
            if isinstance(p, Sc):
                o.append('%s a%d; rd(&a%d, sizeof(a%d));' % (CT[p.kind], j, j, j))
                call.append('a%d' % j)
            else:
                o.append('uint32_t n%d; void* a%d = rdarr(n%d);' % (j, j, j))
                call.append('(decltype(vf_argp<%d>(%s))) a%d' % (j, c.fn, j))
        args = ', '.join(call)
        rt = CT[c.ret] if c.ret else None
        if rt:
            o.append('%s r{}; try { r = %s(%s); } catch (...) { status = 1; }' % (rt, c.fn, args))
            o.append('wr(&status, 1); wr(&r, sizeof(r));')
        else:
            o.append('try { %s(%s); } catch (...) { status = 1; } wr(&status, 1);' % (c.fn, args))
        for j, p in enumerate(c.params):
            if isinstance(p, Arr):
                if p.out:
                    o.append('wr(a%d, n%d);' % (j, j))
                o.append('free(a%d);' % j)
        o.append('break; }')
    o.append('default: _exit(8); } flush_out(); } }')
    helper = ('#include <cstdint>\n#include <tuple>\n'
              'template<int I, typename R, typename... A> std::tuple_element_t<I, std::tuple<A...>> vf_argp(R (*)(A...));\n'
              'template<int I, typename R, typename... A> std::tuple_element_t<I, std::tuple<A...>> vf_argp(R (*)(A...) noexcept);\n')
    return helper + '\n'.join(o) + '\n'


def build_server(src, contracts, work, san=True, defs=()):
    base = os.path.join(work, 'srv_' + os.path.basename(src).replace('.cpp', ''))
    open(base + '.cpp', 'w').write(server_source(src, contracts))
    cmd = ['clang++-18'] + FLAGS + list(defs) + ['-O1', '-g0', '-DVF_NATIVE=1', '-ffp-contract=off'] + INC
    if san:
        cmd += ['-fsanitize=address,bounds,null', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    run(cmd + [base + '.cpp', '-o', base, '-lm'], timeout=600)
    return base
