"""Compile /repo's current sources to LLVM IR with the project's own flags."""
import os, subprocess, tempfile, shutil, sys, hashlib
import ll

REPO = os.environ.get('XCC_REPO', '/repo')
ARCHN = {'x64': 'XCC_ARCH_X64', 'aarch64': 'XCC_ARCH_AARCH64', 'riscv64': 'XCC_ARCH_RISCV64', 'wasm': 'XCC_ARCH_WASM'}
_cache = {}

class BuildError(Exception):
    pass

def flags(part, arch):
    f = ['-ansi', '-std=c11', '-pedantic', '-D_DEFAULT_SOURCE', '-Isrc/util']
    if part == 'as':
        f += ['-Isrc/as', '-Isrc/as/arch/' + arch]
    elif part == 'cc':
        f += ['-Isrc/cc', '-Isrc/cc/frontend', '-Isrc/cc/backend', '-Isrc/cc/arch/' + arch]
    elif part == 'cpp':
        f += ['-Isrc/cpp', '-Isrc/cc/frontend']
    elif part == 'ld':
        f += ['-Isrc/ld', '-Isrc/as']
    elif part == 'wcc':
        f += ['-Isrc/cc', '-Isrc/cc/frontend', '-Isrc/cpp', '-Isrc/wcc', '-DTARGET_WASM'] 
        arch = 'wasm'
    f.append('-DXCC_TARGET_ARCH=' + ARCHN[arch])
    return f

def compile_ll(src, part, arch, extra=(), passes='sroa', opt='-O0'):
    key = (src, part, arch, tuple(extra), passes, opt)
    if key in _cache: return _cache[key]
    cmd = ['clang-18', '-S', '-emit-llvm', opt, '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
           '-g', '-w'] + flags(part, arch) + list(extra) + [src, '-o', '-']
    p = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise BuildError('%s: %s' % (src, p.stderr.decode()[-2000:]))
    out = p.stdout
    if passes:
        q = subprocess.run(['opt-18', '-S', '-passes=' + passes, '-'], input=out, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if q.returncode != 0:
            raise BuildError('%s: opt: %s' % (src, q.stderr.decode()[-2000:]))
        out = q.stdout
    m = ll.Module(out.decode('utf-8', 'replace'), name=src)
    _cache[key] = m
    return m

def compile_many(specs):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: compile_ll(*s[0], **s[1]) if isinstance(s[0], tuple) else compile_ll(*s), specs))
