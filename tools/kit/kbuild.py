# kbuild.py SRC OUT [extra flags]: compiles SRC against a ported copy of ./nntl (cwd = repository)
import sys, os, re, subprocess, collections, tempfile, shutil, json
here = os.path.dirname(os.path.abspath(__file__))
def build(src, out, extra=(), subst=()):
    d = out + '.src'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run([sys.executable, os.path.join(here, 'port.py'), os.path.join(os.getcwd(), 'nntl'), os.path.join(d, 'nntl')], check=True)
    os.makedirs(os.path.join(d, '_extern/rapidjson/include'))
    if os.path.isdir('/usr/include/rapidjson'): os.symlink('/usr/include/rapidjson', os.path.join(d, '_extern/rapidjson/include/rapidjson'))
    if os.path.exists(os.path.join(here, 'agner_random.h')):
        os.makedirs(os.path.join(d, '_extern/agner.org/AF_randomc_h')); shutil.copy(os.path.join(here, 'agner_random.h'), os.path.join(d, '_extern/agner.org/AF_randomc_h/random.h'))
    fj = os.path.join(here, 'fixes.json')
    if os.path.exists(fj):
        for f, pre, ins, post in json.load(open(fj)):
            p = os.path.join(d, f)
            if os.path.exists(p):
                t = open(p, 'rb').read().decode('latin1'); n = t.replace(pre + post, pre + ins + post)
                if n != t: open(p, 'wb').write(n.encode('latin1'))
    for fr, a, b in subst:
        for dd, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(dd, f)
                if re.search(fr, os.path.relpath(p, d)) and not os.path.islink(p):
                    t = open(p, 'rb').read().decode('latin1'); n = re.sub(a, b, t)
                    if n != t: open(p, 'wb').write(n.encode('latin1'))
    cmd = ('clang++-18 -std=c++17 -g -w -pthread -fno-strict-aliasing -fms-extensions -fms-compatibility -fms-compatibility-version=19 -fdelayed-template-parsing ' +
      ' '.join('-D__GCC_ATOMIC_%s_LOCK_FREE=2' % t for t in 'BOOL CHAR CHAR16_T CHAR32_T WCHAR_T SHORT INT LONG LLONG POINTER'.split()) +
      ' -D__GCC_ATOMIC_TEST_AND_SET_TRUEVAL=1 -D__cdecl= -D_aligned_malloc=_mm_malloc -D_aligned_free=_mm_free -O1').split() + list(extra) + ['-I' + d, '-I' + here, '-include', os.path.join(here, 'prelude.h'), '-U__OPTIMIZE__',
      '-fdiagnostics-absolute-paths', '-ferror-limit=0', src, '-o', out, '-lopenblas', '-llapacke']
    for it in range(30):
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
        if r.returncode == 0: return
        fx = collections.defaultdict(set)
        for l in r.stderr.split('\n'):
            m = re.match(r'(\S+?):(\d+):(\d+): error: (.*)', l)
            if not m: continue
            if "missing 'template' keyword" in m.group(4): fx[m.group(1)].add((int(m.group(2)), int(m.group(3)), b'template '))
            elif "missing 'typename' prior to dependent" in m.group(4): fx[m.group(1)].add((int(m.group(2)), int(m.group(3)), b'typename '))
            elif m.group(4).startswith("unexpected type name '"):
                L = open(m.group(1), 'rb').read().split(b'\n')[int(m.group(2)) - 1].decode('latin1'); q = re.search(r'(?:\w+(?:<[^<>]*>)?::)+$', L[:int(m.group(3)) - 1])
                if q and not L[:q.start()].endswith('typename '): fx[m.group(1)].add((int(m.group(2)), q.start() + 1, b'typename '))
        if not fx: sys.stderr.write(r.stderr[:800]); sys.exit(9)
        for f, S in fx.items():
            t = open(f, 'rb').read().split(b'\n')
            for ln, c, ins in sorted(S, reverse=True): t[ln-1] = t[ln-1][:c-1] + ins + t[ln-1][c-1:]
            open(f, 'wb').write(b'\n'.join(t))
    sys.exit(9)
if __name__ == '__main__': build(sys.argv[1], sys.argv[2], sys.argv[3:])
