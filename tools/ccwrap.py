"""Stand-in for the compiler in "make shared": fixes the target processor, optionally instruments, keeps the recipe otherwise."""
import os, sys, subprocess, tempfile, shutil
a = [{'-march=native': '-march=x86-64-v3', '-mtune=native': '-mtune=generic'}.get(x, x) for x in sys.argv[1:]]
a = [x for x in a if not (x.startswith('-W') and not x.startswith('-Wl,'))]
fl = os.environ.get('SIM_FLAVOR', 'ship')
extra = ['-fsanitize=thread'] if fl == 'tsan' else []
wrap = ['-Wl,--wrap=' + w for w in os.environ['SIM_WRAP'].split() if fl == 'tsan' or not w.startswith(('mem', '__mem'))]
if '-c' in a or '-shared' not in a:
    sys.exit(subprocess.call(['/usr/bin/gcc'] + a + (extra + ['-fPIC'] if '-c' in a else [])))
out = a[a.index('-o') + 1]
src = [x for x in a if x.endswith(('.c', '.S', '.s'))]
rest, skip = [], False
for x in a:
    if skip: skip = False; continue
    if x == '-o': skip = True; continue
    if x not in src: rest.append(x)
tmp = tempfile.mkdtemp(dir=os.path.dirname(os.path.abspath(out)) or '.')
try:
    objs, cf = [], [x for x in rest if x != '-shared' and not x.endswith('.o') and x not in ('-z', 'noexecstack')]
    for i, s in enumerate(src):
        o = '%s/%d.o' % (tmp, i)
        r = subprocess.call(['/usr/bin/gcc'] + cf + extra + ['-w', '-c', s, '-o', o])
        if r: sys.exit(r)
        objs.append(o)
    sys.exit(subprocess.call(['/usr/bin/gcc'] + [x for x in rest] + objs + ['-nostartfiles', '-Wl,-z,lazy'] + wrap + ['-o', out]))
finally:
    shutil.rmtree(tmp)
