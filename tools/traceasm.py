"""Inserts trace recording into assembly text without changing flags, stack or registers seen by the code: an identifier at every
label and after every conditional jump, the effective address of every memory operand that is not a fixed stack slot or constant,
the count and pointers of string instructions, and the operands of divisions and square roots. The instruction sequence itself stays the compiler's."""
import re, os, sys
MEM = re.compile(r'(?:%[cdefgs]s:)?[^\s,()$%]*(?:\([^()%]*\)[^\s,()$%]*)*\([^()]*%[^()]*\)')
JCC = re.compile(r'^j(?!mp)[a-z]+$|^loop')
R64 = {}
for n, names in {'rax': 'eax ax al', 'rbx': 'ebx bx bl', 'rcx': 'ecx cx cl', 'rdx': 'edx dx dl', 'rsi': 'esi si sil', 'rdi': 'edi di dil', 'rbp': 'ebp bp bpl'}.items():
    for w, r in zip('lwb', names.split()):
        R64[r] = (n, w)
    R64[n] = (n, 'q')
for i in range(8, 16):
    R64['r%d' % i] = ('r%d' % i, 'q')
    for s, w in (('d', 'l'), ('w', 'w'), ('b', 'b')):
        R64['r%d%s' % (i, s)] = ('r%d' % i, w)

def block(i):
    return ['movq %rax, sim_tr_save(%rip)', 'movq sim_tr_pos(%rip), %rax', 'movq $%d, (%%rax)' % -i, 'leaq 8(%rax), %rax', 'movq %rax, sim_tr_pos(%rip)', 'movq sim_tr_save(%rip), %rax']

def mem(op):
    op = re.sub(r'^%[cdefgs]s:', '', op)
    return ['movq %rax, sim_tr_save(%rip)', 'movq %rbx, sim_tr_save+8(%rip)', 'leaq %s, %%rax' % op, 'movq sim_tr_pos(%rip), %rbx', 'movq %rax, (%rbx)', 'leaq 8(%rbx), %rbx', 'movq %rbx, sim_tr_pos(%rip)', 'movq sim_tr_save+8(%rip), %rbx', 'movq sim_tr_save(%rip), %rax']

def size(op, args):
    """bytes a memory operand of an instruction covers at least"""
    m = re.match(r'^vp?broadcast[if]?(b|w|d|q|ss|sd|128)$', op)
    if m:
        return {'b': 1, 'w': 2, 'd': 4, 'q': 8, 'ss': 4, 'sd': 8, '128': 16}[m.group(1)]
    if re.match(r'^v?p(mov[sz]x|insr|extr)|^v?(mask|gather|pmask)|gather', op):
        return 1
    if re.search(r'[if]128$', op) and 'perm2' not in op:
        return 16
    if re.match(r'^v?mov([lh]p[sd]|q|sd|ddup)$', op) and re.search('%[xy]mm', args):
        return 32 if op.endswith('ddup') and '%ymm' in args else 8
    if re.match(r'^v?(movd|movss|.*ss)$', op) and re.search('%[xy]mm', args):
        return 4
    if re.match(r'^v.*sd$', op):
        return 8
    if '%ymm' in args:
        return 32
    if '%xmm' in args:
        return 16
    regs = [r for r in re.findall(r'%(\w+)', MEM.sub('', args, count=1)) if r in R64]
    w = R64[regs[-1]][1] if regs and not re.match(r'^(mov[sz]|sh|sa|ro)', op) else op[-1] if op[-1] in 'bwlq' else 'b'
    return {'b': 1, 'w': 2, 'l': 4, 'q': 8}[w]

def check(op, args, o):
    """calls the check of the simulator with the effective address in rax; keeps registers, flags and the red zone"""
    o = re.sub(r'^%[cdefgs]s:', '', o)
    n = size(op, args)
    if re.search(r'\(\s*%rsp', o):
        m = re.match(r'^(.*?)(\([^()]*\))$', o)
        o = '(%s)+136%s' % (m.group(1) or '0', m.group(2))
    return ['leaq -128(%rsp), %rsp', 'pushq %rax', 'leaq %s, %%rax' % o, 'call sim_chk_%d' % n, 'popq %rax', 'leaq 128(%rsp), %rsp']

CHECK = False
def values(regs):
    """records register values; regs are 64-bit names or (name, width)"""
    ptr = next(r for r in ('rax', 'rbx', 'r11', 'r10', 'r9', 'r8') if r not in [x[0] for x in regs])
    o = ['movq %%%s, sim_tr_save(%%rip)' % ptr, 'movq sim_tr_pos(%%rip), %%%s' % ptr]
    for k, (r, w) in enumerate(regs):
        o.append('movq $0, %d(%%%s)' % (8 * k, ptr))
        sub = {'q': r}
        for n, (f, ww) in R64.items():
            if f == r:
                sub[ww] = n
        o.append('mov%s %%%s, %d(%%%s)' % (w, sub[w], 8 * k, ptr))
    return o + ['leaq %d(%%%s), %%%s' % (8 * len(regs), ptr, ptr), 'movq %%%s, sim_tr_pos(%%rip)' % ptr, 'movq sim_tr_save(%%rip), %%%s' % ptr]

def floats(regs, kind):
    """records the operands of a floating-point division or square root that are in registers"""
    o, at = ['movq %rax, sim_tr_save(%rip)', 'movq sim_tr_pos(%rip), %rax'], 0
    for r in dict.fromkeys(regs):
        if kind[0] == 's':
            o += ['movq $0, %d(%%rax)' % at, 'v' * (r[0] != 'x') + 'movs%s %%%s, %d(%%rax)' % (kind[1], r, at)]; at += 8
        else:
            o.append(('movups %%%s, %d(%%rax)' if r[0] == 'x' else 'vmovups %%%s, %d(%%rax)') % (r, at)); at += {'x': 16, 'y': 32, 'z': 64}[r[0]]
    return o + ['leaq %d(%%rax), %%rax' % at, 'movq %rax, sim_tr_pos(%rip)', 'movq sim_tr_save(%rip), %rax']

def read(path, incdirs):
    out = []
    for line in open(path, errors='replace'):
        m = re.match(r'\s*\.include\s+"([^"]+)"', line)
        if m:
            for d in incdirs:
                if os.path.exists(d + '/' + m.group(1)):
                    out += read(d + '/' + m.group(1), incdirs)
                    break
            else:
                raise ValueError('cannot find ' + m.group(1))
        else:
            out.append(line.rstrip('\n'))
    return out

def rewrite(lines, base, name):
    out, sites, notes = ['.hidden sim_tr_pos', '.hidden sim_tr_save'] if not CHECK else ['.hidden sim_chk_%d' % n for n in (1, 2, 4, 8, 16, 32)], [], set()
    n, text, fn, macro = 0, True, name, False
    names = set()
    for l in lines:
        m = re.match(r'\s*\.macro\s+(\w+)', l)
        if m:
            names.add(m.group(1))
    def mark():
        nonlocal n
        if CHECK:
            return []
        n += 1
        sites.append((base + n, fn, len(out)))
        return block(base + n)
    for line in lines:
        l = re.sub(r'/\*.*?\*/', '', line)
        l = re.sub(r'(^|\s)#.*$', '', l) if not l.strip().startswith('.') else l
        parts = [p for p in l.split(';')] if '"' not in l else [l]
        for p in parts:
            s = p.strip()
            if not s:
                continue
            m = re.match(r'^([\w.$\\@]+):\s*(.*)$', s)
            lab = None
            if m:
                lab, s = m.group(1), m.group(2).strip()
                out.append(lab + ':')
                if text and not macro:
                    if not lab.startswith('.'):
                        fn = lab
                    out.extend(mark())
                if not s:
                    continue
            if s.startswith('.'):
                d = s.split()[0]
                if d in ('.text', '.data', '.bss'):
                    text = d == '.text'
                elif d in ('.section', '.pushsection'):
                    a = s.split(None, 1)[1]
                    text = a.startswith('.text') or ('ax' in a)
                elif d == '.popsection':
                    text = True
                elif d == '.macro':
                    macro = True
                elif d == '.endm':
                    macro = False
                out.append(s)
                continue
            if not text:
                out.append(s)
                continue
            w = s.split(None, 1)
            op, args = w[0], w[1] if len(w) > 1 else ''
            full = s
            while op in ('rep', 'repz', 'repe', 'repne', 'repnz', 'lock', 'notrack', 'bnd', 'vex', '{vex}') and args:
                w = args.split(None, 1)
                pre = op
                op, args = w[0], w[1] if len(w) > 1 else ''
                if not CHECK and pre.startswith('rep') and re.match(r'(stos|movs|cmps|scas|lods)', op):
                    out.extend(values([('rdi', 'q'), ('rsi', 'q'), ('rcx', 'q')]))
            if re.match(r'^(lea|nop|endbr|prefetch)', op) or op in names and '(' not in args:
                out.append(full)
                continue
            if re.match(r'^i?div[bwlq]?$', op) and not CHECK:
                a = args.strip()
                wd = op[-1] if op[-1] in 'bwlq' else None
                if a.startswith('%') and a[1:] in R64:
                    r, rw = R64[a[1:]]
                    regs = [('rax', rw), ('rdx', rw)] + ([(r, rw)] if r not in ('rax', 'rdx') else [])
                    out.extend(values(regs if rw != 'b' else [('rax', 'w'), (r, 'b')] if r != 'rax' else [('rax', 'w')]))
                else:
                    out.extend(values([('rax', wd or 'q'), ('rdx', wd or 'q')]))
            m = re.match(r'^v?(?:div|sqrt)([sp][sd])$', op)
            if m and not CHECK:
                ops = re.sub(r'\([^()]*\)', '()', args).split(',')
                ops = ops[:1] if 'sqrt' in op else ops[:2]                  # the destination of the three-operand form is not read
                out.extend(floats(re.findall(r'%([xyz]mm\d+)', ' '.join(ops)), m.group(1)))
            elif re.match(r'^f(i?div|sqrt)', op) and not CHECK:
                notes.add('floating-point operands of %s in %s are not part of the trace' % (op, fn))
            mm = MEM.search(args) if not re.match(r'^(jmp|call)', op) or '(' in args else None
            if mm:
                o = mm.group(0).lstrip('*')
                inner = o[o.rindex('('):]
                if re.search(r'%[xyz]mm', inner):
                    if CHECK:
                        notes.add('gather addresses in %s are not checked' % fn)
                    else:                                                    # base register and vector of indices (compilers gather all lanes)
                        b, x = re.match(r'^\(\s*(?:%(\w+))?\s*,\s*%([xyz]mm\d+)', inner).groups()
                        out.extend(floats([x], 'pd') + (values([(b, 'q')]) if b else []))
                elif CHECK and not re.match(r'^(j|call|push|pop)', op):
                    out.extend(check(op, args, o))
                elif CHECK:
                    pass
                elif '%rip' in inner or re.match(r'^\(\s*%rsp\s*\)$', inner) or re.match(r'^%[fg]s:', o):
                    pass
                else:
                    out.extend(mem(o))
            out.append(full)
            if JCC.match(op) and not macro:
                out.extend(mark())
    return out, sites, notes

if __name__ == '__main__':
    if sys.argv[1] == '--check':
        CHECK = True
        del sys.argv[1]
    src, dst, base, name = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    o, s, nt = rewrite(read(src, sys.argv[5:]), base, name)
    open(dst, 'w').write('\n'.join('\t' + x if not x.endswith(':') else x for x in o) + '\n')
    open(dst + '.sites', 'w').write(''.join('%d %s %s:%d\n' % (i, f, name, ln) for i, f, ln in s))
    open(dst + '.notes', 'w').write(''.join(x + '\n' for x in sorted(nt)))
