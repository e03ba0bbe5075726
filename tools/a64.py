"""A64 on this machine: assembly text for aarch64 (the GNU syntax) is checked as an assembler would and translated,
instruction by instruction, to x86-64 assembly that works on registers and a stack of its own (harness/a64rt.c).
What AAPCS64 leaves undefined after a call (x0-x18, x30, flags, memory below SP) is overwritten, SP must be aligned
whenever it is used as a base, and x19-x29 and SP must be what they were when a function returns."""
import re


class Bad(Exception):
    """Text an assembler for aarch64 refuses."""


class Unknown(Exception):
    """Text that may be right but is outside what is translated here."""


COND = dict(eq='e', ne='ne', cs='ae', hs='ae', cc='b', lo='b', hi='a', ls='be', ge='ge', lt='l', gt='g', le='le', mi='s', pl='ns')
SYM = r'[A-Za-z_.$][\w.$]*'
DATA = {'.xword': 'quad', '.8byte': 'quad', '.quad': 'quad', '.dword': 'quad', '.word': 'long', '.4byte': 'long', '.long': 'long', '.int': 'long',
        '.hword': 'short', '.2byte': 'short', '.short': 'short', '.byte': 'byte'}


def strip(line):
    """A line without comments, cut into statements, strings kept."""
    out, cur, i, q = [], '', 0, False
    while i < len(line):
        ch = line[i]
        if q:
            cur += ch
            if ch == '\\' and i + 1 < len(line):
                cur += line[i + 1]
                i += 1
            elif ch == '"':
                q = False
        elif ch == '"':
            q = True
            cur += ch
        elif line.startswith('//', i):
            break
        elif ch == ';':
            out.append(cur)
            cur = ''
        else:
            cur += ch
        i += 1
    if q:
        raise Bad('unterminated string: %s' % line.strip()[:80])
    out.append(cur)
    return [x.strip() for x in out if x.strip()]


def string(s):
    """The bytes of a quoted string, with the escapes of the assembler."""
    out, i = [], 0
    while i < len(s):
        ch = s[i]
        if ch != '\\':
            out.append(ord(ch))
            i += 1
            continue
        if i + 1 >= len(s):
            raise Bad('string ends in a backslash: %r' % s[:60])
        e = s[i + 1]
        i += 2
        if e in 'bfnrt"\\':
            out.append(ord({'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}.get(e, e)))
        elif e in '01234567':
            m = re.match('[0-7]{1,3}', s[i - 1:])
            out.append(int(m.group(), 8) & 255)
            i += len(m.group()) - 1
        elif e in 'xX':
            m = re.match('[0-9a-fA-F]*', s[i:])
            out.append(int(m.group() or '0', 16) & 255)
            i += len(m.group())
        else:       # a warning; the character itself
            out.append(ord(e))
    return out


def bitmask(v, width=64):
    v &= (1 << width) - 1
    if v in (0, (1 << width) - 1):
        return False
    size = width
    while size > 2 and (v & ((1 << size // 2) - 1)) == ((v >> size // 2) & ((1 << size // 2) - 1)):
        size //= 2
    e = v & ((1 << size) - 1)
    m = (1 << size) - 1
    return any(((e >> r | e << (size - r)) & m) in {(1 << k) - 1 for k in range(1, size)} for r in range(size))


def movable(v, width=64):
    m = (1 << width) - 1
    v &= m
    return any((x & ~(0xffff << s) & m) == 0 for x in (v, v ^ m) for s in range(0, width, 16)) or bitmask(v, width)


class Trans:
    def __init__(self, text, uid):
        self.uid = uid
        self.alias = {'fp': 29, 'lr': 30, 'ip0': 16, 'ip1': 17, 'sp': 31}
        self.alias.update({'x%d' % k: k for k in range(31)})
        self.out = []
        self.n = 0
        self.kinds = set()
        lines = text.split('\n')
        stmts = []
        cont = ''
        for k, l in enumerate(lines):
            if cont:
                l = cont + '\n' + l
                cont = ''
            try:
                stmts += [(k + 1, s) for s in strip(l)]
            except Bad:
                # a string may go over a line end
                if l.count('\n') < 50:
                    cont = l
                    continue
                raise
        if cont:
            raise Bad('unterminated string: %s' % cont[:80])
        # labels first: which ones are code
        sec, self.code, self.data, seen = 'text', set(), set(), set()
        self.dirs = []
        for ln, s in stmts:
            m = re.match(r'(%s|\d+):\s*' % SYM, s)
            while m:
                name = m.group(1)
                if not name.isdigit():
                    if name in seen:
                        raise Bad('line %d: label %s is defined twice' % (ln, name))
                    seen.add(name)
                    (self.code if sec == 'text' else self.data).add(name)
                self.dirs.append((ln, sec, 'label', name))
                s = s[m.end():]
                m = re.match(r'(%s|\d+):\s*' % SYM, s)
            if not s:
                continue
            w = s.split(None, 1)
            if w[0] in ('.section', '.text', '.data', '.bss'):
                sec = (w[1].split(',')[0] if w[0] == '.section' else w[0]).lstrip('.')
                if sec not in ('text', 'data', 'rodata', 'bss') and not sec.startswith('debug'):
                    raise Unknown('section %s' % sec)
                continue
            self.dirs.append((ln, sec, 'stmt', s))
        self.global_ = set()
        self.used = set()      # code labels whose address is taken
        sec = None
        for ln, s, kind, x in self.dirs:
            self.ln = ln
            try:
                if s.startswith('debug'):
                    if kind == 'stmt':
                        self.debug(x)
                    continue
                if s != sec:
                    self.emit('.section .%s' % s)
                    sec = s
                if kind == 'label':
                    if x.isdigit():
                        raise Unknown('number as a label')
                    self.emit('%s%s:' % ('a64c' if x in self.code else '', x))
                elif x[0] == '.' or '.req' in x.split()[1:2]:
                    self.directive(x)
                else:
                    self.instr(x)
            except Bad as e:
                raise Bad('line %d: %s' % (ln, e))
        if self.code:
            self.emit('.section .text')
        for l in sorted(self.used):
            if l in self.global_:
                self.emit('.globl %s' % l)
            self.emit('%s:' % l)
            self.emit('leaq a64c%s(%%rip), %%rax' % l)
            self.emit('jmp a64_enter')
        self.emit('.section .note.GNU-stack,"",@progbits')

    def emit(self, s):
        self.out.append(s)

    def debug(self, x):
        w = x.split(None, 1)
        if w[0] in ('.string', '.asciz', '.ascii'):
            self.strings(w[1] if len(w) > 1 else '')
        elif w[0] not in DATA and w[0] not in ('.uleb128', '.sleb128', '.align', '.p2align', '.balign', '.zero', '.loc', '.file'):
            raise Unknown('%s in a debug section' % w[0])

    def strings(self, a):
        out, a = [], a.strip()
        while True:
            m = re.match(r'"((?:[^"\\]|\\.)*)"\s*', a, re.S)
            if not m:
                raise Bad('string expected: %s' % a[:60])
            out.append(string(m.group(1)))
            a = a[m.end():]
            if not a:
                return out
            if a[0] != ',':
                raise Bad('junk after a string: %s' % a[:60])
            a = a[1:].strip()

    def ref(self, sym):
        """The name under which data and other files know a symbol."""
        if sym in self.code:
            self.used.add(sym)
        return sym

    def directive(self, x):
        w = x.split(None, 1)
        d, a = w[0], (w[1].strip() if len(w) > 1 else '')
        if a.startswith('.req'):
            self.alias[d.lower()] = self.reg(a.split()[1])
            return
        if d in ('.align', '.p2align'):
            self.emit('.p2align %d' % int(a, 0))
        elif d == '.balign':
            self.emit('.balign %d' % int(a, 0))
        elif d in ('.global', '.globl'):
            if a in self.code:
                self.global_.add(a)
                self.used.add(a)
            else:
                self.emit('.globl %s' % a)
        elif d in ('.string', '.asciz', '.ascii'):
            for b in self.strings(a):
                self.emit('.byte %s' % ','.join(map(str, b + ([] if d == '.ascii' else [0]))) if b or d != '.ascii' else '')
        elif d in DATA:
            for v in a.split(','):
                v = v.strip()
                if re.fullmatch(r'-?(0x[0-9a-fA-F]+|\d+)', v):
                    bits = dict(quad=64, long=32, short=16, byte=8)[DATA[d]]
                    if not -(1 << bits - 1) <= int(v, 0) < 1 << bits:
                        raise Bad('%s does not fit in %s' % (v, d))
                    self.emit('.%s %s' % (DATA[d], v))
                elif re.fullmatch(SYM, v):
                    self.emit('.%s %s' % (DATA[d], self.ref(v)))
                elif re.fullmatch(r'%s\s*[+-]\s*(%s|\d+)' % (SYM, SYM), v):
                    self.emit('.%s %s' % (DATA[d], re.sub(SYM, lambda m: self.ref(m.group()), v)))
                else:
                    raise Bad('%s %s' % (d, v)) if v == '' else Unknown('%s %s' % (d, v))
        elif d in ('.zero', '.skip', '.space'):
            self.emit('.zero %d' % int(a, 0))
        elif d == '.file':
            m = re.fullmatch(r'(\d+\s+)?(".*")', a, re.S)
            if not m:
                raise Bad(x)
            self.strings(m.group(2))
        elif d == '.loc':
            if not re.fullmatch(r'\d+ \d+( \d+)?.*', a):
                raise Bad(x)
        elif d in ('.type', '.size', '.ident', '.arch', '.cpu', '.p2alignl', '.local', '.hidden', '.weak') or d.startswith('.cfi_'):
            pass
        else:
            raise Unknown(d)

    # registers: index, 31 for SP, 32 for zero
    def reg(self, r):
        k = r.lower()
        if k in ('xzr', 'wzr'):
            return 32
        if k in self.alias:
            return self.alias[k]
        m = re.fullmatch(r'w(\d+)', k)
        if m and int(m.group(1)) < 31:
            return int(m.group(1)) + 100
        if re.fullmatch(SYM, r):
            raise Bad('no such register: %s' % r)
        raise Bad('register expected: %s' % r)

    def isreg(self, r):
        try:
            self.reg(r)
            return True
        except Bad:
            return False

    def get(self, n, to):
        """x86 register to := A64 register"""
        if n == 32:
            self.emit('movl $0, %%e%s' % to[1:])
        elif n >= 100:
            self.emit('movl a64_x+%d(%%rip), %%e%s' % (8 * (n - 100), to[1:]))
        else:
            self.emit('movq a64_x+%d(%%rip), %%%s' % (8 * n, to))

    def put(self, n, src='rax'):
        if n == 32:
            return
        if n >= 100:
            self.emit('movl %%e%s, %%e%s' % (src[1:], src[1:]))
            n -= 100
        self.emit('movq %%%s, a64_x+%d(%%rip)' % (src, 8 * n))

    def imm(self, s):
        s = s.strip()
        if s.startswith('#'):
            s = s[1:].strip()
        if not re.fullmatch(r'[-+]?(0[xX][0-9a-fA-F]+|\d+)', s):
            raise Bad('number expected: %s' % s)
        return int(s, 0) if s.lstrip('+-').lower().startswith('0x') else (int(s, 8) if re.fullmatch(r'[-+]?0[0-7]+', s) else int(s))

    def isimm(self, s):
        try:
            self.imm(s)
            return True
        except Bad:
            return False

    def addr(self, sym, to='rax'):
        if sym in self.code or sym in self.data:
            self.emit('leaq %s(%%rip), %%%s' % (self.ref(sym), to))
        else:
            self.emit('movq %s@GOTPCREL(%%rip), %%%s' % (sym, to))

    def label(self, s):
        if not re.fullmatch(SYM, s):
            raise Bad('label expected: %s' % s)
        if s not in self.code:
            raise (Bad if s.startswith('.L') else Unknown)('branch to %s, which is no label here' % s)
        return 'a64c' + s

    def addsub(self, op, ops, flags=False):
        rd, rn = self.reg(ops[0]), self.reg(ops[1])
        if flags is False and 32 in (rd, rn) and self.isimm(ops[2]):
            raise Bad('%s with the zero register and a number' % op)
        if self.isimm(ops[2]):
            v = self.imm(ops[2])
            if len(ops) == 4:
                if ops[3].lower() not in ('lsl #12', 'lsl 12', 'lsl #0'):
                    raise Bad('shift %s' % ops[3])
                if not 0 <= v < 4096:
                    raise Bad('%s %s' % (op, v))
                v <<= 12 if '12' in ops[3] else 0
            a = abs(v)
            if not (a < 4096 or a % 4096 == 0 and a < 4096 << 12):
                raise Bad('immediate out of range: %s %s' % (op, ', '.join(ops)))
            self.get(rn, 'rax')
            self.emit('movq $%d, %%rcx' % v)
        elif ops[2].startswith(':lo12:'):
            self.get(rn, 'rax')
            self.addr(ops[2][6:].strip(), 'rcx')
            self.emit('andq $4095, %rcx')
        else:
            self.get(rn, 'rax')
            rm = self.reg(ops[2])
            self.get(rm, 'rcx')
            if len(ops) == 4:
                self.shift(ops[3], 'rcx')
        self.emit('%sq %%rcx, %%rax' % ('add' if op.startswith('add') else 'sub'))
        self.put(rd)

    def shift(self, s, r):
        m = re.fullmatch(r'(lsl|lsr|asr|uxtx)(\s+#?(\d+))?', s.lower())
        if not m:
            raise Unknown('shift %s' % s)
        if m.group(3):
            self.emit('%s $%s, %%%s' % (dict(lsl='shlq', uxtx='shlq', lsr='shrq', asr='sarq')[m.group(1)], m.group(3), r))

    def memory(self, ops, k, size, pair=False):
        """Address of the operand(s) from k on in %r11; returns what is to be done after the access."""
        s = ', '.join(ops[k:])
        m = re.fullmatch(r'\[\s*([^,\]]+?)\s*(?:,\s*([^\]]+?)\s*)?\]\s*(!|,\s*(.+))?', s)
        if not m:
            raise Bad('address expected: %s' % s)
        rn = self.reg(m.group(1))
        if rn >= 32:
            raise Bad('base register %s' % m.group(1))
        off, pre, post = m.group(2), m.group(3) == '!', m.group(4)
        if rn == 31:
            self.emit('call a64_sp')
        self.get(rn, 'r11')
        if off and off.startswith(':lo12:'):
            self.addr(off[6:].strip(), 'rcx')
            self.emit('andq $4095, %rcx')
            self.emit('addq %rcx, %r11')
            return None
        if off and not self.isimm(off):
            p = [x.strip() for x in off.split(',')]
            self.get(self.reg(p[0]), 'rcx')
            if len(p) > 1:
                if not re.fullmatch(r'lsl\s+#?(0|%d)' % {8: 3, 4: 2, 1: 0}[size], p[1].lower()):
                    raise Bad('index shift %s' % off)
                self.shift(p[1], 'rcx')
            self.emit('addq %rcx, %r11')
            return None
        v = self.imm(off) if off else 0
        w = self.imm(post) if post else 0

        def fits(v, wb):
            if pair:
                return v % size == 0 and -64 * size <= v <= 63 * size
            if wb:
                return -256 <= v <= 255
            return -256 <= v <= 255 or v % size == 0 and 0 <= v <= 4095 * size
        if not fits(v, pre) or not fits(w, True):
            raise Bad('offset out of range: %s' % s)
        if rn == 31 and v < 0 and not pre:
            self.emit('call a64_below')
        if v:
            self.emit('addq $%d, %%r11' % v)
        if pre:
            return lambda: self.put(rn, 'r11')
        if post:
            return lambda: (self.emit('addq $%d, %%r11' % w), self.put(rn, 'r11'))
        return None

    def instr(self, x):
        w = x.split(None, 1)
        op = w[0].lower()
        ops = [o.strip() for o in w[1].split(',')] if len(w) > 1 else []
        self.kinds.add(op)
        self.n += 1
        need = lambda *k: len(ops) in k or self.fail(x)
        if op == 'nop':
            return
        if op in ('add', 'sub'):
            need(3, 4)
            return self.addsub(op, ops)
        if op in ('cmp', 'cmn'):
            need(2, 3)
            rn = self.reg(ops[0])
            self.get(rn, 'rax')
            if self.isimm(ops[1]):
                v = self.imm(ops[1])
                if not (abs(v) < 4096 or v % 4096 == 0 and abs(v) < 4096 << 12):
                    raise Bad('immediate out of range: %s' % x)
                neg = (v < 0) != (op == 'cmn')
                self.emit('movq $%d, %%rcx' % (-v if op == 'cmn' else v))
                # the carry of an addition of the negated number is that of the subtraction, but for 0
                if op == 'cmn' and v == 0:
                    raise Unknown(x)
            else:
                if op == 'cmn':
                    raise Unknown(x)
                self.get(self.reg(ops[1]), 'rcx')
                if len(ops) == 3:
                    self.shift(ops[2], 'rcx')
            if rn >= 100:
                self.emit('movslq %eax, %rax')
                self.emit('movslq %ecx, %rcx')
            self.emit('movq %rax, a64_cmp(%rip)')
            self.emit('movq %rcx, a64_cmp+8(%rip)')
            return
        if op == 'tst':
            need(2)
            self.get(self.reg(ops[0]), 'rax')
            if self.isimm(ops[1]):
                if not bitmask(self.imm(ops[1])):
                    raise Bad('immediate: %s' % x)
                self.emit('movabsq $%d, %%rcx' % self.imm(ops[1]))
            else:
                self.get(self.reg(ops[1]), 'rcx')
            self.emit('andq %rcx, %rax')
            self.emit('movq %rax, a64_cmp(%rip)')
            self.emit('movq $0, a64_cmp+8(%rip)')
            return
        if op == 'mov':
            need(2)
            rd = self.reg(ops[0])
            if self.isimm(ops[1]):
                v = self.imm(ops[1])
                if rd == 31 or not -(1 << 63) <= v < 1 << 64 or not movable(v, 32 if rd >= 100 else 64):
                    raise Bad('immediate cannot be moved: %s' % x)
                self.emit('movabsq $%d, %%rax' % v)
            else:
                self.get(self.reg(ops[1]), 'rax')
            return self.put(rd)
        if op in ('movz', 'movn', 'movk'):
            need(2, 3)
            rd, v = self.reg(ops[0]), self.imm(ops[1])
            sh = 0
            if len(ops) == 3:
                m = re.fullmatch(r'lsl\s+#?(0|16|32|48)', ops[2].lower())
                if not m:
                    raise Bad(x)
                sh = int(m.group(1))
            if not 0 <= v < 65536:
                raise Bad('immediate out of range: %s' % x)
            if op == 'movk':
                self.get(rd, 'rax')
                self.emit('movabsq $%d, %%rcx' % (~(0xffff << sh)))
                self.emit('andq %rcx, %rax')
                self.emit('movabsq $%d, %%rcx' % (v << sh))
                self.emit('orq %rcx, %rax')
            else:
                u = v << sh
                self.emit('movabsq $%d, %%rax' % (~u if op == 'movn' else u))
            return self.put(rd)
        if op in ('and', 'orr', 'eor', 'lsl', 'lsr', 'asr', 'mul', 'udiv'):
            need(3)
            rd = self.reg(ops[0])
            self.get(self.reg(ops[1]), 'rax')
            if rd >= 100:
                raise Unknown(x)
            if self.isimm(ops[2]):
                v = self.imm(ops[2])
                if op in ('lsl', 'lsr', 'asr'):
                    if not 0 <= v < 64:
                        raise Bad(x)
                elif op in ('mul', 'udiv') or not bitmask(v):
                    raise Bad('immediate: %s' % x)
                self.emit('movabsq $%d, %%rcx' % v)
            else:
                self.get(self.reg(ops[2]), 'rcx')
            if op == 'udiv':
                raise Unknown(x)
            self.emit({'and': 'andq %rcx, %rax', 'orr': 'orq %rcx, %rax', 'eor': 'xorq %rcx, %rax', 'lsl': 'shlq %cl, %rax', 'lsr': 'shrq %cl, %rax',
                       'asr': 'sarq %cl, %rax', 'mul': 'imulq %rcx, %rax'}[op])
            return self.put(rd)
        if op in ('adrp', 'adr'):
            need(2)
            self.addr(ops[1])
            if op == 'adrp':
                self.emit('andq $-4096, %rax')
            return self.put(self.reg(ops[0]))
        if op in ('ldr', 'str', 'ldur', 'stur', 'ldrb', 'strb', 'ldrsw'):
            if len(ops) < 2:
                self.fail(x)
            rt = self.reg(ops[0])
            if rt == 31 or op == 'ldrsw':
                raise Bad(x) if rt == 31 else Unknown(x)
            size = 1 if op.endswith('b') else (4 if rt >= 100 else 8)
            if op == 'ldr' and ops[1].startswith('='):
                s = ops[1][1:].strip()
                if self.isimm(s):
                    self.emit('movabsq $%d, %%rax' % self.imm(s))
                else:
                    self.addr(s)
                return self.put(rt)
            after = self.memory(ops, 1, size)
            if op.startswith('ld'):
                self.emit({8: 'movq (%r11), %rax', 4: 'movl (%r11), %eax', 1: 'movzbl (%r11), %eax'}[size])
                self.put(rt)
            else:
                self.get(rt, 'rax')
                self.emit({8: 'movq %rax, (%r11)', 4: 'movl %eax, (%r11)', 1: 'movb %al, (%r11)'}[size])
            if after:
                after()
            return
        if op in ('ldp', 'stp'):
            if len(ops) < 3:
                self.fail(x)
            a, b = self.reg(ops[0]), self.reg(ops[1])
            if 31 in (a, b) or a >= 100 or b >= 100:
                raise Bad(x) if 31 in (a, b) else Unknown(x)
            if op == 'ldp' and a == b:
                raise Bad('unpredictable: %s' % x)
            after = self.memory(ops, 2, 8, pair=True)
            if op == 'ldp':
                self.emit('movq (%r11), %rax')
                self.emit('movq 8(%r11), %rcx')
                self.put(a)
                self.put(b, 'rcx')
            else:
                self.get(a, 'rax')
                self.get(b, 'rcx')
                self.emit('movq %rax, (%r11)')
                self.emit('movq %rcx, 8(%r11)')
            if after:
                after()
            return
        if op == 'b':
            need(1)
            if ops[0] in self.code:
                return self.emit('jmp %s' % self.label(ops[0]))
            if ops[0].startswith('.L') or not re.fullmatch(SYM, ops[0]):
                raise Bad('branch to %s' % ops[0])
            self.addr(ops[0])
            return self.emit('jmp a64_tail')
        if op.startswith('b.') and op[2:] in COND:
            need(1)
            self.emit('movq a64_cmp(%rip), %rax')
            self.emit('cmpq a64_cmp+8(%rip), %rax')
            return self.emit('j%s %s' % (COND[op[2:]], self.label(ops[0])))
        if op in ('cbz', 'cbnz'):
            need(2)
            r = self.reg(ops[0])
            if r == 31:
                raise Bad(x)
            self.get(r, 'rax')
            self.emit('testq %rax, %rax')
            return self.emit('%s %s' % ('jz' if op == 'cbz' else 'jnz', self.label(ops[1])))
        if op in ('tbz', 'tbnz'):
            need(3)
            self.get(self.reg(ops[0]), 'rax')
            if not 0 <= self.imm(ops[1]) < 64:
                raise Bad(x)
            self.emit('btq $%d, %%rax' % self.imm(ops[1]))
            return self.emit('%s %s' % ('jnc' if op == 'tbz' else 'jc', self.label(ops[2])))
        if op in ('csel', 'cset'):
            need(4 if op == 'csel' else 2)
            c = ops[-1].lower()
            if c not in COND:
                raise Bad(x)
            if op == 'csel':
                self.get(self.reg(ops[1]), 'rdx')
                self.get(self.reg(ops[2]), 'rsi')
            else:
                self.emit('movl $1, %edx')
                self.emit('movl $0, %esi')
            self.emit('movq a64_cmp(%rip), %rax')
            self.emit('cmpq a64_cmp+8(%rip), %rax')
            self.emit('cmov%s %%rdx, %%rsi' % COND[c])
            return self.put(self.reg(ops[0]), 'rsi')
        if op == 'bl':
            need(1)
            if not re.fullmatch(SYM, ops[0]):
                raise Bad('label expected: %s' % ops[0])
            if ops[0] in self.code:
                self.emit('leaq 1f(%rip), %rax')
                self.emit('movq %rax, a64_x+240(%rip)')
                self.emit('jmp %s' % self.label(ops[0]))
                return self.emit('1:')
            if ops[0].startswith('.L'):
                raise Bad('no label %s' % ops[0])
            self.addr(ops[0])
            return self.emit('call a64_call')
        if op == 'blr':
            need(1)
            self.get(self.reg(ops[0]), 'rax')
            return self.emit('call a64_call')
        if op == 'br':
            need(1)
            self.get(self.reg(ops[0]), 'rax')
            return self.emit('jmp a64_tail')
        if op == 'ret':
            need(0, 1)
            self.get(self.reg(ops[0]) if ops else 30, 'rax')
            return self.emit('jmp *%rax')
        raise Unknown(x)

    def fail(self, x):
        raise Bad('operands: %s' % x)


def translate(text, uid=0):
    """x86-64 assembly; raises Bad or Unknown."""
    t = Trans(text, uid)
    return '\n'.join(t.out) + '\n', t
