"""ARMv2a as the processor in circuit_synthesis/a23 implements it (no swap, no coprocessor, no interrupts, user mode only):
a reference interpreter and an assembler for generated programs.

Memory: code at 0, the garbler's words at 0x01000000, the evaluator's at 0x02000000 (both read-only),
output at 0x03000000, stack at 0x04000000.  The program ends when the instruction at 0x14 branches to itself."""
M = 0xFFFFFFFF
HALT = 0x14


class Stop(Exception):
    """the program does something whose effect is not specified"""


def ror(v, n):
    n &= 31
    return (v >> n | v << (32 - n)) & M if n else v


class Arm:
    def __init__(self, code, g, e, nout, nstack, size=None, v4=False):
        self.v4 = v4                                # with the long multiplications and halfword transfers of later ARMs
        self.m = {0: list(code) + [0] * ((size or len(code)) - len(code)), 1: list(g), 2: list(e), 3: [0] * nout, 4: [0] * nstack}
        self.more = [0] * 1024 if v4 else []        # below the stack: another compiler may need more of it
        self.r = [0] * 16
        self.n = self.z = self.c = self.v = 0
        self.pc = 0
        self.steps = 0

    def load(self, a):
        m = self.m.get(a >> 24)
        i = (a & 0xFFFFFF) >> 2
        if self.more and a >> 12 == 0x3FFF:
            return self.more[i & 1023]
        if m is None or i >= len(m):
            raise Stop("load from %x" % a)
        return m[i]

    def store(self, a, v, byte=False):
        k = a >> 24
        m = self.m.get(k)
        i = (a & 0xFFFFFF) >> 2
        if self.more and a >> 12 == 0x3FFF:
            m, i, k = self.more, i & 1023, 5
        if m is None or i >= len(m) or k in (1, 2):
            raise Stop("store to %x" % a)
        if byte:
            s = 8 * (a & 3)
            m[i] = m[i] & ~(255 << s) & M | (v & 255) << s
        else:
            m[i] = v & M

    def cond(self, c):
        n, z, cc, v = self.n, self.z, self.c, self.v
        r = (z, cc, n, v, cc and not z, n == v, not z and n == v, 1)[c >> 1]
        return bool(r) if c == 14 or not c & 1 else not r

    def reg(self, i):
        return (self.pc + 8) & M if i == 15 else self.r[i]

    def shifter(self, ins):
        """operand and carry"""
        c = self.c
        if ins >> 25 & 1:
            k = (ins >> 8 & 15) * 2
            v = ror(ins & 255, k)
            return v, (v >> 31 if k else c)
        rm = ins & 15
        if rm == 15:
            raise Stop("pc with its status bits")
        v = self.reg(rm)
        t = ins >> 5 & 3
        if ins >> 4 & 1:
            if rm == 15 or (ins >> 8 & 15) == 15 or (ins >> 16 & 15) == 15:
                raise Stop("pc with a register shift")
            k = self.r[ins >> 8 & 15] & 255
            if k == 0:
                return v, c
        else:
            k = ins >> 7 & 31
            if k == 0:
                if t == 0:
                    return v, c
                if t == 3:
                    return (v >> 1 | c << 31), v & 1
                k = 32
        if t == 0:
            return (v << k & M if k < 32 else 0), (v >> (32 - k) & 1 if k <= 32 else 0)
        if t == 1:
            return (v >> k if k < 32 else 0), (v >> (k - 1) & 1 if k <= 32 else 0)
        if t == 2:
            s = v - (1 << 32) if v >> 31 else v
            k = min(k, 32)
            return s >> k & M, s >> (k - 1) & 1
        w = ror(v, k)
        return w, w >> 31

    def step(self):
        pc = self.pc
        ins = self.load(pc)
        self.steps += 1
        nxt = pc + 4
        c = ins >> 28
        if c == 15:
            raise Stop("condition 15")
        if self.cond(c):
            cls = ins >> 25 & 7
            if cls == 5:
                off = (ins & 0xFFFFFF) - (1 << 24 if ins >> 23 & 1 else 0)
                if ins >> 24 & 1:
                    self.r[14] = nxt
                nxt = (pc + 8 + 4 * off) & M
            elif ins & 0x0FC000F0 == 0x00000090:
                rd, rn, rs, rm = ins >> 16 & 15, ins >> 12 & 15, ins >> 8 & 15, ins & 15
                if 15 in (rd, rs, rm) or rd == rm or (ins >> 21 & 1 and rn == 15):
                    raise Stop("multiply with pc")
                v = self.r[rm] * self.r[rs] + (self.r[rn] if ins >> 21 & 1 else 0)
                self.r[rd] = v & M
                if ins >> 20 & 1:
                    self.n, self.z = v >> 31 & 1, int(v & M == 0)
            elif ins & 0x0FB00FF0 == 0x01000090:
                raise Stop("swap")
            elif self.v4 and ins & 0x0F8000F0 == 0x00800090:
                self.mull(ins)
            elif self.v4 and ins & 0x0E000090 == 0x90:
                nxt = self.half(ins, nxt)
            elif cls in (0, 1):
                nxt = self.alu(ins, nxt)
            elif cls in (2, 3):
                nxt = self.trans(ins, nxt)
            elif cls == 4:
                nxt = self.multi(ins, nxt)
            else:
                raise Stop("instruction %08x" % ins)
        self.pc = nxt

    def mull(self, ins):
        hi, lo, rs, rm = ins >> 16 & 15, ins >> 12 & 15, ins >> 8 & 15, ins & 15
        if 15 in (hi, lo, rs, rm) or hi == lo or rm in (hi, lo):
            raise Stop("instruction %08x" % ins)
        S = lambda v: v - (1 << 32) if ins >> 22 & 1 and v >> 31 else v
        v = S(self.r[rm]) * S(self.r[rs])
        if ins >> 21 & 1:
            v += self.r[hi] << 32 | self.r[lo]
        self.r[lo], self.r[hi] = v & M, v >> 32 & M
        if ins >> 20 & 1:
            self.n, self.z = v >> 63 & 1, int(v & (1 << 64) - 1 == 0)

    def half(self, ins, nxt):
        p, u, i, w, ld, rn, rd, sh = [ins >> k & 1 for k in (24, 23, 22, 21, 20)] + [ins >> 16 & 15, ins >> 12 & 15, ins >> 5 & 3]
        off = (ins >> 4 & 0xF0 | ins & 15) if i else self.r[ins & 15]
        wb = not p or w
        if 15 in (rd,) or not i and ins & 15 == 15 or (wb and rn in (15, rd)) or (not ld and sh != 1):
            raise Stop("instruction %08x" % ins)
        base = self.reg(rn)
        mod = (base + off if u else base - off) & M
        a = mod if p else base
        if sh & 1 and a & 1:
            raise Stop("unaligned halfword")
        if ld:
            v = self.load(a) >> 8 * (a & 3) & (0xFFFF if sh & 1 else 0xFF)
            top = 0x8000 if sh & 1 else 0x80
            if sh & 2 and v & top:
                v = v - 2 * top & M
        else:
            self.store(a & ~1, self.r[rd], True)
            self.store(a | 1, self.r[rd] >> 8, True)
        if wb:
            self.r[rn] = mod
        if ld:
            self.r[rd] = v
        return nxt

    def alu(self, ins, nxt):
        op, s, rn, rd = ins >> 21 & 15, ins >> 20 & 1, ins >> 16 & 15, ins >> 12 & 15
        if ins & 0x02000090 == 0x90:
            raise Stop("instruction %08x" % ins)
        b, sc = self.shifter(ins)
        a = self.reg(rn)
        if op in (8, 9, 10, 11) and (not s or rd == 15):
            raise Stop("status access")
        if op in (2, 3, 4, 5, 6, 7, 10, 11):
            x, y, ci = {2: (a, ~b & M, 1), 10: (a, ~b & M, 1), 3: (b, ~a & M, 1), 4: (a, b, 0), 11: (a, b, 0), 5: (a, b, self.c),
                        6: (a, ~b & M, self.c), 7: (b, ~a & M, self.c)}[op]
            t = x + y + ci
            v = t & M
            cf, vf = t >> 32, ((x ^ v) & (y ^ v)) >> 31
        else:
            v = {0: a & b, 8: a & b, 1: a ^ b, 9: a ^ b, 12: a | b, 13: b, 14: a & ~b, 15: ~b}[op] & M
            cf, vf = sc, self.v
        if s:
            if rd == 15 and op not in (8, 9, 10, 11):
                raise Stop("status write")
            self.n, self.z, self.c, self.v = v >> 31, int(v == 0), cf, vf
        if op not in (8, 9, 10, 11):
            if rd == 15:
                return v & 0x03FFFFFC
            self.r[rd] = v
        return nxt

    def trans(self, ins, nxt):
        p, u, byte, w, ld, rn, rd = [ins >> k & 1 for k in (24, 23, 22, 21, 20)] + [ins >> 16 & 15, ins >> 12 & 15]
        if ins >> 25 & 1:
            if ins >> 4 & 1 or ins & 15 == 15:
                raise Stop("instruction %08x" % ins)
            off, _ = self.shifter(ins & ~(1 << 25))
        else:
            off = ins & 0xFFF
        base = self.reg(rn)
        wb = not p or w
        if not p and w or wb and rn == 15 or (wb and rn == rd) or (rd == 15 and (not ld or byte)):
            raise Stop("instruction %08x" % ins)
        mod = (base + off if u else base - off) & M
        a = mod if p else base
        if ld:
            v = self.load(a)
            v = v >> 8 * (a & 3) & 255 if byte else ror(v, 8 * (a & 3))
            if wb:
                self.r[rn] = mod
            if rd == 15:
                return v & 0x03FFFFFC
            self.r[rd] = v
        else:
            if not byte and a & 3:
                raise Stop("unaligned store")
            self.store(a, self.r[rd], byte)
            if wb:
                self.r[rn] = mod
        return nxt

    def multi(self, ins, nxt):
        p, u, s, w, ld, rn = [ins >> k & 1 for k in (24, 23, 22, 21, 20)] + [ins >> 16 & 15]
        regs = [i for i in range(16) if ins >> i & 1]
        if s or not regs or rn == 15 or (w and rn in regs) or (15 in regs and not ld):
            raise Stop("instruction %08x" % ins)
        base = self.r[rn]
        if base & 3:
            raise Stop("unaligned block")
        lo = base if u else base - 4 * len(regs)
        if p == u:
            lo += 4
        for i, x in enumerate(regs):
            a = (lo + 4 * i) & M
            if ld:
                v = self.load(a)
                if x == 15:
                    nxt = v & 0x03FFFFFC
                else:
                    self.r[x] = v
            else:
                self.store(a, self.r[x])
        if w:
            self.r[rn] = (base + (4 if u else -4) * len(regs)) & M
        return nxt

    def run(self, limit):
        while self.pc != HALT or self.m[0][HALT >> 2] != 0xEAFFFFFE:
            if self.steps >= limit:
                raise Stop("no end")
            self.step()
        return self.m[3]
