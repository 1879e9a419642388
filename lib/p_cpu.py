"""C41-C43: the processor circuits (circuit_synthesis/mips, circuit_synthesis/a23) and the ARM example programs."""
import glob, math, os, re, shutil, subprocess, time
import arm, build, vlog
from arm import M
import netlist
from netlist import PORTS
from p_cli import A23, Box, CLI, EVAL, TG, TOL, V2SCD, gen33, pair, sgn, shown, want33
from p_syn import ASSUME, CS, LIBS, design, mapped
from pbt import Fail, Inconclusive, Prop, Src, Suite


def hx(ws):
    return " ".join("%x" % w for w in ws)


def unhx(t):
    return [int(w, 16) for w in t.split()]


def pack(ws):
    return sum(w << (32 * i) for i, w in enumerate(ws))


def value(s):
    k = s.raw(8)
    if k < 4:
        return s.bits(32)
    if k == 4:
        return s.raw(5)
    if k == 5:
        return (-s.raw(5)) & M
    if k == 6:
        return (0x80000000 + s.raw(5) - 2) & M
    return s.choice([0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x80808080, 0x7F7F7F7F, 0xFF00FF00])


# ------------------------------------------------------------------ C41: Lite_MIPS
# single cycle, no delay slots; a branch offset counts instructions from the branch itself; data addresses wrap at the size of
# the memory; register 0 stays 0
R_OPS = {"sllv": 4, "srlv": 6, "srav": 7, "add": 32, "addu": 33, "sub": 34, "subu": 35, "and": 36, "or": 37, "xor": 38, "nor": 39, "slt": 42, "sltu": 43}
S_OPS = {"sll": 0, "srl": 2, "sra": 3}
I_OPS = {"addi": 8, "addiu": 9, "slti": 10, "sltiu": 11, "andi": 12, "ori": 13, "xori": 14, "lui": 15}
L_OPS = {"lb": 32, "lh": 33, "lw": 35, "lbu": 36, "lhu": 37}
T_OPS = {"sb": 40, "sh": 41, "sw": 43}
B_OPS = {"beq": 4, "bne": 5, "blez": 6, "bgtz": 7}
Z_OPS = {"bltz": 0, "bgez": 1, "bltzal": 16, "bgezal": 17}
SIZE = dict(b=1, h=2, w=4)


def s16(v):
    return (v & 0xFFFF) - (0x10000 if v & 0x8000 else 0)


def mips_instr(s, n, at):
    """one or two instruction words"""
    r = lambda: s.choice([1, 2, 3, 4, 5, 6, 7, 8, 31]) if s.raw(8) else s.raw(32)
    imm = lambda: s.choice([0, 1, 2, 4, 0xFFFF, 0x7FFF, 0x8000, 0xFFFC]) if s.bool(1, 3) else s.bits(16)
    k = s.raw(16)
    if k < 5:
        return [r() << 21 | r() << 16 | r() << 11 | s.choice(sorted(R_OPS.values()))]
    if k == 5:
        return [r() << 16 | r() << 11 | s.raw(32) << 6 | s.choice(sorted(S_OPS.values()))]
    if k < 9:
        return [s.choice(sorted(I_OPS.values())) << 26 | r() << 21 | r() << 16 | imm()]
    if k < 13:
        op = s.choice(sorted(L_OPS)) if s.bool() else s.choice(sorted(T_OPS))
        size = SIZE[op.strip("ls")[0] if op[0] == "s" else op[1]]
        a = s.raw(4 * n) // size * size
        code = L_OPS.get(op, T_OPS.get(op))
        if s.bool(3, 4):
            return [code << 26 | r() << 16 | (a if s.raw(6) else (a - 4 * n) & 0xFFFF)]
        b, x = r() or 1, s.int(-3, 3) * size
        return [I_OPS["addiu"] << 26 | b << 16 | (a + x) & 0xFFFF, code << 26 | b << 21 | r() << 16 | -x & 0xFFFF]
    if k < 15:
        d = s.int(1, 4) if s.raw(6) else s.int(-4, 4)
        if s.bool(2, 3):
            op = s.choice(sorted(B_OPS))
            return [B_OPS[op] << 26 | r() << 21 | (r() << 16 if op in ("beq", "bne") else 0) | d & 0xFFFF]
        return [1 << 26 | r() << 21 | s.choice(sorted(Z_OPS.values())) << 16 | d & 0xFFFF]
    to = min(at + s.int(1, 5), n) if s.raw(4) else s.raw(n)
    j = s.raw(3)
    if j == 0:
        return [(2 + s.raw(2)) << 26 | to]
    b = s.int(1, 8)
    return [I_OPS["ori"] << 26 | b << 16 | 4 * to, b << 21 | (8 if j == 1 else r() << 11 | 9)]


class Mips:
    def __init__(self, code, data):
        self.code, self.m, self.r, self.pc = code, list(data), [0] * 32, 0

    def step(self):
        """False: the next instruction's effect is not specified"""
        n = len(self.code)
        if self.pc & 3 or self.pc >> 2 >= n:
            return False
        i = self.code[self.pc >> 2]
        op, rs, rt, rd, sh, fn, im = i >> 26, i >> 21 & 31, i >> 16 & 31, i >> 11 & 31, i >> 6 & 31, i & 63, i & 0xFFFF
        a, b = self.r[rs], self.r[rt]
        S = lambda v: v - (1 << 32) if v >> 31 else v
        nxt = self.pc + 4
        dst, v = 0, 0
        if op == 0 and fn in (0, 2, 3, 4, 6, 7):
            k = sh if fn < 4 else a & 31
            dst, v = rd, (b << k if fn in (0, 4) else b >> k if fn in (2, 6) else S(b) >> k)
        elif op == 0 and fn >= 32:
            dst = rd
            v = {32: a + b, 33: a + b, 34: a - b, 35: a - b, 36: a & b, 37: a | b, 38: a ^ b, 39: ~(a | b), 42: int(S(a) < S(b)), 43: int(a < b)}[fn]
        elif op == 0 and fn in (8, 9):
            if fn == 9:
                dst, v = rd, nxt
                if rd == rs:
                    return False
            nxt = a
        elif 8 <= op <= 15:
            dst = rt
            x = s16(im)
            v = {8: a + x, 9: a + x, 10: int(S(a) < x), 11: int(a < x & M), 12: a & im, 13: a | im, 14: a ^ im, 15: im << 16}[op]
        elif op in L_OPS.values() or op in T_OPS.values():
            ad = (a + s16(im)) & M
            size = {0: 1, 1: 2, 3: 4}[op & 3]
            if ad % size:
                return False
            w = ad >> 2 & n - 1
            k = 8 * (ad & 3)
            f = (1 << 8 * size) - 1
            if op >= 40:
                self.m[w] = self.m[w] & ~(f << k) & M | (b & f) << k
            else:
                dst, v = rt, self.m[w] >> k & f
                if op in (32, 33) and v >> (8 * size - 1):
                    v |= M & ~f
        elif op in (4, 5, 6, 7):
            if {4: a == b, 5: a != b, 6: S(a) <= 0, 7: S(a) > 0}[op]:
                nxt = self.pc + 4 * s16(im)
        elif op == 1:
            if rt & 16:
                dst, v = 31, nxt
                if rs == 31:
                    return False
            if (S(a) < 0) != bool(rt & 1):
                nxt = self.pc + 4 * s16(im)
        elif op in (2, 3):
            if op == 3:
                dst, v = 31, nxt
            nxt = self.pc & 0xF0000000 | (i & 0x3FFFFFF) << 2
        else:
            return False
        if dst:
            self.r[dst] = v & M
        self.pc = nxt & M
        return True


def gen41(s):
    L = s.weighted([(4, 4), (3, 1), (5, 1)])
    n = 1 << L
    progs = []
    for _ in range(s.size(48, 1)):
        code = []
        for k in range(1, 5):
            if s.raw(4):                # registers worth computing with
                code.append(L_OPS["lw"] << 26 | k << 16 | 4 * s.raw(n))
        while len(code) < n:
            code += mips_instr(s, n, len(code))
        progs.append(dict(c=hx(code[:n]), m=hx([value(s) for _ in range(n)])))
    return dict(L=L, progs=progs)


def check41(ctx, d):
    n = 1 << d["L"]
    D = design("Lite_MIPS", dict(W=32, L=d["L"]), ["mips"])
    progs = [(unhx(p["c"]), unhx(p["m"])) for p in d["progs"]]
    S = stepper(ctx, D, len(progs))
    S.set("g_init", [pack(c) for c, _ in progs])
    S.set("e_init", [pack(m) for _, m in progs])
    S.reset()
    ref = [Mips(*p) for p in progs]
    live = set(range(len(progs)))
    done = [0] * len(progs)
    last = [None] * len(progs)
    for t in range(3 * n):
        S.step()
        for j in sorted(live):          # the output shows the memory before instruction t
            o = S.words("o", j)
            if o != ref[j].m:
                k = [x != y for x, y in zip(o, ref[j].m)].index(True)
                raise Fail("value", "program %s data %s: after %d instructions (last: %08x at %d) word %d is %08x, not %08x" % (
                    d["progs"][j]["c"], d["progs"][j]["m"], t, last[j][0], last[j][1], k, o[k], ref[j].m[k]))
            last[j] = (progs[j][0][ref[j].pc >> 2] if ref[j].pc >> 2 < n else 0, ref[j].pc)
            if not ref[j].step():
                live.discard(j)
            else:
                done[j] += 1
        if not live:
            break
    ctx.label(*["ran>=%d" % (n // 2) for x in done if x >= n // 2])
    if max(done) >= n // 2:
        ctx.nontrivial()


def stepper(ctx, D, n):
    return vlog.Stepper(ctx.bins[("opt", "vsim")], D, n)


def C41():
    return Prop("C41", "Generated programs (all instructions but multiplication, division and traps) run on the elaborated Lite_MIPS, up to 48 at a time, and on a "
                "reference interpreter; the data memory is compared after every instruction. Non-trivial: some program executes at least half as many "
                "instructions as fit.",
                [Suite("programs", gen41, check41, 600, 40000)], [("opt", "vsim")], ASSUME)


# ------------------------------------------------------------------ C42: the a23 core
MEMS = [(12, 12, 16, 24, 80), (7, 20, 11, 20, 80), (16, 5, 32, 27, 96)]      # words: garbler, evaluator, output, stack, code


class Asm:
    def __init__(self, s, base, mem, lr=False):
        self.s, self.w, self.base = s, [], base
        self.n = mem
        self.lr, self.depth = lr, 0                 # is r14 free for data
        # base: address of the first word, None in the subroutine

    def emit(self, *ws):
        self.w += ws

    def cond(self):
        return self.s.raw(14) if self.s.raw(3) == 1 else 14

    def d(self):
        return 3 + self.s.raw(8)                    # r3..r10 hold data

    def r(self):
        """a register to read"""
        return self.s.choice([0, 1, 2, 11, 12, 13] + [14] * self.lr) if self.s.raw(8) == 1 else self.d()

    def t(self, more=()):
        """a register to write"""
        k = [12] * (self.depth == 2) + [14] * self.lr + list(more)
        return self.s.choice(k) if k and self.s.raw(8) == 1 else self.d()

    def op2(self):
        s = self.s
        k = s.raw(8)
        if k < 2:
            return 1 << 25 | (s.raw(16) << 8 if s.bool() else 0) | s.raw(256)
        if k < 6:
            return (s.raw(32) << 7 if s.bool() else 0) | s.raw(4) << 5 | self.r()
        return self.r() << 8 | s.raw(4) << 5 | 1 << 4 | self.r()

    def dp(self, cond, op, sf, rd, rn, op2):
        self.emit(cond << 28 | op << 21 | sf << 20 | rn << 16 | rd << 12 | op2)

    def imm(self, rd, v):
        self.dp(14, 13, 0, rd, 0, 1 << 25 | v)      # v < 256

    def snippet(self, depth):
        s = self.s
        self.depth = depth
        k = s.raw(26)
        if k < 7:
            op = s.raw(16)
            if op in (8, 9, 10, 11):
                self.dp(self.cond(), op, 1, 0, self.r(), self.op2())
            else:
                self.dp(self.cond(), op, s.raw(2), self.t([11]), self.r(), self.op2())
        elif k == 7:
            self.dp(self.cond(), s.choice([8, 9, 10, 11]), 1, 0, self.r(), self.op2())
        elif k == 8:                                # a small shift amount
            r = self.d()
            self.imm(r, s.choice([0, 1, 2, 8, 31, 32, 33, 40, 63, 64, 255]))
            self.dp(self.cond(), s.choice([13, 15, 4, 12]), 1, self.d(), self.d(), r << 8 | s.raw(4) << 5 | 1 << 4 | self.d())
        elif k < 11:
            rd, rm, rs, rn = self.t([11]), self.r(), self.r(), self.r()
            while rd == rm:
                rd = 3 + (rd - 2) % 8
            acc, sf = s.raw(2), s.raw(2)
            self.emit(self.cond() << 28 | acc << 21 | sf << 20 | rd << 16 | (rn << 12 if acc else 0) | rs << 8 | 9 << 4 | rm)
            if sf:                                  # carry and overflow are meaningless now
                if s.bool():
                    self.dp(s.choice([0, 1, 4, 5]), s.choice([4, 12, 1]), 0, self.d(), self.d(), self.op2() & ~(3 << 5))
                self.dp(14, 10, 1, 0, self.d(), self.d())
        elif k < 14:                                # word or byte at a fixed offset
            ld = s.raw(2)
            base, n = s.choice([(0, self.n[0]), (1, self.n[1]), (2, self.n[2]), (13, 0)]) if ld else s.choice([(2, self.n[2]), (2, self.n[2]), (13, 0)])
            byte = s.raw(2)
            off = s.raw(4 * n or 32) & (~0 if byte or (ld and s.raw(4) == 1) else ~3)
            up = 1
            if not n:
                off, up = max(4, off) & (~0 if byte else ~3), 0     # below the stack pointer
            self.emit(self.cond() << 28 | 1 << 26 | 1 << 24 | up << 23 | byte << 22 | ld << 20 | base << 16 | (self.t([11]) if ld else self.r()) << 12 | off)
        elif k == 14:                               # index register, shifted
            ld = s.raw(2)
            base, n = s.choice([(0, self.n[0]), (1, self.n[1]), (2, self.n[2])]) if ld else (2, self.n[2])
            r = self.d()
            self.imm(r, s.raw(n))
            self.emit(self.cond() << 28 | 3 << 25 | 1 << 24 | 1 << 23 | ld << 20 | base << 16 | self.d() << 12 | 2 << 7 | r)
        elif k == 15:                               # a walking pointer in r11
            ld = s.raw(2)
            base, n = s.choice([(0, self.n[0]), (1, self.n[1]), (2, self.n[2])]) if ld else (2, self.n[2])
            i = s.int(0, n - 1)
            self.dp(14, 4, 0, 11, base, 1 << 25 | 4 * i)
            for _ in range(s.int(1, 3)):
                pre, byte = s.raw(2), s.raw(2)
                j = s.int(0, n - 1)
                up, off = int(j >= i), 4 * abs(j - i) + (s.raw(3) if byte and 0 < j < n - 1 else 0)
                self.emit(14 << 28 | 1 << 26 | pre << 24 | up << 23 | byte << 22 | (1 if pre else 0) << 21 | ld << 20 | 11 << 16 | self.d() << 12 | off)
                if off & 3:
                    self.dp(14, 14, 0, 11, 11, 1 << 25 | 3)     # align again
                    self.dp(14, 4, 0, 11, base, 1 << 25 | 4 * j)
                i = j
        elif k == 16:                               # block transfer
            ld = s.raw(2)
            base, n = s.choice([(0, self.n[0]), (1, self.n[1]), (2, self.n[2])]) if ld else (2, self.n[2])
            regs = sorted({self.t() if ld else self.r() for _ in range(s.int(1, 4))} - {11}) or [self.d()]
            p, u, w = s.raw(2), s.raw(2), s.raw(2)
            lo = s.int(0, n - len(regs))            # lowest word
            b = lo - p if u else lo + len(regs) - (1 - p)
            if b < 0:
                p, b = 0, lo
            self.dp(14, 4, 0, 11, base, 1 << 25 | 4 * b)
            if not w and s.raw(4) == 1 and len(regs) > 1:   # the base among them
                regs[-1] = 11
            self.emit(self.cond() << 28 | 4 << 25 | p << 24 | u << 23 | w << 21 | ld << 20 | 11 << 16 | sum(1 << r for r in regs))
            if (w or 11 in regs and ld) and s.bool():
                self.dp(14, 2, 0, self.d(), 11, base)
        elif k == 24:                               # block transfer of many registers
            ld = s.raw(2)
            base, n = s.choice([(0, self.n[0]), (1, self.n[1]), (2, self.n[2])]) if ld else (2, self.n[2])
            main = self.base is not None and depth == 2
            may = list(range(3, 11)) + [12, 13] * main + [14] * self.lr * main if ld else list(range(14)) + [14] * self.lr
            m = sum(1 << r for r in may)
            while bin(m).count("1") > min(n, 12 - s.raw(11)):
                m &= ~(1 << s.choice([r for r in may if m >> r & 1]))
            cnt = bin(m).count("1")
            p, u, w, rb = s.raw(2), s.raw(2), s.raw(2), 11
            lo = s.int(0, n - cnt)
            b = lo - p if u else lo + cnt - (1 - p)
            if b < 0 or not ld and m >> 11 & 1:
                p, b, w = 0, (lo if u else lo + cnt - 1), 0
            if b == 0 and u and s.bool():
                rb, w = base, 0
            else:
                self.dp(14, 4, 0, 11, base, 1 << 25 | 4 * b)
            self.emit((self.cond() if not m >> 13 & 1 else 14) << 28 | 4 << 25 | p << 24 | u << 23 | w << 21 | ld << 20 | rb << 16 | m)
            if ld:
                for r in range(12, 15):
                    if m >> r & 1:
                        self.dp(14, s.choice([1, 4]), 0, self.d(), self.d(), r)
                if m >> 13 & 1:                     # the stack pointer as it was
                    self.imm(13, 36)
                    self.emit(0xE59DD000)
                    self.dp(14, 2, 0, 13, 13, 1 << 25 | 8)
        elif k == 25:                               # bytes of one word on the stack
            at = 4 * s.int(2, 6)
            st = 0xE50D0000                         # str [r13, -]
            self.emit(st | self.d() << 12 | at)
            for _ in range(s.int(1, 4)):
                self.emit(self.cond() << 28 | 0x54D0000 | s.raw(2) << 20 | self.d() << 12 | at - s.raw(4))
            self.emit(st | 1 << 20 | self.d() << 12 | at)
        elif k == 17 and depth:                     # push and pop
            regs = sorted({self.d() for _ in range(s.int(1, 3))})
            regs2 = regs if s.bool() else sorted({self.d() for _ in range(len(regs))})
            self.emit(14 << 28 | 0x92D << 16 | sum(1 << r for r in regs))
            for _ in range(s.raw(3)):
                self.snippet(0)
            self.emit(14 << 28 | 0x8BD << 16 | sum(1 << r for r in regs2))
            if len(regs2) < len(regs):
                self.dp(14, 4, 0, 13, 13, 1 << 25 | 4 * (len(regs) - len(regs2)))
        elif k == 18 and depth:                     # skip
            at = len(self.w)
            self.emit(0)
            for _ in range(s.int(1, 3)):
                self.snippet(depth - 1)
            self.w[at] = s.raw(14) << 28 | 5 << 25 | (len(self.w) - at - 2) & 0xFFFFFF
        elif depth == 2:                            # loop on r12
            self.imm(12, s.int(1, 4))
            at = len(self.w)
            for _ in range(s.int(1, 3)):
                self.snippet(0)
            self.dp(14, 2, 1, 12, 12, 1 << 25 | 1)
            self.emit(1 << 28 | 5 << 25 | (at - len(self.w) - 2) & 0xFFFFFF)
        elif k == 20:                               # the program counter as an operand, literals
            if s.bool():
                self.dp(self.cond(), s.choice([4, 2]), 0, self.d(), 15, 1 << 25 | s.raw(64))
            else:
                self.emit(self.cond() << 28 | 0x59F << 16 | self.d() << 12 | 4 * s.raw(6))
        elif k == 21 and depth:                     # jump table
            r, n = self.d(), s.int(1, 4)
            self.imm(r, s.raw(n))
            if s.bool():                            # computed
                self.dp(self.cond(), 4, 0, 15, 15, 2 << 7 | r)
            else:                                   # of addresses
                self.emit(self.cond() << 28 | 0x79FF100 | r, 5 << 25 | 14 << 28 | n - 1)
                at = self.base + 4 * (len(self.w) + n)
                self.emit(*[at + 4 * s.raw(n + 1) for _ in range(n)])
            for _ in range(1 + n):
                self.dp(14, 4, 0, self.d(), self.d(), 1 << 25 | s.raw(256))
        elif k == 22 and depth:                     # words next to the program
            n, b = s.int(1, 3), len(self.w)
            self.emit(14 << 28 | 5 << 25 | n - 1, *[value(s) for _ in range(n)])
            if s.bool():
                self.snippet(0)
            back = 4 * (len(self.w) + 2 - b - 1)    # from r11 down to the first word
            self.dp(14, 2, 0, 11, 15, 1 << 25)
            for _ in range(s.int(1, 3)):
                ld, byte = s.raw(2), s.raw(2)
                off = back - 4 * s.raw(n) - (s.raw(4) if byte else 0)
                self.emit(self.cond() << 28 | 1 << 26 | 1 << 24 | byte << 22 | ld << 20 | 11 << 16 | self.d() << 12 | off)
        elif k == 22 and self.base is None:         # early return
            self.emit(self.cond() << 28 | 0x1A0F00E)
        else:
            self.dp(self.cond(), 13, s.raw(2), self.t([11]), 0, self.op2())


def gen_arm(s, mem):
    sub = Asm(s, None, mem)                                    # a leaf called from the main part
    for _ in range(s.int(1, 4)):
        sub.snippet(0)
    lr = bool(s.raw(2))
    a = Asm(s, 40, mem, lr)
    a.emit(0xE92D4010)                              # stmfd sp!, {r4, lr}
    if lr:
        a.imm(14, s.raw(256))
    a.emit(0xE8900000 | 0x1F8, 0xE8910000 | 0x600)  # ldmia r0, {r3-r8}; ldmia r1, {r9, r10}
    calls = []
    for _ in range(s.int(1, 14)):
        if s.raw(8) == 1 and len(calls) < 3 and not lr:
            calls.append(len(a.w))
            a.emit((a.cond() << 28) | 11 << 24)
        else:
            a.snippet(2)
    a.dp(14, 1, 0, 9, 9, 12)                        # eor r9, r9, r12 and so on
    if lr:
        a.dp(14, 1, 0, 10, 10, 14)
    # r3..r10 to words 0..7, flags to word 8
    a.emit(0xE8820000 | 0x7F8, 0xE3A03000)
    for i, c in enumerate((0, 2, 4, 6)):
        a.dp(c, 12, 0, 3, 3, 1 << 25 | 1 << i)
    a.emit(0xE5823000 | 32)
    if s.raw(3) == 1:                               # conditional return
        a.emit(s.raw(14) << 28 | 0x8BD8010, 0xE5823024)
    a.emit(0xE8BD8010)                              # ldmfd sp!, {r4, pc}
    at = len(a.w)
    for c in calls:
        a.w[c] |= (at - c - 2) & 0xFFFFFF
    body = a.w + (sub.w + [0xE1A0F00E] if calls else [])
    crt = [0xE59FD01C, 0xE59F000C, 0xE59F100C, 0xE59F200C, 0xEB000003 | 1, 0xEAFFFFFE, 0x01000000, 0x02000000, 0x03000000, 0x04000000 + 4 * mem[3]]
    crt[4] = 0xEB000000 | (10 - 4 - 2)
    return crt + body


def gen42(s):
    progs = []
    k = s.raw(len(MEMS))
    for _ in range(s.size(64, 1)):
        code = gen_arm(s, MEMS[k])
        progs.append(dict(c=hx(code), g=hx([value(s) for _ in range(MEMS[k][0])]), e=hx([value(s) for _ in range(MEMS[k][1])])))
    return dict(mem=k, progs=progs)


def core(code, n):
    return design("a23_gc_main", dict(CODE_MEM_SIZE=code, G_MEM_SIZE=n[0], E_MEM_SIZE=n[1], OUT_MEM_SIZE=n[2], STACK_MEM_SIZE=n[3]), ["a23"])


def run_core(ctx, D, codes, g, e, limit):
    """output words of every vector at its first terminate (None: not reached)"""
    S = stepper(ctx, D, len(codes))
    S.set("p_init", [pack(c) for c in codes])
    S.set("g_init", [pack(x) for x in g])
    S.set("e_init", [pack(x) for x in e])
    S.reset()
    out, seen = [None] * len(codes), 0
    for t in range(limit):
        S.step()
        b = S.bit("terminate") & ~seen
        if b:
            for j in range(len(codes)):
                if b >> j & 1:
                    out[j] = (t, S.words("o", j))
            seen |= b
            if seen == S.M:
                break
    return out


def check42(ctx, d):
    progs, ref = [], []
    NG, NE, NO, NS, CODE = MEMS[d["mem"]]
    for p in d["progs"]:
        c, g, e = unhx(p["c"]), unhx(p["g"]), unhx(p["e"])
        if len(c) > CODE:
            ctx.label("too long")
            continue
        A = arm.Arm(c, g, e, NO, NS, CODE)
        try:
            w = A.run(600)
        except arm.Stop as x:
            ctx.label("not run: " + re.sub(r"[0-9a-f]{6,}", "", str(x)))
            continue
        progs.append((p, c + [0] * (CODE - len(c)), g, e))
        ref.append((A.steps, w))
    if not progs:
        return
    ctx.label(*["ran"] * len(progs))
    ctx.nontrivial()
    out = run_core(ctx, core(CODE, (NG, NE, NO, NS)), [c for _, c, _, _ in progs], [g for _, _, g, _ in progs], [e for _, _, _, e in progs],
                   40 + 8 * max(n for n, _ in ref) + 200)
    for (p, _, _, _), (n, w), o in zip(progs, ref, out):
        if o is None:
            raise Fail("end", "program %s with g=%s e=%s does not end" % (p["c"], p["g"], p["e"]))
        if o[1] != w:
            k = [x != y for x, y in zip(o[1], w)].index(True)
            raise Fail("value", "program %s with g=%s e=%s: output word %d is %08x, not %08x" % (p["c"], p["g"], p["e"], k, o[1][k], w[k]))


# ------------------------------------------------------------------ C43: the programs
NW = 64                                             # words of each memory, as start.S and the test data have it


def words_of(path):
    try:
        with open(path) as f:
            return [int(l, 16) for l in f.read().split()]
    except (OSError, ValueError):
        return []


def expect(name, g, e, o, what):
    ng, ne, no = A23[name]
    if name == "cordic":
        t = sgn(g[0] ^ e[0]) / 2.0 ** 30
        for v, w, f in ((sgn(o[0]), math.sin(t), "sin"), (sgn(o[1]), math.cos(t), "cos")):
            d = min(abs(v - w * 2 ** 30), abs(v + 2 ** 32 - w * 2 ** 30), abs(v - 2 ** 32 - w * 2 ** 30))
            if d > TOL:
                raise Fail("value", "%s: %s(%f) is %f instead of %f" % (what, f, t, v / 2.0 ** 30, w))
    else:
        w = want33(name, g[:ng], e[:ne])
        if o[:no] != w:
            raise Fail("value", "%s: g=%s e=%s: output %s, expected %s" % (what, g[:ng], e[:ne], o[:no], w))
    if any(o[no:]):
        raise Fail("range", "%s: g=%s e=%s: words after the output are written: %s" % (what, g[:ng], e[:ne], o[no:]))


def memories(c):
    ng, ne, no = A23[c["p"]]
    return c["g"] + [c["pad"][0]] * (NW - ng), c["e"] + [c["pad"][1]] * (NW - ne)


def interpret(ctx, c, code, v4, what):
    name = c["p"]
    g, e = memories(c)
    A = arm.Arm(code or [0], g, e, NW, NW, v4=v4)
    try:
        o = A.run(400000)
    except arm.Stop as x:
        if v4 and str(x).startswith("instruction"):
            raise Inconclusive("%s: %s" % (what, x))          # what another compiler makes of it
        raise Fail("end", "%s: g=%s e=%s: %s after %d instructions, at %x" % (what, c["g"], c["e"], x, A.steps, A.pc))
    ctx.label(name)
    ctx.nontrivial()
    expect(name, g, e, o, what)
    return A.steps


def check43s(ctx, c):
    interpret(ctx, c, words_of(os.path.join(build.REPO, "a23", c["p"], "p.txt")), False, "a23/%s/p.txt" % c["p"])


def gen43b(s):
    return dict(gen33(s), opt=s.choice(["-Os", "-O3"]))


def check43b(ctx, c):
    p = ctx.bins[("opt", "arm")].get((c["p"], c["opt"]))
    if p is None:
        raise Inconclusive("%s does not build for the ARM" % c["p"])
    interpret(ctx, c, words_of(p), True, "%s built for the ARM with %s" % (c["p"], c["opt"]))


SHORT = ["sum", "compare", "hamming", "mul", "matrix-mul", "mem-test", "sbox", "cordic"]


def gen43c(s, names=SHORT):
    name = s.choice(names)
    n = s.size(24, 1)
    cs = []
    while len(cs) < n:
        cs.append(gen33(s, name))
    return dict(p=name, cases=cs)


def check43c(ctx, d):
    name = d["p"]
    code = words_of(os.path.join(build.REPO, "a23", name, "p.txt"))
    ng, ne, no = A23[name]
    size = (max(len(code), 64) + 63) // 64 * 64
    mem = [memories(c) for c in d["cases"]]
    D = core(size, (32, 32, 32, NW) if max(ng, ne, no) <= 32 else (NW, NW, NW, NW))
    n = 32 if max(ng, ne, no) <= 32 else NW
    out = run_core(ctx, D, [code + [0] * (size - len(code))] * len(mem), [g[:n] for g, _ in mem], [e[:n] for _, e in mem], 60000)
    for (g, e), o in zip(mem, out):
        if o is None:
            raise Fail("end", "a23/%s/p.txt on the processor: g=%s e=%s: no end" % (name, g[:ng], e[:ne]))
        expect(name, g, e, o[1], "a23/%s/p.txt on the processor" % name)
    ctx.label(name)
    ctx.nontrivial()


def gen43t(s):
    """an executable with sections of code, data and zeros, some without address or of other types"""
    secs, at = [], 0
    for i in range(s.int(1, 5)):
        at += s.choice([0, 0, 4, 8, s.raw(64) * 4])
        if i and s.bool(1, 3):
            at += s.raw(4)                                # data need not be aligned
        k = s.weighted([("data", 5), ("zero", 3), ("other", 2)])
        size = s.size(200, 0) if k != "zero" else s.size(3000, 0)
        secs.append(dict(k=k, a=at if k != "other" else s.raw(64), n=size, d="".join("%02x" % s.raw(256) for _ in range(size)) if k != "zero" else "",
                         off=s.raw(4)))
        if k != "other":
            at += size
    return dict(secs=secs, machine=40 if s.raw(16) else s.choice([3, 62, 0]), tail=s.raw(64))


def elf(d):
    import struct
    names = b"\0.text\0.data\0.bss\0.other\0.shstrtab\0"
    body, heads = b"", [struct.pack("<10I", *[0] * 10)]
    start = 52
    for i, x in enumerate(d["secs"]):
        body += b"\xEE" * x["off"]
        heads.append(struct.pack("<10I", names.index({"data": b".data", "zero": b".bss", "other": b".other"}[x["k"]]),
                                 {"data": 1, "zero": 8, "other": 0x70000003}[x["k"]], 3, x["a"], start + len(body), x["n"], 0, 0, 1, 0))
        body += bytes.fromhex(x["d"])
    heads.append(struct.pack("<10I", names.index(b".shstrtab"), 3, 0, 0, start + len(body), len(names), 0, 0, 1, 0))
    body += names
    shoff = start + len(body)
    h = b"\x7fELF\x01\x01\x01" + b"\0" * 9 + struct.pack("<HHIIIIIHHHHHH", 2, d["machine"], 1, 0, 0, shoff, 0x05000200, 52, 32, 0, 40, len(heads), len(heads) - 1)
    return h + body + b"".join(heads) + b"\0" * d["tail"]


def check43t(ctx, d):
    exe = os.path.join(ctx.dir, "split-asan")
    if not os.path.exists(exe):
        try:
            build.splitter(exe, "-fsanitize=address")
        except build.BuildError as e:
            raise Inconclusive("the splitter does not build: " + str(e)[-200:])
    f = lambda x: os.path.join(ctx.dir, x)
    with open(f("x.elf"), "wb") as h:
        h.write(elf(d))
    if os.path.exists(f("x.txt")):
        os.unlink(f("x.txt"))
    rc = build.split(exe, f("x.elf"), f("x.mem"), f("x.txt"))
    got = words_of(f("x.txt"))
    if d["machine"] != 40:
        ctx.label("not for the ARM")
        if rc == 0 or got:
            raise Fail("accept", "an executable for machine %d: %d words, status %d" % (d["machine"], len(got), rc))
        return
    want = {}
    for x in d["secs"]:
        if x["k"] != "other":
            b = bytes.fromhex(x["d"]) if x["k"] == "data" else bytes(x["n"])
            want.update({x["a"] + i: v for i, v in enumerate(b)})
    if rc:
        raise Fail("crash", "sections %s: status %d" % ([(x["k"], x["a"], x["n"]) for x in d["secs"]], rc))
    for a, v in want.items():
        w = got[a >> 2] >> 8 * (a & 3) & 255 if a >> 2 < len(got) else None
        if w != v:
            raise Fail("word", "sections %s: address %d holds %s instead of %d" % ([(x["k"], x["a"], x["n"]) for x in d["secs"]], a, w, v))
    if want:
        ctx.nontrivial()
    if len(got) > max(want, default=0) // 4 + 2:
        raise Fail("length", "sections %s: %d words" % ([(x["k"], x["a"], x["n"]) for x in d["secs"]], len(got)))


def C43():
    return Prop("C43", "Inputs as for C33. Suite shipped: a23/*/p.txt on the reference interpreter (memories of 64 words, code memory as long as the file), any access "
                "outside the memories is a violation. Suite built: the C sources, a23/lib/start.S and a23/include/sections.lds built for the ARM with clang and lld, "
                "amber-elfsplitter and amber-code32.sh, on the interpreter. Suite core: p.txt of the short programs on the elaborated a23_gc_main. Suite tools: "
                "generated ELF files through amber-elfsplitter (under AddressSanitizer) and amber-code32.sh. Non-trivial: a program ran to its end; an executable "
                "with at least one byte.",
                [Suite("shipped", gen33, check43s, 2000, 100000, 3), Suite("built", gen43b, check43b, 2000, 100000, 3),
                 Suite("core", gen43c, check43c, 16, 2000, 2), Suite("tools", gen43t, check43t, 800, 20000, 1)],
                [("opt", "vsim"), ("opt", "arm")], ASSUME + [
                    "The GNU cross tools are not available: clang 18 and lld build the programs (-Os and -O3, ARMv4, a byte-wise memcpy and memset). "
                    "What depends on the compiler (stack use, other instructions) is not judged."])


# ------------------------------------------------------------------ C44: the whole way from Verilog and a program to two parties
SMALL = (12, 12, 12, 16)                            # words of the memories with generated programs
SHIP = (32, 32, 32, 64)


def core_scd(ctx, kind, lib):
    """the translated processor, made once for the tree as it is"""
    import fcntl, random
    b = ctx.bins[CLI[0]]
    if kind == "mips":
        D = lambda: design("Lite_MIPS", dict(W=32, L=4), ["mips"])
    else:
        D = lambda: core(64, SMALL if kind == "small" else SHIP)
    files = sorted(glob.glob(os.path.join(CS, "*", "*.v*")) + glob.glob(os.path.join(CS, "syn_lib", "*")) + glob.glob(os.path.join(build.HERE, "lib", "*.py")))
    key = build._h(kind, lib, b[V2SCD], *[x for f in files if os.path.isfile(f) for x in (f, build._read(f))])
    d = os.path.join(build.BUILD, "core")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, key + ".scd")
    with open(os.path.join(d, "%s-%s.lock" % (kind, lib)), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for f in glob.glob(os.path.join(d, "*")):
                if time.time() - os.stat(f).st_mtime > 40000:
                    os.unlink(f)
            s = Src(random.Random(7))
            D = D()
            nl = mapped(s, D, {p: len(D.inputs.get(p, ())) for p in PORTS}, lib)
            v = os.path.join(ctx.dir, "core.v")
            with open(v, "w") as f:
                f.write(netlist.verilog(s, netlist.shuffle(s, nl)))
            box = Box(ctx)
            try:
                rc, _ = box.run(V2SCD, ["-i", v, "-o", box.path("core.scd")], t=300)
                if rc:
                    raise Fail("translator", "the netlist of the processor (%s, %s): status %d" % (kind, lib, rc))
                shutil.move(box.path("core.scd.map"), out + ".map")
                shutil.move(box.path("core.scd"), out + ".tmp")
            finally:
                box.close()
            os.rename(out + ".tmp", out)
    return out


def gen44(s, kinds=("small", "mips")):
    kind, lib = s.choice(kinds), s.choice(sorted(LIBS))
    d = dict(kind=kind, lib=lib, ot=int(s.bool(1, 3)), low=s.raw(2), swap=s.raw(2), mask=s.raw(3), key=1 + s.raw(1 << 16))
    if kind == "mips":
        n = 16
        code = [L_OPS["lw"] << 26 | k << 16 | 4 * s.raw(n) for k in range(1, 5) if s.raw(4)]
        while len(code) < n:
            code += mips_instr(s, n, len(code))
        d.update(c=hx(code[:n]), g="", e=hx([value(s) for _ in range(n)]), cc=s.int(1, 24))
    elif kind == "small":
        d.update(c=hx(gen_arm(s, SMALL)), g=hx([value(s) for _ in range(SMALL[0])]), e=hx([value(s) for _ in range(SMALL[1])]))
    else:
        c = gen33(s, s.choice(["sum", "compare", "hamming", "mul", "matrix-mul"]))
        g, e = memories(c)
        d.update(p=c["p"], g=hx(g[:32]), e=hx(e[:32]))
    return d


def check44(ctx, d):
    kind = d["kind"]
    g, e = unhx(d["g"]), unhx(d["e"])
    if kind == "mips":
        code = unhx(d["c"])
        M_ = Mips(code, e)
        cc = 1
        while cc < d["cc"] and M_.step():           # the output of a cycle shows the memory before it
            cc += 1
        want, steps = [M_.m], cc
    else:
        mem = SMALL if kind == "small" else SHIP
        code = unhx(d["c"]) if kind == "small" else words_of(os.path.join(build.REPO, "a23", d["p"], "p.txt"))
        if len(code) > 64:
            ctx.label("too long")
            return
        code += [0] * (64 - len(code))
        A = arm.Arm(code, g, e, mem[2], mem[3])
        try:
            o = A.run(2000)
        except arm.Stop as x:
            if kind == "ship":
                raise Fail("end", "a23/%s/p.txt: %s" % (d["p"], x))
            ctx.label("not run")
            return
        want, cc = [o], 8 * A.steps + 240
    scd = core_scd(ctx, kind, d["lib"])
    ctx.label(kind, "ot" if d["ot"] else "no ot", "low" if d["low"] else "high")
    ctx.nontrivial()
    box = Box(ctx)
    try:
        def f(n, ws):
            return box.write(n, "".join("%08x\n" % w for w in ws))
        both = ["-i", scd, "-c", str(cc), "--output_mode", "2"] + (["-t", "1"] if kind != "mips" else [])
        if kind == "mips":                          # the program is the garbler's
            ga, gb, pub = ["_init", f("g", code)], ["_init", f("e", e)], []
        else:
            ga, gb, pub = ["_init", f("g", g)], ["_init", f("e", e)], ["--p_init", f("p", code)]
        rc, out = box.run(EVAL, both + pub + ["--g" + ga[0], ga[1], "--e" + gb[0], gb[1]], t=280)
        no = 32 * len(want[0])
        def judge(rc, v, who):
            if rc:
                raise Fail("status", "%s ended with status %d" % (who, rc))
            if v != [pack(w) for w in want]:
                raise Fail("value", "%s program %s g=%s e=%s: %s printed %s, expected %s" % (
                    kind, d.get("p") or d["c"], d["g"], d["e"], who, v if isinstance(v[0], str) else ["%x" % x for x in v], ["%x" % pack(w) for w in want]))
        judge(rc, shown(out), "the plaintext evaluator")
        import random
        m = [0, (1 << no) - 1, random.Random(d["key"]).getrandbits(no)][d["mask"]]
        both += (["--output_mask", "%x" % m] if m else []) + ([] if d["ot"] else ["--disable_OT"]) + (["--low_mem_foot"] if d["low"] else [])
        ra, oa, rb, ob = pair(box, TG, ["-a"] + both + pub + ["--init", ga[1]], ["-b"] + both + pub + ["--init", gb[1]], "-p", t=280)
        if ra or rb:
            raise Fail("status", "the parties ended with status %d and %d" % (ra, rb))
        a, b = shown(oa), shown(ob)
        if len(a) != 1 or len(b) != 1 or isinstance(a[0], str) or isinstance(b[0], str) or a[0] & ~m or b[0] & m:
            raise Fail("mask", "mask %x: Alice printed %r, Bob %r" % (m, oa[-300:], ob[-300:]))
        judge(0, [a[0] | b[0]], "the parties together")
    finally:
        box.close()


def C44():
    return Prop("C44", "The elaborated a23_gc_main (program in p_init) and Lite_MIPS (program of the garbler) are mapped to cells of a shipped library and translated by "
                "V2SCD; generated programs and (thorough) short shipped ones run on them in SCD_Evaluator_Main and by two TinyGarble processes over TCP (with -t 1 for the ARM), "
                "with drawn masks, OT on and off, both memory modes, against the reference interpreters. Non-trivial: every run.",
                [Suite("flow", gen44, check44, 40, 3000, 3), Suite("shipped", lambda s: gen44(s, ["ship"]), check44, 0, 400, 1)], CLI, ASSUME)


def C42():
    return Prop("C42", "Generated programs (start code as in a23/lib/start.S; data processing with all shifts, conditions and flags, multiplications, single and block "
                "transfers, branches, calls, loops) run on the elaborated a23_gc_main, up to 64 at a time, until it raises terminate, and on a reference "
                "interpreter; registers and flags are dumped to the output memory at the end. Programs doing something unspecified are dropped.",
                [Suite("programs", gen42, check42, 400, 40000)], [("opt", "vsim")], ASSUME)
