"""The Z80 and eZ80 instruction sets, generated from their encoding scheme (Zilog UM0080, UM0077 and the known
undocumented Z80 opcodes), independent of the tables in /repo.

form: (mnemonic, argument pattern) -> dict(bytes, kinds, end, t=(min,max), doc)
  argument pattern characters: * 16/24-bit number, & 8-bit number, % relative jump, @ index displacement,
  ^ bit number (goes into the trailing byte), # rst vector
"""

R8 = {"B": 0, "C": 1, "D": 2, "E": 3, "H": 4, "L": 5, "(HL)": 6, "A": 7}
DD = {"BC": 0, "DE": 1, "HL": 2, "SP": 3}
QQ = {"BC": 0, "DE": 1, "HL": 2, "AF": 3}
CC = {"NZ": 0, "Z": 1, "NC": 2, "C": 3, "PO": 4, "PE": 5, "P": 6, "M": 7}
ALU = {"ADD": 0, "ADC": 1, "SUB": 2, "SBC": 3, "AND": 4, "XOR": 5, "OR": 6, "CP": 7}
ROT = {"RLC": 0, "RRC": 1, "RL": 2, "RR": 3, "SLA": 4, "SRA": 5, "SLL": 6, "SL1": 6, "SRL": 7}
IXY = {"IX": 0xDD, "IY": 0xFD}


class Forms(dict):
    def f(self, name, args, by, t, end=None, doc=True):
        t = t if isinstance(t, tuple) else (t, t)
        kinds = "".join(c for c in args if c in "*&%@^#") if name != "EX" else ""
        k = (name, args)
        assert k not in self, k
        self[k] = {"bytes": tuple(by), "kinds": kinds, "end": end, "t": t, "doc": doc}


def common(F, ez80):
    f = F.f
    # 8-bit loads
    for a, x in R8.items():
        for b, y in R8.items():
            if a == b == "(HL)":
                continue
            if ez80 and a == b and a in "BCDE":
                continue  # the eZ80 assigns these opcodes to the mode suffixes
            f("LD", a + "," + b, [0x40 | x << 3 | y], 7 if "(HL)" in (a, b) else 4)
    for a, x in R8.items():
        f("LD", a + ",&", [0x06 | x << 3], 10 if a == "(HL)" else 7)
    for p, px in IXY.items():
        for a, x in R8.items():
            if a == "(HL)":
                continue
            f("LD", "%s,(%s@)" % (a, p), [px, 0x46 | x << 3], 19)
            f("LD", "(%s@),%s" % (p, a), [px, 0x70 | x], 19)
        f("LD", "(%s@),&" % p, [px, 0x36], 19)
        h = {p + "H": 4, p + "L": 5}
        und = ez80  # half index registers: undocumented on the Z80, documented on the eZ80
        for a, x in h.items():
            f("LD", a + ",&", [px, 0x06 | x << 3], 11, doc=und)
            for b, y in R8.items():
                if b not in ("(HL)", "H", "L"):
                    f("LD", a + "," + b, [px, 0x40 | x << 3 | y], 8, doc=und)
                    f("LD", b + "," + a, [px, 0x40 | y << 3 | x], 8, doc=und)
            for b, y in h.items():
                f("LD", a + "," + b, [px, 0x40 | x << 3 | y], 8, doc=und)
        # 16-bit
        f("LD", p + ",*", [px, 0x21], 14)
        f("LD", p + ",(*)", [px, 0x2A], 20)
        f("LD", "(*)," + p, [px, 0x22], 20)
        f("LD", "SP," + p, [px, 0xF9], 10)
        f("PUSH", p, [px, 0xE5], 15)
        f("POP", p, [px, 0xE1], 14)
        f("EX", "(SP)," + p, [px, 0xE3], 23)
        f("JP", "(%s)" % p, [px, 0xE9], 8)
        f("INC", p, [px, 0x23], 10)
        f("DEC", p, [px, 0x2B], 10)
        for q, x in (("BC", 0), ("DE", 1), (p, 2), ("SP", 3)):
            f("ADD", p + "," + q, [px, 0x09 | x << 4], 15)
        for a, x in h.items():
            f("INC", a, [px, 0x04 | x << 3], 8, doc=und)
            f("DEC", a, [px, 0x05 | x << 3], 8, doc=und)
        f("INC", "(%s@)" % p, [px, 0x34], 23)
        f("DEC", "(%s@)" % p, [px, 0x35], 23)
    f("LD", "A,(BC)", [0x0A], 7)
    f("LD", "A,(DE)", [0x1A], 7)
    f("LD", "(BC),A", [0x02], 7)
    f("LD", "(DE),A", [0x12], 7)
    f("LD", "A,(*)", [0x3A], 13)
    f("LD", "(*),A", [0x32], 13)
    f("LD", "A,I", [0xED, 0x57], 9)
    f("LD", "A,R", [0xED, 0x5F], 9)
    f("LD", "I,A", [0xED, 0x47], 9)
    f("LD", "R,A", [0xED, 0x4F], 9)
    for d, x in DD.items():
        f("LD", d + ",*", [0x01 | x << 4], 10)
        if d == "HL":
            f("LD", "HL,(*)", [0x2A], 16)
            f("LD", "(*),HL", [0x22], 16)
        else:
            f("LD", d + ",(*)", [0xED, 0x4B | x << 4], 20)
            f("LD", "(*)," + d, [0xED, 0x43 | x << 4], 20)
        f("INC", d, [0x03 | x << 4], 6)
        f("DEC", d, [0x0B | x << 4], 6)
        f("ADD", "HL," + d, [0x09 | x << 4], 11)
        f("ADC", "HL," + d, [0xED, 0x4A | x << 4], 15)
        f("SBC", "HL," + d, [0xED, 0x42 | x << 4], 15)
    f("LD", "SP,HL", [0xF9], 6)
    for q, x in QQ.items():
        f("PUSH", q, [0xC5 | x << 4], 11)
        f("POP", q, [0xC1 | x << 4], 10)
    f("EX", "DE,HL", [0xEB], 4)
    f("EX", "AF,AF'", [0x08], 4)
    f("EX", "(SP),HL", [0xE3], 19)
    # ALU
    for m, k in ALU.items():
        forms = [("A,", True)] if m in ("ADD", "ADC", "SBC") else [("A,", False), ("", True)]
        for pre, doc in forms:
            for a, x in R8.items():
                f(m, pre + a, [0x80 | k << 3 | x], 7 if a == "(HL)" else 4, doc=doc)
            f(m, pre + "&", [0xC6 | k << 3], 7, doc=doc)
            for p, px in IXY.items():
                f(m, pre + "(%s@)" % p, [px, 0x86 | k << 3], 19, doc=doc)
                f(m, pre + p + "H", [px, 0x84 | k << 3], 8, doc=doc and ez80)
                f(m, pre + p + "L", [px, 0x85 | k << 3], 8, doc=doc and ez80)
    for a, x in R8.items():
        f("INC", a, [0x04 | x << 3], 11 if a == "(HL)" else 4)
        f("DEC", a, [0x05 | x << 3], 11 if a == "(HL)" else 4)
    # rotates and bits
    for m, k in ROT.items():
        if ez80 and m in ("SLL", "SL1"):
            continue
        und = m not in ("SLL", "SL1")
        for a, x in R8.items():
            f(m, a, [0xCB, k << 3 | x], 15 if a == "(HL)" else 8, doc=und)
        for p, px in IXY.items():
            f(m, "(%s@)" % p, [px, 0xCB], 23, end=k << 3 | 6, doc=und)
            if not ez80:
                for a, x in R8.items():
                    if a != "(HL)":
                        f(m, "%s,(%s@)" % (a, p), [px, 0xCB], 23, end=k << 3 | x, doc=False)
    for m, base in (("BIT", 0x40), ("RES", 0x80), ("SET", 0xC0)):
        for a, x in R8.items():
            f(m, "^," + a, [0xCB], (12 if m == "BIT" else 15) if a == "(HL)" else 8, end=base | x)
        for p, px in IXY.items():
            f(m, "^,(%s@)" % p, [px, 0xCB], 20 if m == "BIT" else 23, end=base | 6)
            if not ez80 and m != "BIT":
                for a, x in R8.items():
                    if a != "(HL)":
                        f(m, "%s,^,(%s@)" % (a, p), [px, 0xCB], 23, end=base | x, doc=False)
    # jumps
    f("JP", "*", [0xC3], 10)
    f("JP", "(HL)", [0xE9], 4)
    f("CALL", "*", [0xCD], 17)
    f("RET", "", [0xC9], 10)
    f("JR", "%", [0x18], 12)
    f("DJNZ", "%", [0x10], (8, 13))
    for c, x in CC.items():
        f("JP", c + ",*", [0xC2 | x << 3], 10)
        f("CALL", c + ",*", [0xC4 | x << 3], (10, 17))
        f("RET", c, [0xC0 | x << 3], (5, 11))
        if x < 4:
            f("JR", c + ",%", [0x20 | x << 3], (7, 12))
    for v in range(0, 64, 8):
        f("RST", "%02XH" % v, [0xC7 | v], 11)
    F[("RST", "#")] = {"bytes": (), "kinds": "#", "end": None, "t": (11, 11), "doc": True}
    # plain
    for m, b, t in (("NOP", 0x00, 4), ("RLCA", 0x07, 4), ("RRCA", 0x0F, 4), ("RLA", 0x17, 4), ("RRA", 0x1F, 4),
                    ("DAA", 0x27, 4), ("CPL", 0x2F, 4), ("SCF", 0x37, 4), ("CCF", 0x3F, 4), ("HALT", 0x76, 4),
                    ("EXX", 0xD9, 4), ("DI", 0xF3, 4), ("EI", 0xFB, 4)):
        f(m, "", [b], t)
    for m, b, t in (("NEG", 0x44, 8), ("RETN", 0x45, 14), ("RETI", 0x4D, 14), ("RRD", 0x67, 18), ("RLD", 0x6F, 18),
                    ("LDI", 0xA0, 16), ("CPI", 0xA1, 16), ("INI", 0xA2, 16), ("OUTI", 0xA3, 16),
                    ("LDD", 0xA8, 16), ("CPD", 0xA9, 16), ("IND", 0xAA, 16), ("OUTD", 0xAB, 16),
                    ("LDIR", 0xB0, (16, 21)), ("CPIR", 0xB1, (16, 21)), ("INIR", 0xB2, (16, 21)), ("OTIR", 0xB3, (16, 21)),
                    ("LDDR", 0xB8, (16, 21)), ("CPDR", 0xB9, (16, 21)), ("INDR", 0xBA, (16, 21)), ("OTDR", 0xBB, (16, 21))):
        f(m, "", [0xED, b], t)
    for i, b in enumerate((0x46, 0x56, 0x5E)):
        f("IM", str(i), [0xED, b], 8)
    # I/O
    f("IN", "A,(&)", [0xDB], 11)
    f("OUT", "(&),A", [0xD3], 11)
    for a, x in R8.items():
        if a == "(HL)":
            continue
        f("IN", a + ",(C)", [0xED, 0x40 | x << 3], 12)
        f("OUT", "(C)," + a, [0xED, 0x41 | x << 3], 12)
    f("IN", "F,(C)", [0xED, 0x70], 12, doc=False)


def z80():
    F = Forms()
    common(F, False)
    F.f("OUT", "(C),0", [0xED, 0x71], 12, doc=False)
    F.f("IN", "(C)", [0xED, 0x70], 12, doc=False)
    return F


def ez80():
    F = Forms()
    common(F, True)
    f = F.f
    for a, x in R8.items():
        if a == "(HL)":
            continue
        f("IN", a + ",(BC)", [0xED, 0x40 | x << 3], 0)
        f("OUT", "(BC)," + a, [0xED, 0x41 | x << 3], 0)
        f("IN0", a + ",(&)", [0xED, 0x00 | x << 3], 0)
        f("OUT0", "(&)," + a, [0xED, 0x01 | x << 3], 0)
        f("TST", "A," + a, [0xED, 0x04 | x << 3], 0)
    for a in ("(C)", "(BC)", "F,(BC)"):
        f("IN", a, [0xED, 0x70], 0, doc=False)
    for a in ("(&)", "F,(&)"):
        f("IN0", a, [0xED, 0x30], 0, doc=False)
    f("TST", "A,(HL)", [0xED, 0x34], 0)
    f("TST", "A,&", [0xED, 0x64], 0)
    f("TSTIO", "&", [0xED, 0x74], 0)
    for d, x in DD.items():
        f("MLT", d, [0xED, 0x4C | x << 4], 0)
    for m, b in (("SLP", 0x76), ("STMIX", 0x7D), ("RSMIX", 0x7E),
                 ("INIM", 0x82), ("OTIM", 0x83), ("INI2", 0x84), ("INDM", 0x8A), ("OTDM", 0x8B), ("IND2", 0x8C),
                 ("INIMR", 0x92), ("OTIMR", 0x93), ("INI2R", 0x94), ("INDMR", 0x9A), ("OTDMR", 0x9B), ("IND2R", 0x9C),
                 ("OUTI2", 0xA4), ("OUTD2", 0xAC), ("OTI2R", 0xB4), ("OTD2R", 0xBC),
                 ("INIRX", 0xC2), ("OTIRX", 0xC3), ("INDRX", 0xCA), ("OTDRX", 0xCB)):
        f(m, "", [0xED, b], 0)
    f("LD", "A,MB", [0xED, 0x6E], 0)
    f("LD", "MB,A", [0xED, 0x6D], 0)
    f("LD", "I,HL", [0xED, 0xC7], 0)
    f("LD", "HL,I", [0xED, 0xD7], 0)
    for r, x in (("BC", 0), ("DE", 1), ("HL", 2)):
        f("LD", r + ",(HL)", [0xED, 0x07 | x << 4], 0)
        f("LD", "(HL)," + r, [0xED, 0x0F | x << 4], 0)
        for p, px in IXY.items():
            f("LD", "%s,(%s@)" % (r, p), [px, 0x07 | x << 4], 0)
            f("LD", "(%s@),%s" % (p, r), [px, 0x0F | x << 4], 0)
    f("LD", "IX,(HL)", [0xED, 0x37], 0)
    f("LD", "IY,(HL)", [0xED, 0x31], 0)
    f("LD", "(HL),IX", [0xED, 0x3F], 0)
    f("LD", "(HL),IY", [0xED, 0x3E], 0)
    for p, px, q in (("IX", 0xDD, "IY"), ("IY", 0xFD, "IX")):
        f("LD", "%s,(%s@)" % (p, p), [px, 0x37], 0)
        f("LD", "(%s@),%s" % (p, p), [px, 0x3F], 0)
        f("LD", "%s,(%s@)" % (q, p), [px, 0x31], 0)
        f("LD", "(%s@),%s" % (p, q), [px, 0x3E], 0)
    for r, x in (("BC", 0x02), ("DE", 0x12), ("HL", 0x22)):
        f("LEA", r + ",IX@", [0xED, x], 0)
        f("LEA", r + ",IY@", [0xED, x + 1], 0)
    f("LEA", "IX,IX@", [0xED, 0x32], 0)
    f("LEA", "IY,IY@", [0xED, 0x33], 0)
    f("LEA", "IX,IY@", [0xED, 0x54], 0)
    f("LEA", "IY,IX@", [0xED, 0x55], 0)
    f("PEA", "IX@", [0xED, 0x65], 0)
    f("PEA", "IY@", [0xED, 0x66], 0)
    return F
