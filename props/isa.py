"""The 65816 instruction set, written from the processor's data sheet: sixteen rows of sixteen opcodes.
Operand notation: '' none, A accumulator, #b byte, #w word, #m / #x width of the accumulator / index registers,
d direct page, a absolute, al absolute long, s stack relative, r relative, rl relative long, sd block move."""

ROWS = '''
brk #b|ora (d,x)|cop #b|ora s|tsb d|ora d|asl d|ora [d]|php|ora #m|asl A|phd|tsb a|ora a|asl a|ora al
bpl r|ora (d),y|ora (d)|ora (s),y|trb d|ora d,x|asl d,x|ora [d],y|clc|ora a,y|inc A|tcs|trb a|ora a,x|asl a,x|ora al,x
jsr a|and (d,x)|jsl al|and s|bit d|and d|rol d|and [d]|plp|and #m|rol A|pld|bit a|and a|rol a|and al
bmi r|and (d),y|and (d)|and (s),y|bit d,x|and d,x|rol d,x|and [d],y|sec|and a,y|dec A|tsc|bit a,x|and a,x|rol a,x|and al,x
rti|eor (d,x)|wdm #b|eor s|mvp sd|eor d|lsr d|eor [d]|pha|eor #m|lsr A|phk|jmp a|eor a|lsr a|eor al
bvc r|eor (d),y|eor (d)|eor (s),y|mvn sd|eor d,x|lsr d,x|eor [d],y|cli|eor a,y|phy|tcd|jmp al|eor a,x|lsr a,x|eor al,x
rts|adc (d,x)|per rl|adc s|stz d|adc d|ror d|adc [d]|pla|adc #m|ror A|rtl|jmp (a)|adc a|ror a|adc al
bvs r|adc (d),y|adc (d)|adc (s),y|stz d,x|adc d,x|ror d,x|adc [d],y|sei|adc a,y|ply|tdc|jmp (a,x)|adc a,x|ror a,x|adc al,x
bra r|sta (d,x)|brl rl|sta s|sty d|sta d|stx d|sta [d]|dey|bit #m|txa|phb|sty a|sta a|stx a|sta al
bcc r|sta (d),y|sta (d)|sta (s),y|sty d,x|sta d,x|stx d,y|sta [d],y|tya|sta a,y|txs|txy|stz a|sta a,x|stz a,x|sta al,x
ldy #x|lda (d,x)|ldx #x|lda s|ldy d|lda d|ldx d|lda [d]|tay|lda #m|tax|plb|ldy a|lda a|ldx a|lda al
bcs r|lda (d),y|lda (d)|lda (s),y|ldy d,x|lda d,x|ldx d,y|lda [d],y|clv|lda a,y|tsx|tyx|ldy a,x|lda a,x|ldx a,y|lda al,x
cpy #x|cmp (d,x)|rep #b|cmp s|cpy d|cmp d|dec d|cmp [d]|iny|cmp #m|dex|wai|cpy a|cmp a|dec a|cmp al
bne r|cmp (d),y|cmp (d)|cmp (s),y|pei d|cmp d,x|dec d,x|cmp [d],y|cld|cmp a,y|phx|stp|jmp [a]|cmp a,x|dec a,x|cmp al,x
cpx #x|sbc (d,x)|sep #b|sbc s|cpx d|sbc d|inc d|sbc [d]|inx|sbc #m|nop|xba|cpx a|sbc a|inc a|sbc al
beq r|sbc (d),y|sbc (d)|sbc (s),y|pea #w|sbc d,x|inc d,x|sbc [d],y|sed|sbc a,y|plx|xce|jsr (a,x)|sbc a,x|inc a,x|sbc al,x
'''
TABLE = [(c.split(' ') + [''])[:2] for row in ROWS.strip().split('\n') for c in row.split('|')]
assert len(TABLE) == 256

# operand notation -> (mode constant, operand bytes)
MODES = {
    '': ('A_imp', 0), 'A': ('A_acc', 0), '#b': ('A_imm_b', 1), '#w': ('A_imm_w', 2), 'd': ('A_dir_b', 1), 'a': ('A_dir_w', 2),
    'al': ('A_dir_l', 3), 'd,x': ('A_dir_bx', 1), 'd,y': ('A_dir_by', 1), 'a,x': ('A_dir_wx', 2), 'a,y': ('A_dir_wy', 2),
    'al,x': ('A_dir_lx', 3), '(d)': ('A_ind_b', 1), '(a)': ('A_ind_w', 2), '(d,x)': ('A_ind_bx', 1), '(d),y': ('A_ind_by', 1),
    '(a,x)': ('A_ind_wx', 2), '[d]': ('A_lng_b', 1), '[a]': ('A_lng_w', 2), '[d],y': ('A_lng_by', 1), 's': ('A_stk', 1),
    '(s),y': ('A_stk_y', 1), 'sd': ('A_mov', 2), 'r': ('A_rel8', 1), 'rl': ('A_rel16', 2),
    '#m': ('A_imm_fm', None), '#x': ('A_imm_fx', None),
}
SIZES = {m: n for m, n in MODES.values()}
M_WIDE = set('adc and asl bit cmp dec eor inc lda lsr ora pha pla rol ror sbc sta stz trb tsb txa tya'.split())
X_WIDE = set('cpx cpy dex dey inx iny ldx ldy phx phy plx ply stx sty tax tay tsx txy tyx'.split())

# introduced by the 65C02 (all else not in the NMOS 6502 set came with the 65816)
C02 = {0x04, 0x0c, 0x12, 0x14, 0x1a, 0x1c, 0x32, 0x34, 0x3a, 0x3c, 0x52, 0x5a, 0x64, 0x72, 0x74, 0x7a, 0x7c, 0x80, 0x89,
       0x92, 0x9c, 0x9e, 0xb2, 0xd2, 0xda, 0xf2, 0xfa}
N816 = {i for i in range(256) if i & 15 in (3, 7, 15)} | {0x02, 0x0b, 0x1b, 0x22, 0x2b, 0x3b, 0x42, 0x44, 0x4b, 0x54, 0x5b, 0x5c, 0x62,
        0x6b, 0x7b, 0x82, 0x8b, 0x9b, 0xab, 0xbb, 0xc2, 0xcb, 0xd4, 0xdb, 0xdc, 0xe2, 0xeb, 0xf4, 0xfb, 0xfc}


def family(i):
    return 'F_65C02' if i in C02 else 'F_65816' if i in N816 else 'F_6502'
