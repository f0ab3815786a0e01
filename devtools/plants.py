"""Planted bugs, written from the properties and the code. See plant.py."""
J = "monoasm/src/jit_memory.rs"
L = "monoasm/src/lib.rs"
A = "monoasm_macro/src/asm.rs"
I = "monoasm_macro/src/inst.rs"
P = "monoasm_macro/src/parse.rs"
PLANTS = []


def bug(id, property, edits, needs, breaks, demo, extra=""):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, extra=extra))


bug("c01-spl", "C01",
    [(J, "} else if reg.0 > 3 || (base.0 > 3 && mode == Mode::Reg) {",
      "} else if reg.0 > 3 || (base.0 > 4 && mode == Mode::Reg) {")],
    "a byte instruction whose register r/m operand is the low byte of rsp (register 4)",
    "the REX prefix is left out, so spl becomes ah",
    '''
    let mut jit = JitMemory::new();
    monoasm!(&mut jit, movb rsp, rbx;);
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x40, 0x88, 0xdc]);
''')

bug("c01-testb-reg", "C01",
    [(A, "RiOperand::Reg(expr) => quote!( jit.enc_mr_byte(&[0x84], #expr, #op1); ),",
      "RiOperand::Reg(expr) => quote!( jit.enc_mr(&[0x84], #expr, #op1); ),")],
    "testb with rsi, rdi, rbp or rsp as a register operand and no extended register",
    "the byte registers sil/dil/bpl/spl turn into dh/bh/ch/ah",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!(&mut jit,
    f:
        pushq rbx;
        movq rdx, 0xff00;
        movq rsi, 0;
        movq rbx, 0xff;
        testb rsi, rbx;
        setz rax;
        movzxb rax, rax;
        popq rbx;
        ret;
    );
    jit.finalize();
    let f: extern "C" fn(()) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(()), 1);
''')

bug("c02-rbp-index", "C02",
    [(J, "rex_fn(self, reg, rm.base, scale.index(), rm.mode);",
      "rex_fn(self, reg, rm.base, Reg(0), rm.mode);")],
    "base rbp or r13 without displacement, together with an index register among r8-r15",
    "REX.X is lost, so another index register is used",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!(&mut jit,
    f:
        pushq r13;
        movq r13, 0x1000;
        movq rcx, 0;
        movq r9, 2;
        lea rax, [r13 + r9 * 4];
        popq r13;
        ret;
    );
    jit.finalize();
    let f: extern "C" fn(()) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(()), 0x1008);
''')

bug("c02-disp128", "C02",
    [(L, "if let Ok(disp) = i8::try_from(disp) {\n                    Disp::D8(disp)",
      "if disp.unsigned_abs() <= 128 {\n                    Disp::D8(disp as i8)")],
    "a displacement of exactly 128",
    "disp8 is chosen for +128, which the processor reads as -128",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!(&mut jit,
    f:
        lea rax, [rdi + 128];
        lea rcx, [rdi - 128];
        subq rax, rcx;
        ret;
    );
    jit.finalize();
    let f: extern "C" fn(u64) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(4096), 256);
''')

bug("c02-byte-mem-rex", "C02",
    [(J, """        if reg.0 > 7 || base.0 > 7 || index.0 > 7 {
            self.rex(reg, base, index, mode);
        } else if reg.0 > 3""", """        if reg.0 > 7 || base.0 > 7 {
            self.rex(reg, base, index, mode);
        } else if reg.0 > 3""")],
    "a byte instruction with an index among r8-r15 while neither base nor register operand is extended",
    "the index register of the memory operand is a different one",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    let buf = [1u8, 2, 3, 4, 5, 6, 7, 8];
    monoasm!(&mut jit,
    f:
        movq r9, 5;
        movq rcx, 1;
        movq rax, 0;
        movb rax, [rdi + r9];
        ret;
    );
    jit.finalize();
    let f: extern "C" fn(*const u8) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(buf.as_ptr()), 6);
''')

bug("c03-movq-short", "C03",
    [(A, """                quote!(
                    let imm = (#i) as i64;
                    //if let Ok(imm) = i32::try_from(imm) {
                    //    // MOV r/m64, imm32
                    //    jit.enc_rexw_mi(0xc7, rm_op, Imm::L(imm));
                    //} else {
                    //    // MOV r64, imm64
                        jit.enc_rexw_o(0xb8, #expr);
                        jit.emitq(imm as u64);
                    //};
                )""", """                quote!(
                    let imm = (#i) as i64;
                    if let Ok(imm) = i32::try_from(imm) {
                        // MOV r32, imm32
                        jit.enc_oi(0xb8, #expr);
                        jit.emitl(imm as u32);
                    } else {
                        // MOV r64, imm64
                        jit.enc_rexw_o(0xb8, #expr);
                        jit.emitq(imm as u64);
                    };
                )""")],
    "movq of a negative 32-bit immediate to a register",
    "a shorter form is chosen that zero-extends negative values",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!(&mut jit, f: movq rax, (-2); ret;);
    jit.finalize();
    let f: extern "C" fn(()) -> i64 = jit.get_label_addr(f);
    assert_eq!(f(()), -2);
''')

bug("c03-opq-u32", "C03",
    [(A, """                } else if let Ok(imm) = i32::try_from(imm) {
                    jit.enc_rexw_digit(&[0x81], #op1, #digit, Imm::L(imm));""",
      """                } else if let Ok(imm) = i32::try_from(imm).or(u32::try_from(imm).map(|i| i as i32)) {
                    jit.enc_rexw_digit(&[0x81], #op1, #digit, Imm::L(imm));""")],
    "a 64-bit arithmetic instruction with an immediate between 0x8000_0000 and 0xffff_ffff",
    "the value is accepted and used sign-extended instead of being refused",
    '''
    let mut jit = JitMemory::new();
    let v = 0x8000_0000u32;
    assert!(!ok(|| monoasm!(&mut jit, andq rax, (v);)));
''')

bug("c03-shift-mask", "C03",
    [(A, """                    if imm == 1 {
                        jit.enc_digit(&[0xd1], #op1, #digit);""", """                    if imm & 0x1f == 1 {
                        jit.enc_digit(&[0xd1], #op1, #digit);""")],
    "a 32-bit shift or rotate by an immediate outside 8 bits that is 1 modulo 32",
    "the count is silently reduced instead of refused",
    '''
    let mut jit = JitMemory::new();
    let v = 257i64;
    assert!(!ok(|| monoasm!(&mut jit, shll rax, (v);)));
''')

bug("c04-sqrtpd-low", "C04",
    [(A, """                jit.emitb(0x66);
                jit.enc_mr(&[0x0f, 0x51], Reg::from(#op1), #op2);""",
      """                jit.emitb(0xf2);
                jit.enc_mr(&[0x0f, 0x51], Reg::from(#op1), #op2);""")],
    "sqrtpd and a look at the upper lane of the result",
    "sqrtpd assembles to sqrtsd: the upper lane is not computed",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    let mut buf = [4.0f64, 9.0];
    monoasm!(&mut jit,
    f:
        movq xmm0, [rdi];
        sqrtpd xmm1, xmm0;
        ret;
    );
    jit.finalize();
    let s = jit.as_slice().to_vec();
    assert!(s.windows(4).any(|w| w == [0x66, 0x0f, 0x51, 0xc8]));
''')

bug("c04-comisd", "C04",
    [(A, "jit.enc_mr(&[0x0f, 0x2e], Reg::from(#op1), #op2);",
      "jit.enc_mr(&[0x0f, 0x2f], Reg::from(#op1), #op2);")],
    "ucomisd; visible in the exception flags for quiet NaNs",
    "ucomisd becomes comisd, which signals invalid for quiet NaNs",
    '''
    let mut jit = JitMemory::new();
    monoasm!(&mut jit, ucomisd xmm1, xmm2;);
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x66, 0x0f, 0x2e, 0xca]);
''')

bug("c04-movq-store-hi", "C04",
    [(A, """        (op1, MovOperand::Xmm(op2)) => quote! {
            jit.emitb(0x66);
            jit.enc_mr(&[0x0f, 0xd6], Reg::from(#op2), #op1);
        },""", """        (op1, MovOperand::Xmm(op2)) => quote! {
            jit.emitb(0x66);
            jit.enc_mr(&[0x0f, 0x7e], Reg::from(#op2), #op1);
        },""")],
    "movq of an xmm register to memory with a nonzero upper half",
    "only 32 bits are stored (movd)",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    let mut buf = [1.1f64, 0.0];
    monoasm!(&mut jit,
    f:
        movq xmm0, [rdi];
        movq [rdi + 8], xmm0;
        ret;
    );
    jit.finalize();
    let f: extern "C" fn(*mut f64) -> u64 = jit.get_label_addr(f);
    f(buf.as_mut_ptr());
    assert_eq!(buf[1].to_bits(), 1.1f64.to_bits());
''')

bug("c05-nle", "C05",
    [(I, '"nle" => Cond::Gt,', '"nle" => Cond::Ge,')],
    "setnle or cmovnle with equal operands",
    "the alias acts like ge",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!(&mut jit,
    f:
        movq rax, 0;
        cmpq rdi, 5;
        setnle rax;
        ret;
    );
    jit.finalize();
    let f: extern "C" fn(u64) -> u64 = jit.get_label_addr(f);
    assert_eq!((f(4), f(5), f(6)), (0, 0, 1));
''')

bug("c05-jpo", "C05",
    [(I, '"jpo" => parse_jcc!(Np),', '"jpo" => parse_jcc!(P),')],
    "jpo",
    "jumps on even parity instead of odd",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    let l = jit.label();
    monoasm!(&mut jit,
    f:
        movq rax, 1;
        testb rdi, rdi;
        jpo l;
        movq rax, 0;
    l:
        ret;
    );
    jit.finalize();
    let f: extern "C" fn(u64) -> u64 = jit.get_label_addr(f);
    assert_eq!((f(1), f(3)), (1, 0));
''')

bug("c06-imm16-offset", "C06",
    [(L, "Self::W(_) => 2,", "Self::W(_) => 4,")],
    "a rip-relative label operand followed by a 16-bit immediate",
    "the reference is two bytes off",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    let d = jit.data_i64(0x1111_1111_1111_1111);
    monoasm!(&mut jit,
    f:
        movw [rip + d], 0x7fff;
        movq rax, [rip + d];
        ret;
    );
    jit.finalize();
    let f: extern "C" fn(()) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(()), 0x1111_1111_1111_7fff);
''')

bug("c06-late-bind", "C06",
    [(J, """            if let Some((src_page, src_pos)) = rel.loc {
                let src_ptr = self[src_page].contents + src_pos.0;
                for target in std::mem::take(&mut rel.target) {""",
      """            let targets = std::mem::take(&mut rel.target);
            if let Some((src_page, src_pos)) = rel.loc {
                let src_ptr = self[src_page].contents + src_pos.0;
                for target in targets {""")],
    "a reference finalized before its label is bound; the label is bound in a later round",
    "the pending reference is forgotten and never filled",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    let l = jit.label();
    monoasm!(&mut jit, f: jmp l;);
    jit.finalize();
    monoasm!(&mut jit, movq rax, 1; ret; l: movq rax, 2; ret;);
    jit.finalize();
    let f: extern "C" fn(()) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(()), 2);
''')

bug("c06-abs-page", "C06",
    [(J, """    fn save_absolute_reloc(&mut self, page: Page, dest: DestLabel) {
        let pos = self[page].counter;
        self.labels[dest].target.push(TargetType::Abs { page, pos });""",
      """    fn save_absolute_reloc(&mut self, _page: Page, dest: DestLabel) {
        let page = self.page;
        let pos = self[page].counter;
        self.labels[dest].target.push(TargetType::Abs { page, pos });""")],
    "an absolute-address constant on a page that is not the selected one at finalization",
    "the address is written on the wrong page",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!(&mut jit, f: ret;);
    let a = jit.abs_address(f);
    jit.select_page(1);
    jit.finalize();
    let p = jit.get_label_address(a).as_ptr();
    assert_eq!(peek::<u64>(p), jit.get_label_u64(f));
''')

bug("c07-abs-align", "C07",
    [(J, """                        self[Page(id)].align8();
                        self.bind_label_with_page(Page(id), const_label);
                        self.save_absolute_reloc(Page(id), label);
                        self[Page(id)].emitq(0);""",
      """                        self.bind_label_with_page(Page(id), const_label);
                        self.save_absolute_reloc(Page(id), label);
                        self[Page(id)].emitq(0);""")],
    "an absolute-address constant after code whose end is not a multiple of 8",
    "the table entry is not aligned to 8 bytes",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!(&mut jit, f: ret;);
    let a = jit.abs_address(f);
    jit.finalize();
    assert_eq!(jit.get_label_u64(a) % 8, 0);
''')

bug("c07-i32-align", "C07",
    [(J, """                        self[DATA_PAGE].align4();
                        self.bind_label_with_page(DATA_PAGE, data_label);""",
      """                        self.bind_label_with_page(DATA_PAGE, data_label);
                        self[DATA_PAGE].align4();""")],
    "a 32-bit data item after a byte block whose size is not a multiple of 4",
    "its label is bound before the padding",
    '''
    let mut jit = JitMemory::new();
    let _b = jit.data(3);
    let a = jit.data_i32(0x01020304);
    jit.finalize();
    let p = jit.get_label_address(a).as_ptr();
    assert_eq!(peek::<u32>(p), 0x01020304);
''')

bug("c07-dedup", "C07",
    [(J, """        let label = self.label();
        let val = val as u32;
        self.data.push((DataType::U32(val), label));
        label""", """        // identical values share one slot
        let val = val as u32;
        if let Some((_, label)) = self
            .data
            .iter()
            .find(|(d, _)| matches!(d, DataType::U32(v) if *v == val))
        {
            return *label;
        }
        let label = self.label();
        self.data.push((DataType::U32(val), label));
        label""")],
    "two 32-bit data items with the same initial value in one round",
    "writable data items share one location",
    '''
    let mut jit = JitMemory::new();
    let a = jit.data_i32(7);
    let b = jit.data_i32(7);
    jit.finalize();
    assert!(jit.get_label_u64(a) != jit.get_label_u64(b));
''')

bug("c08-rerelocate", "C08",
    [(J, "for target in std::mem::take(&mut rel.target) {", "for target in rel.target.iter().cloned() {")],
    "a patched jump followed by another finalization",
    "every finalization fills all old references again, which undoes patches",
    '''
    let mut jit = JitMemory::new();
    let (f, p, a, b) = (jit.label(), jit.label(), jit.label(), jit.label());
    monoasm!(&mut jit,
    f: p: jmp a;
    a: movq rax, 1; ret;
    b: movq rax, 2; ret;
    );
    jit.finalize();
    jit.apply_jmp_patch(p, b);
    monoasm!(&mut jit, ret;);
    jit.finalize();
    let f: extern "C" fn(()) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(()), 2);
''')

bug("c08-constants-kept", "C08",
    [(J, "let constants = std::mem::take(&mut self[Page(id)].constants);",
      "let constants = if id == self.page.0 {\n                std::mem::take(&mut self[Page(id)].constants)\n            } else {\n                self[Page(id)].constants.clone()\n            };")],
    "constants pending on the page that is not selected, and another finalization later",
    "those constants are emitted again and their labels move",
    '''
    let mut jit = JitMemory::new();
    let c = jit.const_i64(5);
    jit.select_page(1);
    jit.finalize();
    let a = jit.get_label_u64(c);
    monoasm!(&mut jit, ret;);
    jit.finalize();
    assert_eq!(a, jit.get_label_u64(c));
''')

bug("c09-short-patch", "C09",
    [(J, """        let offset = jmp_dest - patch_point - 5;
        unsafe { *(patch_point.as_ptr().add(1) as *mut [u8; 4]) = (offset as i32).to_ne_bytes() };""",
      """        let offset = jmp_dest - patch_point - 5;
        let ptr = patch_point.as_ptr();
        if let Ok(short) = i8::try_from(offset + 3) {
            // JMP rel8
            unsafe { *(ptr as *mut [u8; 2]) = [0xeb, short as u8] };
            return;
        }
        unsafe { *(ptr.add(1) as *mut [u8; 4]) = (offset as i32).to_ne_bytes() };""")],
    "a patch to a near target followed by a patch to a far one",
    "the opcode is rewritten to a short jump; a later patch lands in the wrong place",
    '''
    let mut jit = JitMemory::new();
    let (f, a, b) = (jit.label(), jit.label(), jit.label());
    monoasm!(&mut jit,
    f: jmp a;
    a: movq rax, 1; ret;
    );
    jit.emit(&[0x90; 300]);
    monoasm!(&mut jit,
    b: movq rax, 2; ret;
    );
    jit.finalize();
    jit.apply_jmp_patch(f, a);
    assert_eq!(peek::<u8>(jit.get_label_address(f).as_ptr()), 0xe9);
''')

bug("c09-page-patch", "C09",
    [(J, """        let offset = jmp_dest - patch_point - 5;
        unsafe { *(patch_point.as_ptr().add(1) as *mut [u8; 4]) = (offset as i32).to_ne_bytes() };""",
      """        let offset = jmp_dest - patch_point - 5;
        let pos = (patch_point.as_ptr() as usize) & (PAGE_SIZE - 1);
        self.write32(Pos(pos + 1), offset as i32);""")],
    "patching a jump on the page that is not selected",
    "the displacement is written at the same offset of the selected page",
    '''
    let mut jit = JitMemory::new();
    let (f, a, b) = (jit.label(), jit.label(), jit.label());
    monoasm!(&mut jit,
    f: jmp a;
    a: movq rax, 1; ret;
    b: movq rax, 2; ret;
    );
    jit.select_page(1);
    monoasm!(&mut jit, ret; ret; ret; ret; ret; ret; ret;);
    jit.finalize();
    jit.apply_jmp_patch(f, b);
    let f: extern "C" fn(()) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(()), 2);
''')

bug("c10-u64-page", "C10",
    [(J, """    pub fn get_label_u64(&mut self, label: DestLabel) -> u64 {
        let (page, counter) = self.labels[label]
            .loc
            .expect("The DestLabel has no position binding.");
        let adr = self[page].contents();""", """    pub fn get_label_u64(&mut self, label: DestLabel) -> u64 {
        let (_page, counter) = self.labels[label]
            .loc
            .expect("The DestLabel has no position binding.");
        let adr = self.contents();""")],
    "get_label_u64 of a label on another page than the selected one",
    "the answer depends on the selected page",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!(&mut jit, f: ret;);
    jit.finalize();
    let a = jit.get_label_u64(f);
    jit.select_page(1);
    assert_eq!(a, jit.get_label_u64(f));
''')

bug("c10-const-page0", "C10",
    [(J, """        let label = self.label();
        let val = val as u64;
        self.constants.push((DataType::U64(val), label));
        label""", """        let label = self.label();
        let val = val as u64;
        self.pages[0].constants.push((DataType::U64(val), label));
        label""")],
    "const_i64 while page 1 is selected",
    "the constant is put on page 0",
    '''
    let mut jit = JitMemory::new();
    jit.select_page(1);
    let start = jit.get_current_address();
    let c = jit.const_i64(9);
    jit.finalize();
    let d = jit.get_label_address(c) - start;
    assert!(d >= 0 && d < 4096, "{d}");
''')

bug("c11-dq-precision", "C11",
    [(I, """                        let i = input.parse::<LitInt>()?.base10_parse()?;
                        input.parse::<Token![;]>()?;
                        Ok(Inst::I64(i))""", """                        let i = input.parse::<LitInt>()?.base10_parse::<f64>()? as i64;
                        input.parse::<Token![;]>()?;
                        Ok(Inst::I64(i))""")],
    "an embedded integer above 2^53",
    "low bits of the embedded constant are lost",
    '''
    let mut jit = JitMemory::new();
    let start = jit.get_current_address().as_ptr();
    monoasm!(&mut jit, dq 9007199254740993;);
    assert_eq!(peek::<u64>(start), 9007199254740993);
''')

bug("c11-case", "C11",
    [(P, "string.make_ascii_lowercase();", "if string.chars().all(|c| !c.is_ascii_lowercase()) {\n            string.make_ascii_lowercase();\n        }")],
    "a register name in mixed case such as Rax",
    "mixed-case names are no longer registers",
    '''
    let mut jit = JitMemory::new();
    monoasm!(&mut jit, movq Rax, rBx;);
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x48, 0x89, 0xd8]);
''')

bug("c12-twice", "C12",
    [(A, """        (RmOperand::Reg(expr), RmiOperand::Imm(i)) => {
            quote!(
                let imm = (#i) as i64;
                if let Ok(imm) = i16::try_from(imm) {""", """        (RmOperand::Reg(expr), RmiOperand::Imm(i)) => {
            quote!(
                let imm = (#i) as i64;
                if let Ok(imm) = i16::try_from((#i) as i64) {""")],
    "movw of an immediate expression with a side effect",
    "the expression is evaluated twice",
    '''
    let mut jit = JitMemory::new();
    let mut n = 0i64;
    monoasm!(&mut jit, movw rax, ({ n += 1; n });); 
    assert_eq!(n, 1);
''')

bug("c12-capture", "C12",
    [(A, """                // Shl r/m32, imm8
                // REX C1 /4 ib
                quote! {
                    let imm = (#i) as i64;
                    if imm == 1 {
                        jit.enc_digit(&[0xd1], #op1, #digit);
                    } else if let Ok(imm) = i8::try_from(imm) {
                        jit.enc_digit_imm(&[0xc1], #op1, #digit, Imm::B(imm));
""", """                // Shl r/m32, imm8
                // REX C1 /4 ib
                let imm = proc_macro2::Ident::new("imm", proc_macro2::Span::call_site());
                quote! {
                    let #imm = (#i) as i64;
                    if #imm == 1 {
                        jit.enc_digit(&[0xd1], #op1, #digit);
                    } else if let Ok(#imm) = i8::try_from(#imm) {
                        jit.enc_digit_imm(&[0xc1], #op1, #digit, Imm::B(#imm));
""")],
    "a 32-bit shift by an immediate whose memory operand uses a caller's variable named imm",
    "the expansion's own variable captures the caller's",
    '''
    let mut jit = JitMemory::new();
    let imm = 64;
    monoasm!(&mut jit, shll [rax + (imm)], 3;);
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0xc1, 0x60, 64, 3]);
''')

bug("c13-push-rip", "C13",
    [(J, """    pub fn enc_o(&mut self, op: u8, reg: Reg) {
        assert!(!reg.is_rip());
""", """    pub fn enc_o(&mut self, op: u8, reg: Reg) {
""")],
    "pushq rip or popq rip",
    "assembles to push rax instead of being refused",
    '''
    let mut jit = JitMemory::new();
    assert!(!ok(|| monoasm!(&mut jit, pushq rip;)));
''')

bug("c13-cl", "C13",
    [(L, "self == &Self::rcx()", "self.0 & 0b111 == 1")],
    "a shift count register r9",
    "r9 is taken for cl",
    '''
    let mut jit = JitMemory::new();
    assert!(!ok(|| monoasm!(&mut jit, shlq rax, r9;)));
''')

bug("c13-page", "C13",
    [(J, "assert!(page < 2);", "assert!(page < 3);")],
    "selecting page 2",
    "the data area is accepted as a code page",
    '''
    let mut jit = JitMemory::new();
    assert!(!ok(|| jit.select_page(2)));
''')

bug("c13-rip-index", "C13",
    [(L, '_ => unimplemented!("scale index is not allowed for RIP."),',
      'Mode::Ind(_, Disp::D8(d)) => d as i32,\n            Mode::Ind(_, Disp::D32(d)) => d,\n            _ => 0,')],
    "an index register on a rip-relative operand",
    "the index is dropped silently",
    '''
    let mut jit = JitMemory::new();
    assert!(!ok(|| monoasm!(&mut jit, movq rax, [rip + rcx * 2 + 8];)));
''')

bug("c14-nop-fold", "C14",
    [(J, "                                Ok(disp) => self[page].write32(pos, disp),",
      """                                // A branch to the next instruction does nothing.
                                Ok(0) if offset == 4 && pos.0 > 0 && self[page][pos + -1] & 0xfe == 0xe8 => {
                                    self[page][pos + -1] = 0x0f;
                                    self[page].write32(pos, 0x0000_441f);
                                }
                                Ok(disp) => self[page].write32(pos, disp),""")],
    "a call whose target is the instruction right after it",
    "the call is folded into a nop, so the callee returns to the wrong place",
    '''
    let mut jit = JitMemory::new();
    let (f, g) = (jit.label(), jit.label());
    monoasm!(&mut jit,
    f:
        movq rax, 0;
        call g;
    g:
        addq rax, 1;
        ret;
    );
    jit.finalize();
    let f: extern "C" fn(()) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(()), 2);
''')

bug("c14-leave-movsx", "C14",
    [(A, "Inst::Movsxw(op1, op2) => quote!( jit.enc_rexw_mr(&[0x0f, 0xbf], #op1, #op2); ),",
      "Inst::Movsxw(op1, op2) => quote!( jit.enc_mr(&[0x0f, 0xbf], #op1, #op2); ),")],
    "movsxw of a negative value whose upper half is used",
    "the result is only sign-extended to 32 bits",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!(&mut jit, f: movsxw rax, rdi; ret;);
    jit.finalize();
    let f: extern "C" fn(u64) -> i64 = jit.get_label_addr(f);
    assert_eq!((f(5), f(0xffff)), (5, -1));
''')

bug("c15-off-by-one", "C15",
    [(J, """impl IndexMut<Pos> for MemPage {
    fn index_mut(&mut self, index: Pos) -> &mut u8 {
        if index.0 >= PAGE_SIZE {""", """impl IndexMut<Pos> for MemPage {
    fn index_mut(&mut self, index: Pos) -> &mut u8 {
        if index.0 > PAGE_SIZE {""")],
    "emission of a byte exactly at the end of a page",
    "the first byte of the next page is overwritten",
    '''
    let mut jit = JitMemory::new();
    jit.select_page(1);
    jit.emitb(0xc3);
    let p = jit.get_current_address();
    jit.select_page(0);
    for _ in 0..(256 << 20) / 4096 {
        jit.emitb(0);
        jit.align_page();
    }
    assert!(!ok(|| jit.emitb(0x55)));
    assert_eq!(peek::<u8>((p.as_ptr() as usize - 1) as *const u8), 0xc3);
''')

bug("c15-emit-bulk", "C15",
    [(J, "        slice.iter().for_each(|b| self.emitb(*b));", """        if slice.is_empty() {
            return;
        }
        let c = self.counter;
        let top: *mut u8 = &mut self[c];
        unsafe { std::ptr::copy_nonoverlapping(slice.as_ptr(), top, slice.len()) };
        self.counter = Pos(c.0 + slice.len());""")],
    "a byte slice that starts before and ends after the end of a page",
    "only the first byte is checked against the page size; the rest lands on the next page",
    '''
    let mut jit = JitMemory::new();
    jit.select_page(1);
    jit.emit(&[0xc3; 16]);
    let p = jit.get_current_address();
    jit.select_page(0);
    for _ in 0..(256 << 20) / 4096 {
        jit.emitb(0);
        if jit.get_current() / 4096 + 1 < (256 << 20) / 4096 { jit.align_page(); }
    }
    jit.emit(&[0x11; 4000]);
    while jit.get_current() % 4096 < 4090 { jit.emitb(1) }
    assert!(!ok(|| jit.emit(&[0x55; 8])));
    assert_eq!(peek::<u64>((p.as_ptr() as usize - 16) as *const u8), 0xc3c3c3c3c3c3c3c3);
''')

bug("c15-bytes-skip", "C15",
    [(J, """                        self[Page(id)].align16();
                        self.bind_label_with_page(Page(id), const_label);
                        for _ in 0..size {
                            self[Page(id)].emitb(0);
                        }""", """                        self[Page(id)].align16();
                        self.bind_label_with_page(Page(id), const_label);
                        // fresh memory is zero already
                        let c = self[Page(id)].counter;
                        self[Page(id)].counter = Pos(c.0 + size);""")],
    "a zero-filled constant block that goes beyond the end of its page",
    "the block is accepted although it overlaps the next page",
    '''
    let mut jit = JitMemory::new();
    jit.constant(257 << 20);
    assert!(!ok(|| jit.finalize()));
''')

bug("c16-drop", "C16",
    [(J, """impl std::default::Default for JitMemory {""", """impl Drop for JitMemory {
    fn drop(&mut self) {
        let layout = Layout::from_size_align(PAGE_SIZE * 3, PAGE_SIZE).expect("Bad Layout.");
        unsafe { std::alloc::dealloc(self.pages[0].contents(), layout) };
    }
}

impl std::default::Default for JitMemory {""")],
    "calling a generated function after its JitMemory was dropped",
    "the code memory is released",
    '''
    let f = {
        let mut jit = JitMemory::new();
        let f = jit.label();
        monoasm!(&mut jit, f: movq rax, 7; ret;);
        jit.finalize();
        let f: extern "C" fn(()) -> u64 = jit.get_label_addr(f);
        f
    };
    assert_eq!(f(()), 7);
''')

bug("c16-data-exec", "C16",
    [(J, """            protect(
                contents.add(PAGE_SIZE * 2),
                PAGE_SIZE,
                Protection::READ_WRITE,
            )""", """            protect(
                contents.add(PAGE_SIZE * 2),
                PAGE_SIZE,
                Protection::READ_WRITE_EXECUTE,
            )""")],
    "a look at the protection of the data area",
    "the data area is executable",
    '''
    let mut jit = JitMemory::new();
    let d = jit.data_i64(1);
    jit.finalize();
    let a = jit.get_label_u64(d);
    let m = std::fs::read_to_string("/proc/self/maps").unwrap();
    let l = m.lines().find(|l| {
        let (r, _) = l.split_once(' ').unwrap();
        let (s, e) = r.split_once('-').unwrap();
        u64::from_str_radix(s, 16).unwrap() <= a && a < u64::from_str_radix(e, 16).unwrap()
    }).unwrap();
    assert!(l.contains("rw-p"), "{l}");
''')

bug("c16-half-exec", "C16",
    [(J, "protect(contents, PAGE_SIZE * 2, Protection::READ_WRITE_EXECUTE)",
      "protect(contents, PAGE_SIZE + PAGE_SIZE / 2, Protection::READ_WRITE_EXECUTE)")],
    "code in the upper half of the second page",
    "that part of the page is not executable",
    '''
    let mut jit = JitMemory::new();
    jit.select_page(1);
    let a = jit.get_current_address().as_ptr() as u64 + (200 << 20);
    let m = std::fs::read_to_string("/proc/self/maps").unwrap();
    let l = m.lines().find(|l| {
        let (r, _) = l.split_once(' ').unwrap();
        let (s, e) = r.split_once('-').unwrap();
        u64::from_str_radix(s, 16).unwrap() <= a && a < u64::from_str_radix(e, 16).unwrap()
    }).unwrap();
    assert!(l.contains("rwxp"), "{l}");
''')

bug("c17-code-len", "C17",
    [(J, """            page.code_len = page.counter.0;
            page.code_block.push""", """            if code_end != start_pos {
                page.code_len = code_end.0 - page.code_block.first().map_or(0, |b| b.0 .0);
            }
            page.code_block.push""")],
    "a round that adds only constants to a page, or none, followed by another round",
    "the code slice is not brought up to date in rounds without new code",
    '''
    let mut jit = JitMemory::new();
    monoasm!(&mut jit, ret;);
    jit.const_i64(-1);
    jit.finalize();
    jit.finalize();
    assert_eq!(jit.as_slice().len(), 24);
''')

bug("c17-block-end", "C17",
    [(J, """        for page in &mut self.pages {
            page.code_block.last_mut().unwrap().2 = page.counter;
        }
        self.fill_relocs();""", """        let page = &mut self.pages[self.page.0];
        page.code_block.last_mut().unwrap().2 = page.counter;
        self.fill_relocs();""")],
    "constants on the page that is not selected at finalization",
    "the end of the recorded block of that page is not set",
    '''
    let mut jit = JitMemory::new();
    monoasm!(&mut jit, ret;);
    jit.select_page(1);
    jit.finalize();
    jit.select_page(0);
    assert_eq!(jit.code_block[0].2, Pos::from(1));
''')

bug("c17-dump-filter", "C17",
    [(J, """                        s.len() > 1
                            && !s.contains("file format binary")""", """                        s.len() > 1
                            && !s.contains("...")
                            && !s.contains("data16")
                            && !s.contains("file format binary")""")],
    "an instruction with a redundant 0x66 prefix",
    "its line is missing from the dump",
    '''
    let mut jit = JitMemory::new();
    jit.emit(&[0x66, 0x66, 0x90]);
    monoasm!(&mut jit, ret;);
    jit.finalize();
    let d = jit.dump_code().unwrap();
    assert_eq!(d.lines().count(), 2, "{d}");
''')

bug("c18-align4", "C18",
    [(J, "self.counter = Pos((self.counter.0 + 3) & !0b11);", "self.counter = Pos((self.counter.0 & !0b11) + 4 * usize::from(self.counter.0 & 0b10 != 0 || self.counter.0 & 1 != 0 && self.counter.0 & 0b100 == 0));")],
    "align4 at a position that is 5 modulo 8",
    "the position moves backward over emitted bytes",
    '''
    let mut jit = JitMemory::new();
    jit.emit(&[1, 2, 3, 4, 5]);
    jit.align4();
    assert_eq!(jit.get_current(), 8);
''')

bug("c18-emit-const", "C18",
    [(A, "quote!( jit.emit(&#f.to_ne_bytes()); )", "{\n                let f = f as f32 as f64;\n                quote!( jit.emit(&#f.to_ne_bytes()); )\n            }")],
    "an embedded float that is not exact in single precision",
    "the stored bits are rounded",
    '''
    let mut jit = JitMemory::new();
    let start = jit.get_current_address().as_ptr();
    monoasm!(&mut jit, dq 0.1;);
    assert_eq!(peek::<u64>(start), 0.1f64.to_bits());
''')

bug("c06-page-cross", "C06",
    [(J, """        let val = val as u32;
        self[loc] = val as u8;
        self[loc + 1] = (val >> 8) as u8;
        self[loc + 2] = (val >> 16) as u8;
        self[loc + 3] = (val >> 24) as u8;
    }

    /// Write 64bit""", """        let val = val as u32;
        let line = loc.0 & !4095;
        for (i, b) in val.to_le_bytes().into_iter().enumerate() {
            let at = loc.0 + i;
            let at = if at & !4095 == line || at & 4095 != 2 { at } else { at - 1 };
            self[Pos(at)] = b;
        }
    }

    /// Write 64bit""")],
    "a reference whose 32-bit slot begins one byte before a 4 KiB boundary",
    "its last byte is stored in the wrong place",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    jit.bind_label(f);
    jit.emit(&vec![0x90; 4094]);
    monoasm!(&mut jit, jmp f;);
    jit.finalize();
    assert_eq!(&jit.as_slice()[4094..], &[0xe9, 0xfd, 0xef, 0xff, 0xff]);
''')

bug("c06-forget-late", "C06",
    [(J, """        for rel in reloc.iter_mut() {
            if let Some((src_page, src_pos)) = rel.loc {""", """        let rounds = self.code_block.len();
        for rel in reloc.iter_mut() {
            if rel.loc.is_none() && rounds % 8 == 7 && rel.target.len() == 1 {
                rel.target.clear();
            }
            if let Some((src_page, src_pos)) = rel.loc {""")],
    "a label with one reference that is still unbound at the seventh finalization",
    "the reference is forgotten and never filled in",
    '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm!(&mut jit, jmp f;);
    for _ in 0..10 {
        jit.finalize();
    }
    jit.emitb(0x90);
    monoasm!(&mut jit, f: ret;);
    jit.finalize();
    assert_eq!(&jit.as_slice()[..5], &[0xe9, 1, 0, 0, 0]);
''')

bug("c07-data-tail", "C07",
    [(J, """                    DataType::U32(val) => {
                        self[DATA_PAGE].align4();""", """                    DataType::U32(val) => {
                        if self[DATA_PAGE].counter.0 & 0xfff != 0xffd {
                            self[DATA_PAGE].align4();
                        }""")],
    "a 32-bit data item that follows a block ending three bytes before a 4 KiB boundary",
    "it is not aligned",
    '''
    let mut jit = JitMemory::new();
    let _a = jit.data(0xffd);
    let b = jit.data_i32(5);
    jit.finalize();
    assert_eq!(jit.get_label_u64(b) % 4, 0);
''')

bug("c08-round-255", "C08",
    [(J, """        for page in &mut self.pages {
            page.code_block_top = page.counter;
        }""", """        for page in &mut self.pages {
            if page.code_block.len() & 0xff != 0xff {
                page.code_block_top = page.counter;
            } else {
                page.counter = page.code_block_top;
            }
        }""")],
    "255 finalizations of one code memory",
    "the code of the last round is overwritten by the next",
    '''
    let mut jit = JitMemory::new();
    for _ in 0..254 {
        jit.finalize();
    }
    monoasm!(&mut jit, ret;);
    jit.finalize();
    assert_eq!(jit.get_current(), 1);
''')

bug("c09-line", "C09",
    [(J, """        unsafe { *(patch_point.as_ptr().add(1) as *mut [u8; 4]) = (offset as i32).to_ne_bytes() };""", """        let slot = unsafe { patch_point.as_ptr().add(1) };
        let len = 64 - (slot as usize & 63);
        for (i, b) in (offset as i32).to_ne_bytes().iter().enumerate().take(len.max(3)) {
            unsafe { *slot.add(i) = *b };
        }""")],
    "a jump whose displacement crosses a cache line, patched to a target in the other direction or on the other page",
    "the last byte of the displacement keeps its old value",
    '''
    let mut jit = JitMemory::new();
    let (a, j, b) = (jit.label(), jit.label(), jit.label());
    jit.bind_label(a);
    jit.emit(&[0x90; 60]);
    monoasm!(&mut jit, j: jmp a; b: ret;);
    jit.finalize();
    jit.apply_jmp_patch(j, b);
    assert_eq!(&jit.as_slice()[60..65], &[0xe9, 0, 0, 0, 0]);
''')

bug("c10-same-pos", "C10",
    [(J, """        let page = self.page;
        self.labels[label].loc = Some((page, self.counter));""", """        let mut page = self.page;
        if self.pages[1 - page.0].counter.0 == self.counter.0 && self.counter.0 > 64 {
            page = Page(0);
        }
        self.labels[label].loc = Some((page, self.counter));""")],
    "a label bound on page 1 at a position beyond 64 that happens to be the position of page 0 too",
    "the label lies on page 0",
    '''
    let mut jit = JitMemory::new();
    jit.emit(&[0x90; 70]);
    jit.select_page(1);
    jit.emit(&[0x90; 70]);
    let l = jit.label();
    jit.bind_label(l);
    assert!(jit.get_label_address(l) - jit.get_current_address() == 0);
''')

bug("c16-pool", "C16",
    [(J, """impl std::default::Default for JitMemory {""", """static FREE: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(vec![]);

impl Drop for JitMemory {
    fn drop(&mut self) {
        FREE.lock().unwrap().push(self.pages[0].contents);
    }
}

impl std::default::Default for JitMemory {"""), (J, """        let contents = unsafe { alloc(layout) };
""", """        let free = {
            let mut free = FREE.lock().unwrap();
            (free.len() > 64).then(|| free.remove(0))
        };
        let contents = match free {
            Some(p) => p as *mut u8,
            None => unsafe { alloc(layout) },
        };
""")],
    "more than 64 code memories dropped before another one is created",
    "the new one takes over the memory of the first, whose functions change",
    '''
    let mut fs = vec![];
    for i in 0..70u64 {
        let mut jit = JitMemory::new();
        let f = jit.label();
        monoasm!(&mut jit, f: movq rax, (i); ret;);
        jit.finalize();
        let f: extern "C" fn(()) -> u64 = jit.get_label_addr(f);
        fs.push(f);
    }
    for (i, f) in fs.iter().enumerate() {
        assert_eq!(f(()), i as u64);
    }
''')

bug("c17-merge", "C17",
    [(J, """            page.code_block.push((start_pos, code_end, Pos(0)));""", """            match page.code_block.last().copied() {
                Some((s, e, t)) if s.0 == e.0 && e.0 == t.0 && start_pos.0 == t.0 && page.code_block.len() > 4 => {
                    page.code_block.pop();
                }
                _ => {}
            }
            page.code_block.push((start_pos, code_end, Pos(0)));""")],
    "more than four rounds of which the last but one was empty",
    "the record of the empty round is replaced",
    '''
    let mut jit = JitMemory::new();
    for _ in 0..6 {
        jit.finalize();
    }
    assert_eq!(jit.code_block.len(), 6);
''')

bug("c18-far-align", "C18",
    [(J, "self.counter = Pos((self.counter.0 + 15) & !0b1111);", "self.counter = Pos((self.counter.0 + 15) & 0x07ff_fff0 | self.counter.0 & !0x07ff_ffff);")],
    "align16 within the last bytes before 128 MiB",
    "the position falls back to the start of the page",
    '''
    let mut jit = JitMemory::new();
    while jit.get_current() < 0x07ff_f000 {
        jit.emitb(0x90);
        jit.align_page();
    }
    jit.emit(&[0x90; 0xff5]);
    jit.align16();
    assert_eq!(jit.get_current(), 0x0800_0000);
''')
