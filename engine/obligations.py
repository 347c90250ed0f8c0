"""Which obligations decide which property."""
from vp import Job, coq_lemmas, TIER

JOBS = {}
INFO = {}

ERR = ("--replace-calls", "error:vp_error")
MEMSAFE = ("--bounds-check", "--pointer-check")
REGOPS = "add sub bit_and bit_or bit_xor lshift rshift eq neq lt leq gt geq negate bit_not log_not assign load_constant address_of global_address_of".split()
MEMOPS = "load global_load store global_store read1 read4 write1 write4".split()
CTRL = "jump branch call indirect".split()


def ops(arch):
    A = "ARM" if arch == "arm" else "RV"
    js = []
    def J(o, *d, **k):
        js.append(Job("%s.%s" % (arch, k.pop("name", o)), "ops.c", "ob_" + o, arch=arch, defs=(A,) + d, unwind=k.pop("unwind", 34),
                      functions=["emit_ph2_ir[%s]" % o, "elf_write_code_int", "elf_write_int", "e_extract_byte"] , instrument=ERR, timeout=300, **k))
    for o in REGOPS:
        J(o, "REGOPS")
    J("div", "REGOPS", "HARD", name="div-hardware")
    J("mod", "REGOPS", "HARD", name="mod-hardware")
    J("mul", "REGOPS", "HARD", name="mul-hardware")
    for o in MEMOPS:
        J(o)
    return js


def ctrl(arch):
    A = "ARM" if arch == "arm" else "RV"
    js = []
    for o in CTRL + ["load_data_address"]:
        js.append(Job("%s.%s" % (arch, o), "ops.c", "ob_" + o, arch=arch, defs=(A, "REGOPS"), unwind=34, functions=["emit_ph2_ir[%s]" % o], instrument=ERR, timeout=300))
    js.append(Job("%s.address_of_func" % arch, "ops.c", "ob_address_of_func", arch=arch, defs=(A,), unwind=34, functions=["emit_ph2_ir[address_of_func]"], instrument=ERR, timeout=300))
    js.append(Job("%s.frame_discipline" % arch, "ops.c", "ob_frame_discipline", arch=arch, defs=(A, "MEMLOG=12"), unwind=34, functions=["emit_ph2_ir[define,return]"], instrument=ERR, timeout=300))
    return js


def data(arch):
    A = "ARM" if arch == "arm" else "RV"
    return [Job("%s.load_data_address" % arch, "ops.c", "ob_load_data_address", arch=arch, defs=(A, "REGOPS"), unwind=34, functions=["emit_ph2_ir[load_data_address]"], instrument=ERR, timeout=300)]


JOBS["C01"] = ops("arm") + data("arm")
JOBS["C02"] = ops("riscv") + data("riscv")
JOBS["C04"] = ctrl("arm") + ctrl("riscv")

ALLRD = ("ALLRD",) if TIER == "thorough" else ()

def emul(arch):
    A = "ARM" if arch == "arm" else "RV"
    js = []
    FS = ("--max-field-sensitivity-array-size", "300")
    for rn in range(8):
        step = 2 if arch == "arm" else 4
        for rm in range(0, 8, step):
            top = rm + step - 1
            js.append(Job("%s.divmod.%d.%d" % (arch, rn, rm), "emul.c", "ob_divmod", arch=arch,
                          defs=(A, *ALLRD, "RN=%d" % rn, "RM0=%d" % rm, "RM1=%d" % top), unwind=66, cbmc=FS, explore_entry="ob_run_divmod",
                          functions=["emit_ph2_ir[div,mod software]"], instrument=ERR, timeout=400))
        if arch == "riscv":
            js.append(Job("riscv.mul.%d" % rn, "emul.c", "ob_mul", arch=arch, defs=(A, *ALLRD, "RN=%d" % rn), unwind=66, cbmc=FS, explore_entry="ob_run_mul",
                          functions=["emit_ph2_ir[mul software]"], instrument=ERR, timeout=400))
    return js
JOBS["C03"] = emul("arm") + emul("riscv")
INFO["C03"] = {"extra": [coq_lemmas("lemmas.euclid", ["euclid.v"])]}


SIZEOPS = """load_constant address_of global_address_of assign load global_load store global_store read write jump call load_func indirect
add sub mul lshift rshift bit_and bit_or bit_xor negate bit_not div mod load_data_address address_of_func eq neq gt lt geq leq log_not branch return""".split()


STUBS = ERR + ("--replace-calls", "find_func:vp_find_func", "--replace-calls", "add_ph2_ir:vp_add_ph2_ir")


def layout(arch):
    A = "ARM" if arch == "arm" else "RV"
    js = [Job("%s.size.define" % arch, "layout.c", "ob_size_define", arch=arch, defs=(A, "SIZES", "OPC=OP_define"), unwind=34, functions=["emit_ph2_ir[define]"], instrument=STUBS, timeout=200)]
    js += [Job("%s.size.%s" % (arch, o), "layout.c", "ob_size", arch=arch, defs=(A, "SIZES", "OPC=OP_" + o), unwind=34, functions=["update_elf_offset[%s]" % o, "emit_ph2_ir[%s]" % o],
              instrument=STUBS, timeout=200) for o in SIZEOPS]
    js.append(Job(arch + ".positions", "layout.c", "ob_positions", arch=arch, defs=(A,), unwind=34, functions=["cfg_flatten", "code_generate"], instrument=STUBS + ("--replace-calls", "elf_write_code_int:vp_emit4", "--replace-calls", "update_elf_offset:vp_update", "--replace-calls", "emit_ph2_ir:vp_emit_op"), timeout=300,
                  kind="bounded", bound="two functions, four blocks, one operation of every size-varying kind with arbitrary operands"))
    js.append(Job(arch + ".startup", "layout.c", "ob_startup", arch=arch, defs=(A,), unwind=40, functions=["code_generate[start,exit]", "cfg_flatten"], instrument=STUBS, timeout=300, cbmc=("--max-field-sensitivity-array-size", "1100")))
    js.append(Job(arch + ".syscall", "layout.c", "ob_syscall", arch=arch, defs=(A,), unwind=40, functions=["code_generate[syscall]", "cfg_flatten"], instrument=STUBS, timeout=300, cbmc=("--max-field-sensitivity-array-size", "1100")))
    return js


JOBS["C05"] = layout("arm") + layout("riscv")


def elfjobs(arch):
    js = []
    js.append(Job(arch + ".fields", "elfout.c", "ob_fields", arch=arch, unwind=50, functions=["elf_align", "elf_generate_header", "elf_generate_sections", "elf_write_header_int", "elf_write_section_int", "elf_write_section_str"],
                  instrument=ERR, timeout=200, checks=MEMSAFE, cbmc=("--max-field-sensitivity-array-size", "2100")))
    for c, d in ((20, 13), (0, 0), (4, 6), (8, 3)):
        js.append(Job(arch + ".file.%d.%d" % (c, d), "elfout.c", "ob_file", arch=arch, defs=("CSIZE=%d" % c, "DSIZE=%d" % d), unwind=300, functions=["elf_generate"], instrument=ERR, timeout=200, checks=MEMSAFE,
                  kind="bounded", bound="%d code bytes, %d data bytes, any content" % (c, d), cbmc=("--max-field-sensitivity-array-size", "2100")))
    return js


JOBS["C06"] = elfjobs("arm") + elfjobs("riscv") + [
    Job("write_int", "elfout.c", "ob_write_int", unwind=70, functions=["elf_write_int", "e_extract_byte", "elf_write_code_int"], instrument=ERR, checks=MEMSAFE),
    Job("write_data", "elfout.c", "ob_write_data", unwind=70, functions=["elf_write_data_str"], instrument=ERR, checks=MEMSAFE, kind="bounded", bound="strings up to 12 bytes")]


BINOPS = "add sub mul div mod lshift rshift log_and log_or eq neq lt leq gt geq bit_or bit_and bit_xor".split()
TOKS = sum((("--replace-calls", x) for x in ("get_operator:vp_get_operator", "read_constant_expr_operand:vp_operand", "read_primary_constant:vp_primary",
           "find_global_var:vp_find_global", "add_global_ir:vp_add_gir", "require_var:vp_require", "gen_name:vp_gen", "opstack_pop:vp_pop", "add_insn:vp_add_insn")), ())


def consts():
    js = []
    def J(n, entry, *defs, **k):
        k.setdefault("unwind", 8)
        D = dict(NOPS=1, VMAX=1, OPC="OP_add", OP0=0, SMALL=1)
        ds = tuple(defs) + tuple("%s=%s" % kv for kv in D.items() if not any(d.startswith(kv[0] + "=") for d in defs))
        js.append(Job(n, "consts.c", entry, defs=ds, instrument=ERR + k.pop("inst", ()), checks=MEMSAFE + ("--div-by-zero-check",), **k))
    F = ["eval_const_arithmetic", "is_address_taken"]
    for o in BINOPS + ["ternary", "read", "negate"]:
        if o in ("div", "mod"):
            J("fold." + o, "ob_fold_binary", "OPC=OP_" + o, "FOLD_A=IN_RANGE(-512,511)", "FOLD_B=IN_RANGE(-512,511)", functions=F, kind="bounded", bound="operands -512..511")
            for i, b in enumerate(("(-2147483647-1)", -65536, -10, -7, -3, -2, -1, 0, 1, 2, 3, 7, 10, 2147483647)):
                J("fold.%s.by%d" % (o, i), "ob_fold_binary", "OPC=OP_" + o, "FOLD_A=IN()", "FOLD_B=%s" % b, functions=F, kind="bounded", bound="divisor %s, any dividend" % b)
        else:
            J("fold." + o, "ob_fold_binary", "OPC=OP_" + o, functions=F, cbmc=("--sat-solver", "cadical") if o == "mul" else ())
    J("mark_const", "ob_mark_const", functions=["mark_const", "is_address_taken"])
    for o in BINOPS[:15]:
        J("imm." + o, "ob_imm", "OPC=OP_" + o, functions=["eval_expression_imm"], backend="z3" if o in ("mul", "div", "mod") else "sat")
    J("imm.zero", "ob_imm_zero", functions=["eval_expression_imm"])
    for entry, n, nops, fns in (("ob_if", "if", 18, ["read_constant_expr", "read_constant_infix_expr", "get_operator_prio", "get_unary_operator_prio"]),
                           ("ob_global", "global", 15, ["read_global_assignment", "get_operator_prio", "eval_expression_imm"])):
        for o in range(nops):
            small = 7 if BINOPS_ORDER[o] in ("div", "mod", "mul") else 7
            J("%s.%s" % (n, BINOPS_ORDER[o]), entry, "NV=3", "OP0=%d" % o, "NOPS=%d" % nops, "VMAX=0x7fffffff", "SMALL=%d" % small, inst=TOKS, kind="bounded", unwind=nops * 2 + 4,
              bound="three operands with optional signs, every second operator; operand values 31 bits, up to %d beside a multiplication or division" % small, functions=fns, timeout=300)
        J("%s.one" % n, entry, "NV=1", "VMAX=0x7fffffff", inst=TOKS, kind="bounded", unwind=8, bound="single operand with optional sign", functions=fns)
    return js


BINOPS_ORDER = "add sub lt eq rshift log_and log_or lshift gt neq leq geq mul div mod bit_and bit_or bit_xor".split()
JOBS["C07"] = consts()


BBADD = ERR + ("--replace-calls", "bb_add_ph2_ir:vp_bb_add")


SPILL, LOAD = (("--replace-calls", "%s:vp_%s" % (f, f)) for f in ("spill_var", "load_var"))


def regs():
    js = []
    def J(n, entry, fns, inst=(), k=None, **kw):
        js.append(Job("alloc." + n, "regs.c", "ob_" + entry, unwind=11, defs=() if k is None else ("K=%d" % k,), functions=fns, instrument=BBADD + tuple(inst), checks=MEMSAFE,
                      timeout=300, cbmc=("--max-field-sensitivity-array-size", "200"), **kw))
    for k in range(8):
        J("spill_var.r%d" % k, "spill_var", ["spill_var"], k=k)
    for k in range(10):
        J("load_var.v%d" % k, "load_var", ["load_var"], k=k)
        J("operand.v%d" % k, "operand", ["prepare_operand", "find_in_regs", "check_live_out"], SPILL + LOAD, k=k)
        J("dest.v%d" % k, "dest", ["prepare_dest", "find_in_regs", "check_live_out"], SPILL, k=k)
    J("spill_alive", "spill_alive", ["spill_alive", "check_live_out"], SPILL)
    J("spill_live_out", "spill_live_out", ["spill_live_out", "check_live_out", "var_check_killed"], SPILL)
    J("refresh", "refresh", ["refresh", "check_live_out"])
    js.append(Job("align", "regs.c", "ob_align", unwind=4, functions=["align_size"], instrument=BBADD))
    return js


JOBS["C09"] = regs()
