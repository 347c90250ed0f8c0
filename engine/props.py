prop("C01", "ARM code for every data operation computes the C result",
     "For every data operation the compiler can emit for ARM (addition, subtraction, multiplication, hardware division and remainder, bitwise, shift, comparison, negation, logical not, move, constant, address formation, 1- and 4-byte loads and stores), executing the emitted machine words under the ARMv7-A architecture leaves in the destination register exactly the value that 32-bit C arithmetic gives for the source registers, immediate or memory operand. This holds for every register assignment including aliased ones, every register content, every constant, and every stack or global offset. Nothing else changes: no other allocatable register, no stack or global pointer, and no byte of memory outside the stored location.",
     ["inputs", "programs"], "every operation x every register assignment x every 32-bit register content / immediate / frame offset",
     "The suite runs a few hundred programs under qemu; each exercises a handful of registers and small constants, while encodings change at 8-bit, 12-bit and 16-bit immediate boundaries and with aliased registers.",
     ["src/arm-codegen.c", "src/arm.c", "src/elf.c"],
     [("emit_ph2_ir", "src/arm-codegen.c"), ("instruction encoders", "src/arm.c"), ("little-endian emission", "src/elf.c: elf_write_code_int")],
     "Loop-free harnesses over full-domain symbolic registers, immediates and memory: each emitted word is executed under an independently written ARMv7-A specification; product and quotient of the architectural mul/sdiv are uninterpreted functions. Register numbers are symbolic or enumerated. Frame offsets up to the ranges stated in DESIGN.md.")
prop("C02", "RISC-V code for every data operation computes the C result",
     "For every data operation the compiler can emit for RISC-V (addition, subtraction, multiplication, hardware division and remainder, bitwise, shift, comparison, negation, logical not, move, constant, address formation, 1- and 4-byte loads and stores), executing the emitted machine words under the RV32IM architecture leaves in the destination register exactly the value that 32-bit C arithmetic gives for the source registers, immediate or memory operand. This holds for every register assignment including aliased ones, every register content, every constant, and every stack or global offset. Nothing else changes: no other allocatable register, no stack or global pointer, and no byte of memory outside the stored location.",
     ["inputs", "programs"], "every operation x every register assignment x every 32-bit register content / immediate / frame offset",
     "The suite runs sample programs under qemu; immediates switch encoding at +-2048 with sign-extended low parts, and aliasing and large frames are hardly exercised.",
     ["src/riscv-codegen.c", "src/riscv.c", "src/elf.c"],
     [("emit_ph2_ir", "src/riscv-codegen.c"), ("instruction encoders", "src/riscv.c"), ("little-endian emission", "src/elf.c: elf_write_code_int")],
     "As C01, against an independently written RV32IM specification.")
prop("C03", "Software division, remainder and multiplication are exact",
     "When the target is assumed to have no hardware support, the instruction sequences emitted for signed division, signed remainder (ARM and RISC-V) and multiplication (RISC-V) terminate and deliver exactly C's truncated quotient, remainder with the sign of the dividend, and 32-bit product for every pair of operands whose C result is defined. This holds for every assignment of operand and destination registers, including the same register used twice. Operand registers other than the destination, the other live registers, the stack pointer and memory above it keep their values.",
     ["inputs"], "all 2^64 operand pairs (except division by zero and INT_MIN / -1) x register assignments; any number of loop iterations",
     "The emulation loops run up to 32 iterations with data-dependent paths; tests divide a few small numbers with one register assignment.",
     ["src/arm-codegen.c", "src/riscv-codegen.c"],
     [("division and remainder emulation", "src/arm-codegen.c: OP_div/OP_mod"), ("division, remainder, multiplication emulation", "src/riscv-codegen.c: OP_div/OP_mod/OP_mul")],
     "Loop invariants over the emitted machine code (cut points at the loop heads), discharged for all operand values with no bound on iterations; the arithmetic lemmas that connect the invariants with quotient, remainder and product are proved in Coq. Quick tier: all source register pairs with the destination equal to either source and two others; thorough tier: all 512 assignments.",
     technique="inductive loop invariants on emitted code, discharged by CBMC; arithmetic lemmas in Coq")
prop("C04", "Jumps, branches, calls and returns transfer control exactly",
     "Executing the emitted code for a jump, a conditional branch (whatever the layout of its two successors), a direct call, an indirect call through a function pointer, or a load of a function's address reaches exactly the intended block or function, chooses a branch side by whether the tested value is non-zero, and leaves the correct return address. Function entry followed by return restores the stack pointer and the caller's return address, delivers the return value, and reserves exactly the function's frame, for every frame size the compiler produces. Apart from the link register, no live register or caller memory changes on the way.",
     ["inputs", "programs"], "every source and target position in the code, both orders of successor blocks, every frame size and register",
     "Whether a branch side is adjacent depends on block layout; far or detached branches with neither side adjacent occur rarely in the tests (a wrong target there went unnoticed).",
     ["src/arm-codegen.c", "src/riscv-codegen.c", "src/arm.c", "src/riscv.c"],
     [("OP_jump/OP_branch/OP_call/OP_indirect/OP_return/OP_define/OP_address_of_func", "src/arm-codegen.c, src/riscv-codegen.c: emit_ph2_ir")],
     "Symbolic code addresses (whole reachable displacement range), symbolic frame sizes, all registers; executed under the instruction-set specifications.")
prop("C05", "Reserved code layout equals emitted code; start-up, exit, syscalls exact",
     "For both targets, the space the layout pass reserves for an operation equals the number of bytes emitted for it, for every operation kind and operand, so every basic block, function and data item lies at exactly the address used when branches, calls and data references to it are encoded. Function entries reserve, and returns release, the owning function's frame. The program entry code reserves the global area, runs the global initialisers, passes argc and argv from the initial stack to main, and exits the process with main's return value; the system-call stub passes the call number and up to six arguments to the kernel and returns its result, keeping stack, global base and return address.",
     ["inputs", "programs"], "every operation kind x every operand, constant and offset; every size of the global area; every initial register and stack content",
     "An offset error only shows when a size class boundary is crossed before a branch target; tests contain few such layouts.",
     ["src/arm-codegen.c", "src/riscv-codegen.c", "src/globals.c"],
     [("size reservation", "update_elf_offset"), ("block layout", "cfg_flatten"), ("start, exit and syscall stubs", "code_generate")],
     "Reserved size equals emitted size as one obligation per operation kind, full operand domain; cfg_flatten and code_generate are then checked against that contract (sizes arbitrary) on a fixed two-function shape; start, exit and syscall stubs executed under the instruction-set specifications.")
prop("C06", "The output file is an exact, well-formed ELF executable",
     "For every code and data size the compiler accepts, the file written is a 32-bit little-endian ELF executable for the target. Its entry point is the first code byte. Its single loadable segment covers exactly code followed by data (rounded up to whole words) at the addresses used by code generation, and every header, section and string-table offset and size describes the file actually written. The code and data bytes in the file are exactly those emitted, every 32-bit word little-endian.",
     ["inputs", "programs"], "every code size and data size; every content",
     "Tests run executables produced from samples with the sizes that happen to occur; loaders ignore most fields until a tool reads them.",
     ["src/elf.c", "src/globals.c"],
     [("headers and section table", "src/elf.c: elf_generate_header, elf_generate_sections"), ("alignment", "elf_align"), ("file assembly", "elf_generate"), ("byte emission", "elf_write_int, elf_write_data_str")],
     "All header and section fields proved for every size; file assembly byte for byte for four concrete size pairs with arbitrary content (bounded); word emission for every value.")
prop("C07", "Compile-time constant evaluation equals run-time C evaluation",
     "Whenever the compiler evaluates an expression itself (folding in the optimizer, initializers of global variables, and #if conditions), the result is the value the program would compute at run time: 32-bit wrap-around addition, subtraction, multiplication, truncating division and remainder, shifts, comparisons and logical operators, combined by C precedence and left associativity with optional signs. Only values that really are constant are treated so: never a global variable, never a variable whose address is taken. A division or remainder by constant zero is never folded; in an initializer or #if it is reported.",
     ["inputs", "programs"], "every operator x every pair of 32-bit operands; every sequence of three operands with signs and any two operators",
     "Folding only runs when both operands happen to be constants; wrong values for corner operands, precedence combinations or aliased variables do not show in sample programs.",
     ["src/ssa.c", "src/parser.c"],
     [("folding and propagation", "src/ssa.c: mark_const, eval_const_arithmetic, is_address_taken"), ("global initializers", "src/parser.c: read_global_assignment, eval_expression_imm"), ("#if expressions", "src/parser.c: read_constant_expr, read_constant_infix_expr, get_operator_prio")],
     "Each operator proved for all operand values (division and remainder in the folder: bounded operands and constant divisors); expressions: every pair of operators and sign pattern of three operands with arbitrary values, the token reading functions replaced by a token-stream contract (bounded).")
prop("C09", "Register allocation never loses or mixes up a value",
     "In the code the register allocator produces, each operation reads each operand from a register that holds the current value of the variable the program names, and writes its result without destroying a value that is still needed: a variable that is used later in its basic block, or is live at the end of it, keeps its value in a register or in its own memory slot through every eviction, reload, call (direct or through a function pointer) and block end. Arguments are in the registers the calling convention prescribes when the call is made. Stack slots lie inside the frame and never overlap. Not covered: scalar variables changed through pointers to them.",
     ["inputs", "programs"], "every allocator state (which variables are in which registers, modified or not, live or dead, with or without a slot, local or global) x every operation and operand",
     "The eight registers only run out in expressions with many simultaneous values; which variable is then evicted, and whether it is modified, live or an operand, varies with the whole function.",
     ["src/reg-alloc.c"],
     [("operand and destination selection", "prepare_operand, prepare_dest"), ("eviction and reload", "spill_var, load_var, spill_alive, spill_live_out, refresh"), ("per-operation allocation", "reg_alloc")],
     "Invariant over allocator state and ghost register/memory contents, proved for each function from an arbitrary state; callers of spill_var and load_var are checked against the contracts of these. Ten variables (eight that may be in registers, two in memory), all values, offsets and liveness symbolic.")
