GEN = "property-based testing: "
T["C01"] = (GEN + "enumerated and random operands through 6500 run-time instruction templates plus randomly spelled source lines compiled by rustc, judged by an independent decoder",
            "All mnemonics x operand forms x all register pairs; trusts the mnemonic table and decoder in harness/oracle.")
T["C02"] = (GEN + "enumerated and random memory operands (templates and compiled source lines), judged by an independent decoder",
            "All addressing forms x all base/index pairs x boundary and random displacements in every instruction with a memory operand.")
T["C03"] = (GEN + "boundary and random immediates (templates and compiled source lines), judged by an independent decoder",
            "All instructions with immediates x boundary, small and random 64-bit values; acceptance and rejection.")
T["C04"] = (GEN + "enumerated and random operands of floating-point instructions judged by an independent decoder; random floating-point programs executed on the CPU against an IEEE-754 interpreter of the source",
            "All floating-point mnemonics x registers x addressing forms decoded; 20000 executed programs per build and quick run.")
T["C05"] = (GEN + "all condition names x forms judged by an independent decoder, and executed under all flag states",
            "All names and aliases; all 32 flag states for register and label forms (a random third of them for memory forms in the quick tier).")
H = GEN + "stateful histories of emission, binding, references, constants, page switches, finalization, patching and queries against a reference model; "
T["C06"] = (H + "every reference slot must designate the label's modelled address", "Random histories of up to ~60 steps on both pages; distances bounded by what a history emits, plus a large-gap mode.")
T["C07"] = (H + "values, alignment, placement and disjointness of every item", "All item kinds, several rounds.")
T["C08"] = (H + "byte snapshots and label addresses between rounds", "All bytes of all three areas that were ever finalized are compared after every later round.")
T["C09"] = (H + "patched displacement designates the new target, all other bytes unchanged", "Both patching interfaces, both pages, repeated patches.")
T["C10"] = (H + "per-page positions and contents, selection-independent queries", "Boundary addresses of all areas for include().")
T["C11"] = (GEN + "random spellings of random lines compiled by rustc against the macro; emitted bytes judged by an independent decoder",
            "30000 lines per quick run over all mnemonics and operand forms.")
T["C12"] = (GEN + "random assembly blocks with adversarial variable names and counted operand expressions, compiled and run; bytes and counters judged",
            "12000 blocks per quick run; name pool includes every identifier of the macro's own sources.")
T["C13"] = (GEN + "invalid operand values, malformed source lines and invalid API calls must be refused by compile error or panic",
            "Run-time operand values through templates, 16000 malformed source lines, histories with invalid queries.")
T["C17"] = (H + "as_slice, code_block, get_current and the textual dump against the model", "Dump compared instruction by instruction via objdump's own text.")
T["C18"] = (H + "raw emission and alignment byte for byte", "All emission widths, boundary values, both pages.")
T["C14"] = (GEN + "random programs (loops, calls, stack, frames, tables, constants, data, pages, rounds, patches) executed in a confined child and compared with an interpreter of the source",
            "20000 programs per build and quick run, up to ~70 source lines and 6000 executed instructions each; all registers, defined flags and memory compared.")
T["C15"] = (GEN + "random histories around the end of nearly full 256 MiB areas (forked from prepared code memories), acceptance decided by the bound, memory by a model of heads and tails of all areas",
            "All emission kinds, instructions, alignments, relocations, constants and data at distances 0-8192 from the end of each area.")
T["C16"] = (GEN + "random single- and multi-threaded histories of creating, moving, swapping, sending, dropping and calling code memories in child processes; results and bytes of every function ever published, permissions from /proc/self/maps",
            "6000 histories per build and quick run on up to 4 threads; concurrent schedules are sampled, not enumerated.")
NA = []
