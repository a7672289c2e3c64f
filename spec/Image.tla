------------------------------- MODULE Image -------------------------------
(***************************************************************************)
(* Structures and constants of executable files and of the system ABI      *)
(* (lib/tmp/src/msdosmz.rs, lib/tmp/src/pecoff.rs, lib/sys/src/ffi/).      *)
(*                                                                         *)
(* A structure is a size, an alignment, and a sequence of fields: a name,  *)
(* an offset, a width in bytes, and whether it is a number (stored little  *)
(* endian) or a run of bytes.                                              *)
(***************************************************************************)
EXTENDS Num, AbiConst, SequencesExt

MzHeader == [size |-> 28, align |-> 2, fields |-> <<
    <<"magic", 0, 2, "bytes">>, <<"cblp", 2, 2, "num">>, <<"cp", 4, 2, "num">>, <<"crlc", 6, 2, "num">>,
    <<"cparhdr", 8, 2, "num">>, <<"minalloc", 10, 2, "num">>, <<"maxalloc", 12, 2, "num">>,
    <<"ss", 14, 2, "num">>, <<"sp", 16, 2, "num">>, <<"csum", 18, 2, "num">>, <<"ip", 20, 2, "num">>,
    <<"cs", 22, 2, "num">>, <<"lfarlc", 24, 2, "num">>, <<"ovno", 26, 2, "num">> >>]
MzHeaderExt == [size |-> 36, align |-> 4, fields |-> <<
    <<"res", 0, 8, "bytes">>, <<"oemid", 8, 2, "num">>, <<"oeminfo", 10, 2, "num">>,
    <<"res2", 12, 20, "bytes">>, <<"lfanew", 32, 4, "num">> >>]
MzRelocation == [size |-> 4, align |-> 2, fields |-> <<
    <<"offset", 0, 2, "num">>, <<"segment", 2, 2, "num">> >>]

PeHeader == [size |-> 20, align |-> 4, fields |-> <<
    <<"machine", 0, 2, "num">>, <<"number_of_sections", 2, 2, "num">>, <<"time_date_stamp", 4, 4, "num">>,
    <<"pointer_to_symbol_table", 8, 4, "num">>, <<"number_of_symbols", 12, 4, "num">>,
    <<"size_of_optional_header", 16, 2, "num">>, <<"characteristics", 18, 2, "num">> >>]
PeStandard == <<
    <<"magic", 0, 2, "num">>, <<"major_linker_version", 2, 1, "num">>, <<"minor_linker_version", 3, 1, "num">>,
    <<"size_of_code", 4, 4, "num">>, <<"size_of_initialized_data", 8, 4, "num">>,
    <<"size_of_uninitialized_data", 12, 4, "num">>, <<"address_of_entry_point", 16, 4, "num">>,
    <<"base_of_code", 20, 4, "num">> >>
PeOptional == [size |-> 28, align |-> 4, fields |-> Append(PeStandard, <<"base_of_data", 24, 4, "num">>)]
\* PE32+ has no base of data.
PeOptional32P == [size |-> 24, align |-> 4, fields |-> PeStandard]
\* Offsets relative to the end of the standard fields (28, and 24 for PE32+).
PeExt == [size |-> 68, align |-> 4, fields |-> <<
    <<"image_base", 0, 4, "num">>, <<"section_alignment", 4, 4, "num">>, <<"file_alignment", 8, 4, "num">>,
    <<"major_operating_system_version", 12, 2, "num">>, <<"minor_operating_system_version", 14, 2, "num">>,
    <<"major_image_version", 16, 2, "num">>, <<"minor_image_version", 18, 2, "num">>,
    <<"major_subsystem_version", 20, 2, "num">>, <<"minor_subsystem_version", 22, 2, "num">>,
    <<"win32_version_value", 24, 4, "num">>, <<"size_of_image", 28, 4, "num">>, <<"size_of_headers", 32, 4, "num">>,
    <<"check_sum", 36, 4, "num">>, <<"subsystem", 40, 2, "num">>, <<"dll_characteristics", 42, 2, "num">>,
    <<"size_of_stack_reserve", 44, 4, "num">>, <<"size_of_stack_commit", 48, 4, "num">>,
    <<"size_of_heap_reserve", 52, 4, "num">>, <<"size_of_heap_commit", 56, 4, "num">>,
    <<"loader_flags", 60, 4, "num">>, <<"number_of_rva_and_sizes", 64, 4, "num">> >>]
PeExt32P == [size |-> 88, align |-> 8, fields |-> <<
    <<"image_base", 0, 8, "num">>, <<"section_alignment", 8, 4, "num">>, <<"file_alignment", 12, 4, "num">>,
    <<"major_operating_system_version", 16, 2, "num">>, <<"minor_operating_system_version", 18, 2, "num">>,
    <<"major_image_version", 20, 2, "num">>, <<"minor_image_version", 22, 2, "num">>,
    <<"major_subsystem_version", 24, 2, "num">>, <<"minor_subsystem_version", 26, 2, "num">>,
    <<"win32_version_value", 28, 4, "num">>, <<"size_of_image", 32, 4, "num">>, <<"size_of_headers", 36, 4, "num">>,
    <<"check_sum", 40, 4, "num">>, <<"subsystem", 44, 2, "num">>, <<"dll_characteristics", 46, 2, "num">>,
    <<"size_of_stack_reserve", 48, 8, "num">>, <<"size_of_stack_commit", 56, 8, "num">>,
    <<"size_of_heap_reserve", 64, 8, "num">>, <<"size_of_heap_commit", 72, 8, "num">>,
    <<"loader_flags", 80, 4, "num">>, <<"number_of_rva_and_sizes", 84, 4, "num">> >>]
PeDirectory == [size |-> 8, align |-> 4, fields |-> << <<"virtual_address", 0, 4, "num">>, <<"size", 4, 4, "num">> >>]
PeSection == [size |-> 40, align |-> 4, fields |-> <<
    <<"name", 0, 8, "bytes">>, <<"virtual_size", 8, 4, "num">>, <<"virtual_address", 12, 4, "num">>,
    <<"size_of_raw_data", 16, 4, "num">>, <<"pointer_to_raw_data", 20, 4, "num">>,
    <<"pointer_to_relocations", 24, 4, "num">>, <<"pointer_to_linenumbers", 28, 4, "num">>,
    <<"number_of_relocations", 32, 2, "num">>, <<"number_of_linenumbers", 34, 2, "num">>,
    <<"characteristics", 36, 4, "num">> >>]

ElfIdent == [size |-> 16, align |-> 1, fields |-> <<
    <<"i_magic", 0, 4, "bytes">>, <<"i_class", 4, 1, "num">>, <<"i_data", 5, 1, "num">>,
    <<"i_version", 6, 1, "num">>, <<"i_osabi", 7, 1, "num">>, <<"i_abiversion", 8, 1, "num">>,
    <<"i_pad", 9, 7, "bytes">> >>]
Elf32Ehdr == [size |-> 52, align |-> 4, fields |-> <<
    <<"e_ident", 0, 16, "bytes">>, <<"e_type", 16, 2, "num">>, <<"e_machine", 18, 2, "num">>,
    <<"e_version", 20, 4, "num">>, <<"e_entry", 24, 4, "num">>, <<"e_phoff", 28, 4, "num">>,
    <<"e_shoff", 32, 4, "num">>, <<"e_flags", 36, 4, "num">>, <<"e_ehsize", 40, 2, "num">>,
    <<"e_phentsize", 42, 2, "num">>, <<"e_phnum", 44, 2, "num">>, <<"e_shentsize", 46, 2, "num">>,
    <<"e_shnum", 48, 2, "num">>, <<"e_shstrndx", 50, 2, "num">> >>]
Elf64Ehdr == [size |-> 64, align |-> 8, fields |-> <<
    <<"e_ident", 0, 16, "bytes">>, <<"e_type", 16, 2, "num">>, <<"e_machine", 18, 2, "num">>,
    <<"e_version", 20, 4, "num">>, <<"e_entry", 24, 8, "num">>, <<"e_phoff", 32, 8, "num">>,
    <<"e_shoff", 40, 8, "num">>, <<"e_flags", 48, 4, "num">>, <<"e_ehsize", 52, 2, "num">>,
    <<"e_phentsize", 54, 2, "num">>, <<"e_phnum", 56, 2, "num">>, <<"e_shentsize", 58, 2, "num">>,
    <<"e_shnum", 60, 2, "num">>, <<"e_shstrndx", 62, 2, "num">> >>]
Elf32Shdr == [size |-> 40, align |-> 4, fields |-> <<
    <<"sh_name", 0, 4, "num">>, <<"sh_type", 4, 4, "num">>, <<"sh_flags", 8, 4, "num">>, <<"sh_addr", 12, 4, "num">>,
    <<"sh_offset", 16, 4, "num">>, <<"sh_size", 20, 4, "num">>, <<"sh_link", 24, 4, "num">>,
    <<"sh_info", 28, 4, "num">>, <<"sh_addralign", 32, 4, "num">>, <<"sh_entsize", 36, 4, "num">> >>]
Elf64Shdr == [size |-> 64, align |-> 8, fields |-> <<
    <<"sh_name", 0, 4, "num">>, <<"sh_type", 4, 4, "num">>, <<"sh_flags", 8, 8, "num">>, <<"sh_addr", 16, 8, "num">>,
    <<"sh_offset", 24, 8, "num">>, <<"sh_size", 32, 8, "num">>, <<"sh_link", 40, 4, "num">>,
    <<"sh_info", 44, 4, "num">>, <<"sh_addralign", 48, 8, "num">>, <<"sh_entsize", 56, 8, "num">> >>]
Elf32Phdr == [size |-> 32, align |-> 4, fields |-> <<
    <<"p_type", 0, 4, "num">>, <<"p_offset", 4, 4, "num">>, <<"p_vaddr", 8, 4, "num">>, <<"p_paddr", 12, 4, "num">>,
    <<"p_filesz", 16, 4, "num">>, <<"p_memsz", 20, 4, "num">>, <<"p_flags", 24, 4, "num">>, <<"p_align", 28, 4, "num">> >>]
Elf64Phdr == [size |-> 56, align |-> 8, fields |-> <<
    <<"p_type", 0, 4, "num">>, <<"p_flags", 4, 4, "num">>, <<"p_offset", 8, 8, "num">>, <<"p_vaddr", 16, 8, "num">>,
    <<"p_paddr", 24, 8, "num">>, <<"p_filesz", 32, 8, "num">>, <<"p_memsz", 40, 8, "num">>, <<"p_align", 48, 8, "num">> >>]
Elf32Sym == [size |-> 16, align |-> 4, fields |-> <<
    <<"st_name", 0, 4, "num">>, <<"st_value", 4, 4, "num">>, <<"st_size", 8, 4, "num">>,
    <<"st_info", 12, 1, "num">>, <<"st_other", 13, 1, "num">>, <<"st_shndx", 14, 2, "num">> >>]
Elf64Sym == [size |-> 24, align |-> 8, fields |-> <<
    <<"st_name", 0, 4, "num">>, <<"st_info", 4, 1, "num">>, <<"st_other", 5, 1, "num">>,
    <<"st_shndx", 6, 2, "num">>, <<"st_value", 8, 8, "num">>, <<"st_size", 16, 8, "num">> >>]
ElfWords(names, w) == [size |-> Len(names) * w, align |-> w,
                       fields |-> [k \in 1..Len(names) |-> <<names[k], (k - 1) * w, w, "num">>]]
Elf32Dyn == ElfWords(<<"d_tag", "d_val">>, 4)
Elf64Dyn == ElfWords(<<"d_tag", "d_val">>, 8)
Elf32Rel == ElfWords(<<"r_offset", "r_info">>, 4)
Elf64Rel == ElfWords(<<"r_offset", "r_info">>, 8)
Elf32Rela == ElfWords(<<"r_offset", "r_info", "r_addend">>, 4)
Elf64Rela == ElfWords(<<"r_offset", "r_info", "r_addend">>, 8)

Mz == <<MzHeader, MzHeaderExt, MzRelocation>>
Pe == <<PeHeader, PeOptional, PeOptional32P, PeExt, PeExt32P, PeDirectory, PeSection>>
Elf32 == <<ElfIdent, Elf32Ehdr, Elf32Shdr, Elf32Phdr, Elf32Sym, Elf32Dyn, Elf32Rel, Elf32Rela>>
Elf64 == <<ElfIdent, Elf64Ehdr, Elf64Shdr, Elf64Phdr, Elf64Sym, Elf64Dyn, Elf64Rel, Elf64Rela>>
\* The last eight are those of the platform's own class.
Structs == Mz \o Pe \o Elf32 \o Elf64 \o Elf64

----------------------------------------------------------------------------
\* The value of a field of an image: numbers most significant byte first.
Part(img, f) == SubSeq(img, f[2] + 1, f[2] + f[3])
Value(img, f) == IF f[4] = "num" THEN Rev(Part(img, f)) ELSE Part(img, f)
Put(img, f, v) ==
    LET raw == IF f[4] = "num" THEN Rev(v) ELSE v
    IN [k \in 1..Len(img) |-> IF k > f[2] /\ k <= f[2] + f[3] THEN raw[k - f[2]] ELSE img[k]]

RECURSIVE Values(_, _, _)
Values(img, s, n) == IF n = 0 THEN <<>> ELSE Values(img, s, n - 1) \o Value(img, s.fields[n]) \o <<-1>>

\* Checksum: words, a lone last byte being the low one of its word.
Sum16(b) == FoldLeft(LAMBDA s, k : (s + b[2 * k - 1] + (IF 2 * k > Len(b) THEN 0 ELSE 256 * b[2 * k])) % 65536, 0,
                     [k \in 1..((Len(b) + 1) \div 2) |-> k])
\* n times the same word, without leaving 32 bits.
Times(n, lo, hi) == ((n % 65536) * lo + 256 * (((n % 65536) * hi) % 256)) % 65536

\* Published constants by name, as bytes in memory.
Pick(table, n) == LET k == CHOOSE k \in 1..Len(table) : table[k][2] = n IN Rev(table[k][3])
PickBytes(table, n) == LET k == CHOOSE k \in 1..Len(table) : table[k][1] = n IN table[k][2]
Listed(table, n) == \E k \in 1..Len(table) : table[k][1] = n
ConstOf(t, n) ==
    CASE t \in {0, 1} -> IF Listed(ElfBytes, n) THEN PickBytes(ElfBytes, n) ELSE Pick(ElfConst, n)
      [] t = 2 -> IF Listed(PeBytes, n) THEN PickBytes(PeBytes, n) ELSE Pick(PeConst, n)
      [] t = 3 -> IF Listed(MzBytes, n) THEN PickBytes(MzBytes, n) ELSE Pick(MzConst, n)
      [] OTHER -> Pick(ErrConst, n)

----------------------------------------------------------------------------
(* DOS programs: loading an image, and the few instructions and system     *)
(* calls a stub needs.                                                     *)
Word(b, off) == b[off + 1] + 256 * b[off + 2]
Wide(b, off) == Word(b, off) + 65536 * (Word(b, off + 2) % 32768)
HdrLen(b) == 16 * Word(b, 8)
\* Bytes of the file that make up the image: full pages and the last one.
FileLen(b) == IF Word(b, 2) = 0 THEN 512 * Word(b, 4) ELSE 512 * (Word(b, 4) - 1) + Word(b, 2)
Program(b) == SubSeq(b, HdrLen(b) + 1, FileLen(b))

RECURSIVE UpToDollar(_, _)
UpToDollar(p, off) == IF off >= Len(p) THEN <<-1>>
                      ELSE IF p[off + 1] = 36 THEN <<>>
                      ELSE <<p[off + 1]>> \o UpToDollar(p, off + 1)

\* Machine: ip, registers ax, dx, whether DS = CS, depth of the stack, text
\* printed, and the exit code (-1 still runs, -2 went wrong).
Reset(b) == [ip |-> Word(b, 20), ax |-> 0, dx |-> 0, ds |-> FALSE, stack |-> 0, text |-> <<>>, code |-> -1]
Instr(p, m) ==
    LET at(k) == IF m.ip + k < Len(p) THEN p[m.ip + k + 1] ELSE -1
        imm == at(1) + 256 * at(2)
    IN CASE at(0) = 14 -> [m EXCEPT !.ip = @ + 1, !.stack = @ + 1]
         [] at(0) = 31 /\ m.stack > 0 -> [m EXCEPT !.ip = @ + 1, !.stack = @ - 1, !.ds = TRUE]
         [] at(0) = 186 /\ at(2) >= 0 -> [m EXCEPT !.ip = @ + 3, !.dx = imm]
         [] at(0) = 184 /\ at(2) >= 0 -> [m EXCEPT !.ip = @ + 3, !.ax = imm]
         [] at(0) = 180 /\ at(1) >= 0 -> [m EXCEPT !.ip = @ + 2, !.ax = (@ % 256) + 256 * at(1)]
         [] at(0) = 205 /\ at(1) = 33 /\ m.ax \div 256 = 9 /\ m.ds ->
                [m EXCEPT !.ip = @ + 2, !.text = @ \o UpToDollar(p, m.dx)]
         [] at(0) = 205 /\ at(1) = 33 /\ m.ax \div 256 = 76 -> [m EXCEPT !.code = m.ax % 256]
         [] OTHER -> [m EXCEPT !.code = -2]
RECURSIVE RunOn(_, _, _)
RunOn(p, m, fuel) == IF m.code # -1 THEN m
                     ELSE IF fuel = 0 THEN [m EXCEPT !.code = -2]
                     ELSE RunOn(p, Instr(p, m), fuel - 1)

StubText == <<84, 104, 105, 115, 32, 112, 114, 111, 103, 114, 97, 109, 32, 99, 97, 110, 110, 111, 116, 32,
              98, 101, 32, 114, 117, 110, 32, 105, 110, 32, 68, 79, 83, 32, 109, 111, 100, 101, 46, 13, 13, 10>>
\* A stub: a program that fits its file, sums up, leaves a stack, has an
\* extended header that points directly behind it, tells off and fails.
ValidStub(b) ==
    /\ Len(b) >= 64 /\ Len(b) % 8 = 0
    /\ Word(b, 0) = 23117
    /\ FileLen(b) = Len(b) /\ HdrLen(b) >= 64 /\ HdrLen(b) < Len(b)
    /\ Word(b, 6) = 0 /\ Word(b, 24) >= 64
    /\ Sum16(b) = 65535
    /\ Word(b, 12) >= Word(b, 10)
    /\ Word(b, 14) = 0 /\ Word(b, 22) = 0
    /\ Word(b, 16) >= Len(b) - HdrLen(b) /\ Word(b, 16) % 2 = 0
    /\ Word(b, 26) = 0
    /\ Wide(b, 60) = Len(b) /\ b[64] < 128
    /\ LET m == RunOn(Program(b), Reset(b), 100) IN m.code = 1 /\ m.text = StubText

----------------------------------------------------------------------------
Start(in) == 0
Call(in, st, op) ==
    LET s == Structs[op.s + 1]
        does(o) == [st |-> st, obs |-> o]
    IN CASE op.k = 0 -> does(<<s.size, s.align>>)
         [] op.k = 1 -> does(Values(op.b, s, Len(s.fields)) \o op.b)
         [] op.k = 2 -> does(Put(op.b, s.fields[op.f + 1], op.v))
         [] op.k = 3 -> does(<<Sum16(op.b)>>)
         [] op.k = 4 -> does(<<(Times(op.n, op.lo, op.hi) + Sum16(op.b)) % 65536>>)
         [] op.k = 5 -> does(ConstOf(op.t, op.n))
         [] op.k = 6 -> does(<<IF ValidStub(op.b) THEN 1 ELSE 0>>)
=============================================================================
