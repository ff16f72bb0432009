"""Budgets, bounds and assumptions of each property's check (quoted in the evidence)."""
COMMON_BOUNDS = ("shapes (which calls, how many definitions, lengths of contents and names) are case-split by the harness; "
                 "within a shape every listed input is a symbolic variable and the solver decides for all of its values; "
                 "loops run to their end, there is no unrolling limit")

ASSUME = [
    "the LLVM IR that rustc and opt -O2 produce is what is interpreted; machine code generation is outside "
    "(every explored path is also run natively with the solver's values and must give the same bytes)",
    "the artifact's own binary format, vendor, operating system, environment (but for those that narrow pointers, see C07) and library flag are "
    "symbolic in every artifact a harness makes",
    "allocation never fails; one thread; hash seeds are fixed during interpretation, random in native runs",
    "the executor, Z3 and the independent ELF / Mach-O readers in harness/ are trusted",
]
PROPS = {}


def prop(pid, quick, thorough, outside, time=(400, 700), **kw):
    PROPS[pid] = dict(bounds=[quick, thorough], outside=outside, time=time, **kw)


ATTR = "scope, visibility, writability, data type and section kind over all their values, alignment none or any 2^0..2^63"
KINDS = ("function, data (writable or not), C string, zero-initialised data or string, custom section of each kind and data type")
# shapes shared by several properties (harness/src/scen.rs)
SINGLE = ("one definition of any of 14 kinds (" + KINDS + ") with symbolic bytes (length 0,1,5,16,300), scope, visibility and alignment, zero-init "
          "sizes symbolic")
RICH = ("14 objects of 7 definitions of rotating kinds with names that are suffixes of one another, symbolic attributes, imports and links (rich), "
        "the same made by a history of rejected, redundant and upgrading calls, failed emissions and clones (noisy); every artifact is built in one of four ways, among them all names imported first and upgraded after the links were made")
NAMES = ("names of 1, 2, 3, 5 symbolic characters in five roles at once (named); one name of every length 1..26 (of Mach-O sections: 1..15) of symbolic characters in each of "
         "10 roles among fixed names, with links out of and into it (opaque); names and contents of lengths 2^k-2 to 2^k+1 up to 65 537 whose first or last character is symbolic, multi-byte ones too (ends)")
SIZES = ("contents of zeros, ones, text, NUL-rich and half-zero patterns at lengths around powers of two up to 8191 (patterned); one content of "
         "33 000 bytes to 1 MiB of each kind (bulk); 70 kB of code, a 66 kB name, 267 definitions and 300 links in one object (big)")
SWEEP = ("one count at a time through 0..47: definitions of mixed or of one kind, imports, links, custom symbols, sections; names and contents of "
         "lengths 0..1199 (sweep); 2 to 5 definitions alike in all but name, with repeated links (twins)")
HUGE = "66 000 custom symbols in one section (huge); 65 548 links (flood)"
ELF_MIX_Q = (SINGLE + " on x86-64, i686, s390x, powerpc (size < 2^40, < 2^28 in 32-bit files); three definitions of each combination of 4 kinds; "
             "every single link (10 sources x 12 targets x 3 kinds, all offsets and addends symbolic), pairs of links, chains of 12; 45 definitions; "
             "mixtures of zero-initialised and ordinary data of symbolic sizes; " + "; ".join([RICH, NAMES, SIZES, SWEEP]))
ELF_MIX_T = ("as quick with 23 lengths up to 4097, 6 names, 3 definitions of every combination of 8 kinds on 4 targets, 2 definitions with "
             "all attributes symbolic, more pairs of links, chains of 40, artifacts of 150 and 300 definitions")
MACH_MIX_Q = (SINGLE + " on x86-64, i686, powerpc64, aarch64 (size < 2^28); three definitions of each combination of 4 kinds; three objects of one "
              "section with every combination of 3 alignments up to 2^15; every length 0..17 x 9 alignments of neighbours in each section (spread); each padding of 0..34 bytes, of a half, and of 1..35 bytes less than the whole, in front of each alignment up to 2^14 (pads); "
              "every single link, pairs of links, chains of 12; 45 definitions; " + "; ".join([RICH, NAMES, SIZES, SWEEP]))
MACH_MIX_T = ("as quick with 23 lengths up to 4097, 6 names, combinations of 8 kinds, 4 objects x 4 alignments, "
              "2 definitions with all attributes symbolic, chains of 40 links, artifacts of 150 definitions")
BIG_OUT = "larger artifacts; contents longer than stated (4 GiB and above in particular); host allocation failure"

prop("C01", "Decl::absorb of every pair of kinds with symbolic attributes; every history of 3 declarations of one name (3 or 8 symbolic characters), each of 5 kinds, with symbolic attributes (" + ATTR + ") next to bystanders; every history of 4 declarations/definitions of two names, one of 4 symbolic characters, with links between them; histories of 24 declarations of one name among 0..49, 130, 300, 530 and 1100 others",
     "4 declarations of one name; 5 steps over two names; 2100 others",
     "other long histories; more than two interacting names")
prop("C02", "histories of 4 operations over three names, the operation and the name case-split, with and without links between all of them after every operation; 4 imports upgraded in any order; 40-name histories; 3 operations on names of symbolic characters with symbolic kinds and attributes; histories of 130 and 270 imports, each repeated, contradicted, linked to, a third upgraded",
     "5 operations; 5 imports; 200 names; 4 symbolic operations; 260, 520, 1030 imports", "other long histories; hundreds of thousands of names")
prop("C03", "one name (6 symbolic characters) of any kind (symbolic attributes) or undeclared, a second function or undeclared, a third never declared; 2 definition calls on them with any of {bytes, zero-init of symbolic size} x {0, 2 custom symbols at symbolic offsets}, then first declarations of the names rejected calls mentioned; 1..60 names of all kinds each defined among every kind of rejected call, the very same definition among them, redeclared, imported and linked in between; then emission in both formats",
     "3 definition calls, 0..2 custom symbols", "other long histories")
prop("C04", "2 links (also debug ones first) between any two of function, data, upgraded import, import, undeclared name, automatic or raw with symbolic type and addend, symbolic offset, before or after the upgrade and the definitions (empty and zero-initialised ones too), names symbolic in a third of that; three links out of anything of 14 kinds with symbolic attributes to any such thing, an import and itself, before or after the definitions, at any offset, in ELF; 34 to 2200 links in no order of offsets (also symbolic ones: 40 and 300 links), with duplicates and rejected ones; then emission in ELF and Mach-O, judged by the readers",
     "3 links; 100, 600 symbolic and 3000, 4200 other links", "other long histories; R_X86_64_* numbers are used for every architecture, so automatic links are judged on x86-64 only")
prop("C05", "own and requested format each any of target-lexicon's (or the artifact's own by emit); formats, names and attributes symbolic; 3 names (the first one of a function, data or section with all attributes symbolic) (with and without the prefixes of generated and debug names) each undefined, defined, import, upgraded and undefined, upgraded and defined, with and without links; symbolic contents; 33..300 names of which many are undefined, with and without links",
     "4 names", "formats target-lexicon adds later")
prop("C06", "emission: artifacts of 12 definitions with links, of every kind with a symbolic scope, pairs of 5 kinds, rich, twins and opaque shapes, emitted 10 times in different orders, from clones, after a failed attempt, with another artifact in between, and again after a change of name, target, imports or definitions against a fresh artifact; one artifact emitted 150 times. "
     "writing: a modelled file (write, writev, pwrite, lseek, ftruncate, fsync, fdatasync): a pipe, an empty file, the middle of a longer file, the end of a file; objects of 0.4, 4, 9 and 70 kB, zeros among them, and (without faults) of 4096, 8192, 65 536 bytes and 8 less or more; a call may accept part of the bytes (any of the first or last 250 lengths, 40 for files; 1, half or all but 1 at later faults), be interrupted or fail (ENOSPC, EIO), calls may be interrupted up to 300 times in a row or take at most 1, 7, 512, 4096 or 65535 bytes each, 2 faults for a pipe and 1 for a file, via write and write_as in ELF and Mach-O, complete or incomplete artifacts",
     "artifacts of 40 definitions, triples of kinds, up to 3 faults", "faults beyond the stated number; faults of close() (std ignores them); more than one thread; other system calls (a path that makes one is reported as inconclusive)",
     deterministic=True)
prop("C07", "24 architectures and x32, and all sub-architectures, under any vendor, operating system, environment and own format; an empty artifact, every kind with a symbolic raw link, and symbolic zero-init sizes, symbol offsets, link offsets (full class width) and addends",
     "also artifacts of 9 and 60 definitions", "architectures without an ELF machine number; Msp430; Mips64's own packing of r_info")
prop("C08", ELF_MIX_Q + "; " + HUGE, ELF_MIX_T, BIG_OUT + "; automatic relocation numbers on other architectures than x86-64")
prop("C09", ELF_MIX_Q, ELF_MIX_T, BIG_OUT + "; sh_entsize of mergeable strings")
prop("C10", ELF_MIX_Q + "; 66 000 custom symbols; an object of 65 541 sections; 3 names each imported, import then definition, definition then import, definition only, with custom symbols of the same names", ELF_MIX_T + "; 4 such names", BIG_OUT + "; more than 65 535 imports (declaring is quadratic: out of reach)")
prop("C11", "x86-64: every single link (10 sources of every kind x 12 targets x automatic, raw with symbolic type and addend, debug of size 4 and 8 with symbolic addend) at any 64-bit offset; pairs of links; chains of 12 links at symbolic offsets; histories of upgraded imports; " + "; ".join([RICH, NAMES, SWEEP, HUGE]),
     "more pairs of links, chains of 40", "relocation numbers on other architectures; links the writer rejects by panicking (automatic links from code to sections)")
prop("C12", "one zero-init object of any size < 2^40 (32-bit: < 2^28), scope and alignment case-split; two of any size within 2^16 of 0, 2^31 and 2^32 with alignments among 5 ordinary ones with links; four of any size < 2^10; " + SWEEP + "; opaque names; ELF 32 and 64 bit and Mach-O",
     "two objects of any size < 2^40 with alignments up to 2^12; six objects", "sizes of 2^40 and above (C25, C26)")
prop("C13", MACH_MIX_Q + "; " + HUGE + "; 12 architectures; 251 and 252 custom sections", MACH_MIX_T, BIG_OUT + "; relocations on 32-bit and big-endian Mach-O targets")
prop("C14", MACH_MIX_Q, MACH_MIX_T, BIG_OUT)
prop("C15", MACH_MIX_Q + "; 66 000 custom symbols; 3 names each imported, import then definition, definition then import, definition only, with custom symbols of the same names", MACH_MIX_T + "; 4 such names", BIG_OUT)
prop("C16", "x86-64: every single link out of 10 sources to functions, data and imports, automatic, raw with symbolic type < 16, debug; any offset < 2^30; pairs of links, chains of 12, aligned and spread objects, histories of upgraded imports; " + "; ".join([RICH, NAMES, SWEEP, HUGE]),
     "more pairs of links, chains of 40", "raw links with an addend (documented as unsupported), links to custom sections (documented as dropped), other architectures")
prop("C17", "one section of any kind and data type, 10 names, length 0,1,9,40, symbolic bytes, alignment, up to 3 symbols at any offset; two sections of any kinds next to ordinary definitions with debug links; 9 sections with up to 6 symbols; 66 000 symbols in one; opaque names, bulk, sweep and twins shapes; ELF on 4 targets and Mach-O",
     "alignments up to 2^63; three sections; 40 sections", "Mach-O symbol offsets of 2^62 and above (C25, C26); Mach-O section names longer than 16 bytes are refused with an error (C19, C26)")
prop("C18", "six artifacts of 0xff00-1 to 0xff00+900 sections (65 279 to 66 180), with 2 to 12 links out of the first, the last local and the last global definitions, 64-bit and 32-bit big-endian, symbolic relocation and symbol offsets and contents",
     "18 of six counts from 0xff00-2 to 0x10000+1500, with 0, 2 and 40 links, on three targets", "other counts; contents of most of the definitions are empty",
     time=(500, 800), reach=["extended", "plain", "extended symbol"])
prop("C19", "ELF and Mach-O: artifact name, symbol name, section name and custom symbol name of stated lengths (up to 15 characters) with every character symbolic, so free to coincide with each other and every generated name; three symbols of one namespace; custom symbols against symbols and imports; 15 x 7 fixed generated names in each role; names of 2- to 4-byte characters; opaque names",
     "more lengths; Mach-O section names of every length up to 30", "names with NUL; two definitions whose generated ELF section names are to coincide, and two Mach-O sections whose final names coincide, are judged by content; longer symbolic names")
prop("C20", "every sequence of 3 builder/setter calls on functions, data and C strings (arguments symbolic), 4 on sections; every pair of declarations with symbolic attributes under ==, <, cmp; transitivity of triples",
     "4 calls (sections 6), all triples", "longer sequences")
prop("C21", "every order of three definitions of case-split kinds with symbolic attributes and bytes, of four like definitions with symbolic bytes, three orders of 25, 160, 300 and 570 definitions; with and without redundant calls (in another order) and rejected calls that mention names declared later; links before or after the definitions, in the small cases to themselves and several to one target too",
     "five like definitions, 120 and 600 definitions", "other orders of many definitions", deterministic=True)

prop("C22", "a name undeclared, of any kind, or defined, a second function; 2 convenience calls with symbolic attributes, contents and sizes against their expansions, then emission; every sequence of 3 declarations of up to 3 names; lists of 17 and 40 declarations with the first failure anywhere, from iterators that know their number, a bound on it or nothing, for an empty artifact or one with declarations, imports and definitions; every sequence of 3 builder calls with symbolic names; contents of symbolic bytes and sizes and of patterns up to 66 000 bytes",
     "3 calls, 4 declarations", "longer sequences")
prop("C23", ELF_MIX_Q + "; " + HUGE + "; four objects in extended numbering; artifact names of up to 6 symbolic characters (also beyond ASCII) and of 77 characters", ELF_MIX_T, BIG_OUT + "; longer symbolic names",
     reach=["symbolic artifact name"])
prop("C24", "names of 1 or 4 ASCII characters, of 2- and 3-byte characters, and of 62 to 66 002 characters with symbolic ends, in each of 8 failing calls; 1 to 40 undefined names among others",
     "names of 0 to 8 characters", "the texts of incompatible-declaration, zero-init and custom-symbol errors (they print declarations for debugging); names in lists beyond letters and digits (they are escaped)")
prop("C25", "ELF and Mach-O on x86-64, i686, aarch64 (ELF also s390x): one definition of any of 14 kinds with any 64-bit custom symbol offset (Mach-O: < 2^62), zero-init size < 2^62 and alignment 2^0..2^63; links of every kind at any 64-bit offset with any addend; three zero-init objects of any size < 2^61; artifact names of up to 2 symbolic characters; names of 127 to 70 000 characters in every role; section names of 10 to 30 bytes of any characters; names of 1 to 3 characters with NUL among them; rich, noisy, big, huge, flood, bulk, opaque, sweep and twins shapes; compiled with overflow checks and debug assertions",
     "as quick", "host allocation failure; link kinds documented as unsupported, which panic by design (automatic links to or from custom sections, raw Mach-O addends, debug sizes other than 4 and 8); architectures the formats do not have", reach=["refused"])
prop("C26", "one or two zero-init sizes, an alignment of 2^0..2^63, a custom symbol offset, two link offsets (each any 64-bit value), any 32-bit raw relocation type, section names of 1 to 30 symbolic characters (also beyond ASCII); ELF on 4 targets, Mach-O on 3",
     "section names of up to 50 characters", "contents beyond 4 GB; more than 255 Mach-O sections (C13)", reach=["emitted", "refused"])
