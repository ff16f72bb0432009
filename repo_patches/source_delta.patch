From 40a76d2f049c41c27dd4c86b13e2eb7b097b5732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:23 +0000
Subject: [PATCH 01/23] fix: rejected definitions and links no longer intern
 names and reorder the emission

---
 src/artifact.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index d0b9418..0396e04 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -463,7 +463,12 @@ impl Artifact {
         data: D,
         symbols: BTreeMap<String, u64>,
     ) -> Result<(), ArtifactError> {
-        let decl_name = self.strings.get_or_intern(name.as_ref());
+        // a rejected definition must not intern its name: the interning order of names decides
+        // the order of emission
+        let decl_name = self
+            .strings
+            .get(name.as_ref())
+            .ok_or_else(|| ArtifactError::Undeclared(name.as_ref().to_string()))?;
         let data = data.into();
         match self.declarations.get_mut(&decl_name) {
             Some(ref mut stype) => {
@@ -536,9 +541,14 @@ impl Artifact {
     /// A variant of `link` with a `Reloc` provided. Has all of the same invariants as
     /// `link`.
     pub fn link_with<'a>(&mut self, link: Link<'a>, reloc: Reloc) -> Result<(), ArtifactError> {
+        // a rejected link must not intern names: the interning order decides the order of emission
         let (link_from, link_to) = (
-            self.strings.get_or_intern(link.from),
-            self.strings.get_or_intern(link.to),
+            self.strings
+                .get(link.from)
+                .ok_or_else(|| ArtifactError::Undeclared(link.from.to_string()))?,
+            self.strings
+                .get(link.to)
+                .ok_or_else(|| ArtifactError::Undeclared(link.to.to_string()))?,
         );
         match (
             self.declarations.get(&link_from),
-- 
2.43.0


From 08b63079773caffd21a076c72ccd4197cf7a639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:26 +0000
Subject: [PATCH 02/23] fix: the unsupported-format error names the requested
 format

---
 src/artifact.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index 0396e04..13c1925 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -601,9 +601,7 @@ impl Artifact {
                 BinaryFormat::Elf => elf::to_bytes(self)?,
                 BinaryFormat::Macho => mach::to_bytes(self)?,
                 _ => {
-                    return Err(ArtifactError::UnsupportedBinaryFormat(
-                        self.target.binary_format.to_owned(),
-                    ))
+                    return Err(ArtifactError::UnsupportedBinaryFormat(format))
                 }
             };
             Ok(bytes)
-- 
2.43.0


From 9aa5739b3904daa627d313868ee62f35a3ec763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 03/23] fix: weak ELF symbols are emitted after, and not
 counted among, the local ones

---
 src/artifact.rs      | 3 ++-
 src/artifact/decl.rs | 9 +++++++++
 src/elf.rs           | 2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index 13c1925..51d3d5c 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -501,7 +501,8 @@ impl Artifact {
                     }
                 }
 
-                if decl.is_global() {
+                // weak definitions are not local: object formats want local symbols first
+                if !decl.is_local() {
                     self.nonlocal_definitions.insert(InternalDefinition {
                         name: decl_name,
                         data,
diff --git a/src/artifact/decl.rs b/src/artifact/decl.rs
index 07c35fa..8f1acdf 100644
--- a/src/artifact/decl.rs
+++ b/src/artifact/decl.rs
@@ -212,6 +212,15 @@ impl DefinedDecl {
         }
     }
 
+    /// Accessor to determine whether scope is local; sections always are
+    pub(crate) fn is_local(&self) -> bool {
+        match self {
+            DefinedDecl::Function(a) => a.get_scope() == Scope::Local,
+            DefinedDecl::Data(a) => a.get_scope() == Scope::Local,
+            DefinedDecl::Section(_) => true,
+        }
+    }
+
     /// Accessor to determine whether contents are writable
     pub fn is_writable(&self) -> bool {
         match self {
diff --git a/src/elf.rs b/src/elf.rs
index 91c8add..ca23f2a 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -569,7 +569,7 @@ impl<'a> Elf<'a> {
                 // sh_info requires nsections + nlocals to add as delimiter; see the associated FunFact
                 // nonglobals go into the symbol table first (per iteration through definitions in
                 // caller)
-                if !decl.is_global() {
+                if decl.is_local() {
                     self.nlocals += 1;
                 }
             }
-- 
2.43.0


From a7f92625996ef4ee994a1ac8d97d8d695abdd763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:23 +0000
Subject: [PATCH 04/23] fix: ELF custom section symbols are counted as local
 and kept apart from declared names

---
 src/elf.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index ca23f2a..3ac6c59 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -397,6 +397,9 @@ struct Elf<'a> {
     relocations: IndexMap<StringIndex, (Section, Vec<Relocation>)>,
     symbols: IndexMap<StringIndex, Symbol>,
     special_symbols: Vec<Symbol>,
+    // local symbols inside custom sections: nothing links to them by name, and their names live in
+    // a different namespace than the declarations
+    section_symbols: Vec<Symbol>,
     imports: HashMap<StringIndex, ImportKind>,
     sections: IndexMap<StringIndex, SectionInfo>,
     offsets: HashMap<StringIndex, Offset>,
@@ -467,6 +470,7 @@ impl<'a> Elf<'a> {
             imports: HashMap::new(),
             symbols: IndexMap::new(),
             special_symbols,
+            section_symbols: Vec::new(),
             sections: IndexMap::new(),
             nsections: 4,
             offsets,
@@ -589,7 +593,7 @@ impl<'a> Elf<'a> {
                         .value(*symbol_dst_offset)
                         .create();
 
-                    self.symbols.insert(idx, symbol);
+                    self.section_symbols.push(symbol);
                 }
             }
         }
@@ -639,6 +643,10 @@ impl<'a> Elf<'a> {
         self.imports.insert(idx, kind.clone());
         self.symbols.insert(idx, symbol);
     }
+    /// The index of the first symbol that comes from a declaration
+    fn first_decl_symbol(&self) -> usize {
+        self.special_symbols.len() + self.sections.len() + self.section_symbols.len()
+    }
     pub fn link(&mut self, l: &LinkAndDecl) {
         debug!("Link: {:?}", l);
         let (to_idx, to_shndx) = {
@@ -657,10 +665,7 @@ impl<'a> Elf<'a> {
                     .get_full(&to_idx)
                     .expect("to_idx present in symbols");
                 // Normal symbols come after special symbols and section symbols.
-                (
-                    to_idx + self.special_symbols.len() + self.sections.len(),
-                    symbol.st_shndx,
-                )
+                (to_idx + self.first_decl_symbol(), symbol.st_shndx)
             }
         };
         let (from_idx, from_shndx) = {
@@ -679,10 +684,7 @@ impl<'a> Elf<'a> {
                     .get_full(&from_idx)
                     .expect("from_idx present in symbols");
                 // Normal symbols come after special symbols and section symbols.
-                (
-                    from_idx + self.special_symbols.len() + self.sections.len(),
-                    symbol.st_shndx,
-                )
+                (from_idx + self.first_decl_symbol(), symbol.st_shndx)
             }
         };
         let (reloc, addend) = match l.reloc {
@@ -788,7 +790,7 @@ impl<'a> Elf<'a> {
         /////////////////////////////////////
         // Compute Offsets
         /////////////////////////////////////
-        let symbol_count = self.symbols.len() + self.special_symbols.len() + self.sections.len();
+        let symbol_count = self.symbols.len() + self.first_decl_symbol();
         let sizeof_symtab = symbol_count * Symbol::size(self.ctx.container);
         // This check is a bit lax, we really only need .symtab_shndx if there is a symbol
         // that has a large section index, but we currently add symbols for most sections
@@ -891,7 +893,7 @@ impl<'a> Elf<'a> {
         symtab.sh_link = 1; // we link to our strtab above
                             // FunFact: symtab.sh_info acts as a delimiter pointing to which are the "external" functions in the object file;
                             // if this isn't correct, it will segfault linkers or cause them to _sometimes_ emit garbage, ymmv
-        symtab.sh_info = (self.special_symbols.len() + self.sections.len() + self.nlocals) as u32;
+        symtab.sh_info = (self.first_decl_symbol() + self.nlocals) as u32;
         section_headers.push(symtab);
 
         /////////////////////////////////////
@@ -946,7 +948,8 @@ impl<'a> Elf<'a> {
             file.iowrite_with(sym, self.ctx)?;
             section_headers.push(section.header);
         }
-        for (_id, symbol) in self.symbols.into_iter() {
+        let decl_symbols = self.symbols.into_iter().map(|(_id, symbol)| symbol);
+        for symbol in self.section_symbols.into_iter().chain(decl_symbols) {
             debug!("Symbol: {:?}", symbol);
             let mut sym = symbol.clone();
             if need_symtab_shndx {
-- 
2.43.0


From 1b307efd44c49829a2eedcd32a670c561f2af0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:26 +0000
Subject: [PATCH 05/23] fix: ELF zero-initialized data reserves its declared
 size and alignment

---
 src/elf.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 3ac6c59..63bba32 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -322,6 +322,7 @@ impl SectionBuilder {
                 shdr.sh_type = SHT_SYMTAB_SHNDX;
             }
             SectionType::NoBits => {
+                shdr.sh_addralign = align;
                 shdr.sh_type = SHT_NOBITS;
                 // .bss is always SHF_WRITE and SHF_ALLOC
                 // TODO: warn users if self.alloc is not set
@@ -506,7 +507,11 @@ impl<'a> Elf<'a> {
     pub fn add_definition(&mut self, def: artifact::Definition<'a>) {
         let name = def.name;
         let decl = def.decl;
-        let def_size = def.data.file_size();
+        // zero-initialized data takes up memory, even though it takes up no file space
+        let def_size = match def.data {
+            Data::Blob(bytes) => bytes.len(),
+            Data::ZeroInit(size) => *size,
+        };
 
         let section_name = match (def.data, decl) {
             (Data::Blob(_), DefinedDecl::Function(_)) => format!(".text.{}", name),
-- 
2.43.0


From 766c9f339a68b858dc4eb01de5b89aa9b2a211f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 06/23] fix: an ELF artifact named like a string or symbol
 table no longer corrupts the string table

---
 src/elf.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 63bba32..636dcaf 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -445,10 +445,12 @@ impl<'a> Elf<'a> {
                 let name = name.to_owned();
                 let size = name.len() + 1;
                 let idx = strings.get_or_intern(name);
-                let offset = sizeof_strtab;
-                offsets.insert(idx, offset);
-                sizeof_strtab += size;
-                offset
+                // the artifact may be named like one of the tables
+                *offsets.entry(idx).or_insert_with(|| {
+                    let offset = sizeof_strtab;
+                    sizeof_strtab += size;
+                    offset
+                })
             };
 
             push_strtab(".strtab");
-- 
2.43.0


From 4cdbd51af6f7d1fda9bfa07f6e46a72f8065ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 07/23] fix: the ELF extended section index table is zero for
 symbols that do not use it

---
 src/elf.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 636dcaf..4795667 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -928,6 +928,14 @@ impl<'a> Elf<'a> {
         } else {
             Vec::new()
         };
+        // only the symbols marked with SHN_XINDEX have an entry there, it is zero for all others
+        let extended_index = |symbol: &Symbol| {
+            if symbol.st_shndx >= SHN_LORESERVE as usize {
+                symbol.st_shndx as u32
+            } else {
+                0
+            }
+        };
         let mut offset = 0;
         file.seek(Start(symtab_offset))?;
         for symbol in self.special_symbols.into_iter() {
@@ -936,7 +944,7 @@ impl<'a> Elf<'a> {
             // so we don't do the shn conversion here
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(symbol.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(0u32, &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for special symbols");
             }
             file.iowrite_with(symbol, self.ctx)?;
@@ -946,7 +954,7 @@ impl<'a> Elf<'a> {
             let mut sym = section.symbol.clone();
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(extended_index(&sym), &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for sections");
             }
             if sym.st_shndx >= SHN_LORESERVE as usize {
@@ -961,7 +969,7 @@ impl<'a> Elf<'a> {
             let mut sym = symbol.clone();
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(extended_index(&sym), &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for symbols");
             }
             if sym.st_shndx >= SHN_LORESERVE as usize {
-- 
2.43.0


From 9cedbdf1eaa31d46ebb7689c04774dc2c16087d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 08/23] fix: ELF custom sections get the flags of their kind

---
 src/elf.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 4795667..bb35cf7 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -8,7 +8,7 @@
 use crate::{
     artifact::{
         self, Artifact, Data, DataType, Decl, DefinedDecl, ImportKind, LinkAndDecl, Reloc, Scope,
-        Visibility,
+        SectionKind, Visibility,
     },
     target::make_ctx,
     Ctx,
@@ -545,16 +545,24 @@ impl<'a> Elf<'a> {
                 .writable(d.is_writable())
                 .exec(false)
                 .align(d.get_align()),
-            DefinedDecl::Section(d) => SectionBuilder::new(def_size as u64)
-                .section_type(
-                    // TODO: this behavior should be deprecated, but we need to warn users!
-                    if name == ".debug_str" || name == ".debug_line_str" {
-                        SectionType::String
-                    } else {
-                        Self::section_type_for_data(d.get_datatype(), def.data.is_zero_init())
-                    },
-                )
-                .align(d.get_align()),
+            DefinedDecl::Section(d) => {
+                let section = SectionBuilder::new(def_size as u64)
+                    .section_type(
+                        // TODO: this behavior should be deprecated, but we need to warn users!
+                        if name == ".debug_str" || name == ".debug_line_str" {
+                            SectionType::String
+                        } else {
+                            Self::section_type_for_data(d.get_datatype(), def.data.is_zero_init())
+                        },
+                    )
+                    .writable(d.is_writable())
+                    .exec(d.kind() == SectionKind::Text)
+                    .align(d.get_align());
+                match d.kind() {
+                    SectionKind::Data | SectionKind::Text => section.alloc(),
+                    SectionKind::Debug => section,
+                }
+            }
         };
 
         let shndx = match def.data {
-- 
2.43.0


From ef7513853d2d558ec52d5102ad94e29e58c95eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:03 +0000
Subject: [PATCH 09/23] fix: ELF sections that share a name are all emitted

---
 src/elf.rs | 51 +++++++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index bb35cf7..902f529 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -394,7 +394,7 @@ impl RelocationBuilder {
 /// An intermediate ELF object file container
 struct Elf<'a> {
     name: &'a str,
-    code: IndexMap<StringIndex, &'a [u8]>,
+    code: Vec<&'a [u8]>,
     relocations: IndexMap<StringIndex, (Section, Vec<Relocation>)>,
     symbols: IndexMap<StringIndex, Symbol>,
     special_symbols: Vec<Symbol>,
@@ -402,7 +402,10 @@ struct Elf<'a> {
     // a different namespace than the declarations
     section_symbols: Vec<Symbol>,
     imports: HashMap<StringIndex, ImportKind>,
-    sections: IndexMap<StringIndex, SectionInfo>,
+    // several sections can have the same name
+    sections: Vec<SectionInfo>,
+    // position in `sections` of each custom section
+    custom_sections: HashMap<StringIndex, usize>,
     offsets: HashMap<StringIndex, Offset>,
     sizeof_strtab: Offset,
     strings: StringInterner<StringIndex>,
@@ -468,13 +471,14 @@ impl<'a> Elf<'a> {
         let sizeof_bits = Header::size(ctx);
         Elf {
             name: &artifact.name,
-            code: IndexMap::new(),
+            code: Vec::new(),
             relocations: IndexMap::new(),
             imports: HashMap::new(),
             symbols: IndexMap::new(),
             special_symbols,
             section_symbols: Vec::new(),
-            sections: IndexMap::new(),
+            sections: Vec::new(),
+            custom_sections: HashMap::new(),
             nsections: 4,
             offsets,
             strings,
@@ -593,6 +597,8 @@ impl<'a> Elf<'a> {
                 }
             }
             DefinedDecl::Section(_) => {
+                let idx = self.strings.get_or_intern(name);
+                self.custom_sections.insert(idx, shndx - 3);
                 for (symbol, symbol_dst_offset) in def.symbols {
                     // TODO: can we move the string instead of cloning?
                     let (idx, offset) = self.new_string(symbol.clone());
@@ -615,11 +621,11 @@ impl<'a> Elf<'a> {
     }
     /// Create a progbits section (and its section symbol), and return the section index.
     fn add_progbits(&mut self, name: String, section: SectionBuilder, data: &'a [u8]) -> usize {
-        let (idx, shndx) = self.add_section(name, section);
+        let (_idx, shndx) = self.add_section(name, section);
         // increment the size
         self.sizeof_bits += data.len();
 
-        self.code.insert(idx, data);
+        self.code.push(data);
         shndx
     }
     /// Create a section (and its section symbol) and return the symbol and section indexes
@@ -639,14 +645,11 @@ impl<'a> Elf<'a> {
         let mut section = section.name_offset(offset).create(&self.ctx);
         // the offset is the head of how many program bits we've added
         section.sh_offset = self.sizeof_bits as u64;
-        self.sections.insert(
-            idx,
-            SectionInfo {
-                header: section,
-                symbol: section_symbol,
-                name: idx,
-            },
-        );
+        self.sections.push(SectionInfo {
+            header: section,
+            symbol: section_symbol,
+            name: idx,
+        });
         self.nsections += 1;
         (idx, shndx)
     }
@@ -667,9 +670,9 @@ impl<'a> Elf<'a> {
         let (to_idx, to_shndx) = {
             let to_idx = self.strings.get_or_intern(l.to.name);
             if l.to.decl.is_section() {
-                let (to_idx, _, _) = self
-                    .sections
-                    .get_full(&to_idx)
+                let to_idx = *self
+                    .custom_sections
+                    .get(&to_idx)
                     .expect("to_idx present in sections");
                 // Section symbols come after special symbols.
                 // The section index is after null + strtab + symtab.
@@ -686,9 +689,9 @@ impl<'a> Elf<'a> {
         let (from_idx, from_shndx) = {
             let from_idx = self.strings.get_or_intern(l.from.name);
             if l.from.decl.is_section() {
-                let (from_idx, _, _) = self
-                    .sections
-                    .get_full(&from_idx)
+                let from_idx = *self
+                    .custom_sections
+                    .get(&from_idx)
                     .expect("from_idx present in sections");
                 // Section symbols come after special symbols.
                 // The section index is after null + strtab + symtab.
@@ -768,9 +771,9 @@ impl<'a> Elf<'a> {
             debug!("{} does NOT have relocs", relocee);
             // now create the relocation section
             let reloc_name = {
-                let (_, section) = self
+                let section = self
                     .sections
-                    .get_index(shndx - 3)
+                    .get(shndx - 3)
                     .expect("shndx present in sections");
                 let section_name = self
                     .strings
@@ -872,7 +875,7 @@ impl<'a> Elf<'a> {
         // Code
         /////////////////////////////////////
 
-        for (_idx, bytes) in self.code.drain(..) {
+        for bytes in self.code.drain(..) {
             file.write_all(bytes)?;
         }
         let after_code = file.seek(Current(0))?;
@@ -957,7 +960,7 @@ impl<'a> Elf<'a> {
             }
             file.iowrite_with(symbol, self.ctx)?;
         }
-        for (_id, section) in self.sections.into_iter() {
+        for section in self.sections.into_iter() {
             debug!("Section Symbol: {:?}", section.symbol);
             let mut sym = section.symbol.clone();
             if need_symtab_shndx {
-- 
2.43.0


From 09d710853df0b3c3b9c29c4f4a506c7995a76366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 10/23] fix: weak Mach-O symbols are external and marked as
 weak definitions

---
 src/mach.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index d23809c..19ce9ef 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -71,6 +71,7 @@ struct SymbolBuilder {
     name: StrtableOffset,
     section: Option<SectionIndex>,
     global: bool,
+    weak: bool,
     import: bool,
     offset: u64,
     segment_relative_offset: u64,
@@ -83,6 +84,7 @@ impl SymbolBuilder {
             name,
             section: None,
             global: false,
+            weak: false,
             import: false,
             offset: 0,
             segment_relative_offset: 0,
@@ -98,6 +100,11 @@ impl SymbolBuilder {
         self.global = global;
         self
     }
+    /// Is this symbol a weak definition?
+    pub fn weak(mut self, weak: bool) -> Self {
+        self.weak = weak;
+        self
+    }
     pub fn offset(mut self, offset: u64) -> Self {
         self.offset = offset;
         self
@@ -118,12 +125,12 @@ impl SymbolBuilder {
     }
     /// Finalize and create the symbol
     pub fn create(self) -> Nlist {
-        use goblin::mach::symbols::{NO_SECT, N_EXT, N_SECT, N_UNDF};
+        use goblin::mach::symbols::{NO_SECT, N_EXT, N_SECT, N_UNDF, N_WEAK_DEF};
         let n_strx = self.name;
         let mut n_sect = 0;
         let mut n_type = N_UNDF;
         let mut n_value = self.offset;
-        let n_desc = 0;
+        let n_desc = if self.weak { N_WEAK_DEF } else { 0 };
         if self.global {
             n_type |= N_EXT;
         } else {
@@ -329,6 +336,7 @@ enum SymbolType {
         absolute_offset: u64,
         segment_relative_offset: u64,
         global: bool,
+        weak: bool,
     },
     /// An undefined symbol (an import)
     Undefined,
@@ -393,9 +401,11 @@ impl SymbolTable {
                     section,
                     absolute_offset,
                     global,
+                    weak,
                     segment_relative_offset,
                 } => SymbolBuilder::new(self.strtable_size)
                     .global(global)
+                    .weak(weak)
                     .offset(absolute_offset)
                     .relative_offset(segment_relative_offset)
                     .section(section),
@@ -465,7 +475,9 @@ impl SegmentBuilder {
                     section,
                     segment_relative_offset: section_relative_offset,
                     absolute_offset: *symbol_offset,
-                    global: def.decl.is_global(),
+                    // weak definitions are visible to other objects too
+                    global: !def.decl.is_local(),
+                    weak: !def.decl.is_local() && !def.decl.is_global(),
                 },
             );
             *symbol_offset += def.data.file_size() as u64;
@@ -545,6 +557,7 @@ impl SegmentBuilder {
                     segment_relative_offset: *symbol_dst_offset,
                     absolute_offset: *symbol_offset + *symbol_dst_offset,
                     global: true,
+                    weak: false,
                 },
             );
         }
-- 
2.43.0


From 38462c7eb5284ec96744dde30cab30a8fab1435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:39 +0000
Subject: [PATCH 11/23] fix: Mach-O custom sections named like a built-in
 section no longer replace it

---
 src/mach.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 19ce9ef..1d0b73d 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -424,7 +424,9 @@ impl SymbolTable {
 /// A Mach-o program segment
 struct SegmentBuilder {
     /// The sections that belong to this program segment
-    pub sections: IndexMap<String, SectionBuilder>,
+    pub sections: Vec<SectionBuilder>,
+    /// The positions of the custom sections in `sections`, by the name of their definition
+    custom_sections: HashMap<String, SectionIndex>,
     /// A stupid offset value I need to refactor out
     pub offset: u64,
     size: u64,
@@ -450,7 +452,7 @@ impl SegmentBuilder {
         symtab: &mut SymbolTable,
         sectname: &'static str,
         segname: &'static str,
-        sections: &mut IndexMap<String, SectionBuilder>,
+        sections: &mut Vec<SectionBuilder>,
         offset: &mut u64,
         addr: &mut u64,
         symbol_offset: &mut u64,
@@ -515,11 +517,11 @@ impl SegmentBuilder {
         }
         *offset += local_size;
         *addr += local_size;
-        sections.insert(sectname.to_string(), section);
+        sections.push(section);
     }
     fn build_custom_section(
         symtab: &mut SymbolTable,
-        sections: &mut IndexMap<String, SectionBuilder>,
+        sections: &mut Vec<SectionBuilder>,
         offset: &mut u64,
         addr: &mut u64,
         symbol_offset: &mut u64,
@@ -571,7 +573,7 @@ impl SegmentBuilder {
             .flags(flags);
         *offset += local_size;
         *addr += local_size;
-        sections.insert(def.name.to_string(), section);
+        sections.push(section);
     }
     /// Create a new program segment from an `artifact`, symbol table, and context
     // FIXME: this is pub(crate) for now because we can't leak pub(crate) Definition
@@ -588,7 +590,8 @@ impl SegmentBuilder {
         let mut offset = Header::size_with(&ctx.container) as u64;
         let mut size = 0;
         let mut symbol_offset = 0;
-        let mut sections = IndexMap::new();
+        let mut sections = Vec::new();
+        let mut custom_section_indexes = HashMap::new();
         let mut align_pad_map = HashMap::new();
 
         Self::build_section(
@@ -648,6 +651,7 @@ impl SegmentBuilder {
             &mut align_pad_map,
         );
         for (idx, def) in custom_sections.iter().enumerate() {
+            custom_section_indexes.insert(def.name.to_string(), idx + NUM_DEFAULT_SECTIONS);
             Self::build_custom_section(
                 symtab,
                 &mut sections,
@@ -670,6 +674,7 @@ impl SegmentBuilder {
         SegmentBuilder {
             size,
             sections,
+            custom_sections: custom_section_indexes,
             offset,
             align_pad_map,
         }
@@ -781,7 +786,7 @@ impl<'a> Mach<'a> {
         let mut raw_sections = Cursor::new(Vec::<u8>::new());
         let mut relocation_offset = relocation_offset_start;
         let mut section_offset = first_section_offset;
-        for section in self.segment.sections.values() {
+        for section in self.segment.sections.iter() {
             let header = section.create(&mut section_offset, &mut relocation_offset);
             debug!("Section: {:#?}", header);
             raw_sections.iowrite_with(header, self.ctx)?;
@@ -938,7 +943,7 @@ impl<'a> Mach<'a> {
         //////////////////////////////
         // write relocations
         //////////////////////////////
-        for section in self.segment.sections.values() {
+        for section in self.segment.sections.iter() {
             debug!("Relocations: {}", section.relocations.len());
             for reloc in section.relocations.iter().cloned() {
                 debug!("  {:?}", reloc);
@@ -959,8 +964,8 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
         R_ABS, X86_64_RELOC_BRANCH, X86_64_RELOC_GOT_LOAD, X86_64_RELOC_SIGNED,
         X86_64_RELOC_UNSIGNED,
     };
-    let text_idx = segment.sections.get_full("__text").unwrap().0;
-    let data_idx = segment.sections.get_full("__data").unwrap().0;
+    let text_idx = CODE_SECTION_INDEX;
+    let data_idx = DATA_SECTION_INDEX;
     debug!("Generating relocations");
     for link in artifact.links() {
         debug!(
@@ -1026,7 +1031,7 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                     match symtab.index(link.to.name) {
                         Some(to_symbol_index) => {
                             let builder = RelocationBuilder::new(to_symbol_index, link.at, X86_64_RELOC_UNSIGNED).absolute().size(size);
-                            segment.sections[link.from.name].relocations.push(builder.create());
+                            segment.sections[segment.custom_sections[link.from.name]].relocations.push(builder.create());
                         }
                         _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
                     }
@@ -1041,9 +1046,9 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 // NB: we currently associate absolute relocations with data relocations; this may prove
                 // too fragile for future additions; needs analysis
                 if absolute {
-                    segment.sections.get_index_mut(data_idx).unwrap().1.relocations.push(builder.absolute().create());
+                    segment.sections[data_idx].relocations.push(builder.absolute().create());
                 } else {
-                    segment.sections.get_index_mut(text_idx).unwrap().1.relocations.push(builder.create());
+                    segment.sections[text_idx].relocations.push(builder.create());
                 }
             },
             _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
-- 
2.43.0


From 0af284f50cd6499049bb1d935840526aacebcc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:37 +0000
Subject: [PATCH 12/23] fix: Mach-O relocations go to the section that holds
 the source of the link

---
 src/mach.rs | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 1d0b73d..1e9469e 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -114,9 +114,10 @@ impl SymbolBuilder {
         self.segment_relative_offset = relative_offset;
         self
     }
-    /// Returns the offset of this symbol relative to the segment it is apart of
-    pub fn get_segment_relative_offset(&self) -> u64 {
-        self.segment_relative_offset
+    /// Returns the section this symbol belongs to and its offset relative to the start of it
+    pub fn get_section_and_offset(&self) -> Option<(SectionIndex, u64)> {
+        self.section
+            .map(|section| (section, self.segment_relative_offset))
     }
     /// Is this symbol an import?
     pub fn import(mut self) -> Self {
@@ -363,12 +364,12 @@ impl SymbolTable {
     pub fn sizeof_strtable(&self) -> u64 {
         self.strtable_size
     }
-    /// Lookup this symbols offset in the segment
-    pub fn offset(&self, symbol_name: &str) -> Option<u64> {
+    /// Lookup this symbols section and its offset in there
+    pub fn section_and_offset(&self, symbol_name: &str) -> Option<(SectionIndex, u64)> {
         self.strtable
             .get(symbol_name)
             .and_then(|idx| self.symbols.get(&idx))
-            .and_then(|sym| Some(sym.get_segment_relative_offset()))
+            .and_then(|sym| sym.get_section_and_offset())
     }
     /// Lookup this symbols ordinal index in the symbol table, if it has one
     pub fn index(&self, symbol_name: &str) -> Option<SymbolIndex> {
@@ -964,14 +965,18 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
         R_ABS, X86_64_RELOC_BRANCH, X86_64_RELOC_GOT_LOAD, X86_64_RELOC_SIGNED,
         X86_64_RELOC_UNSIGNED,
     };
-    let text_idx = CODE_SECTION_INDEX;
-    let data_idx = DATA_SECTION_INDEX;
     debug!("Generating relocations");
     for link in artifact.links() {
         debug!(
             "Import links for: from {} to {} at {:#x} with {:?}",
             link.from.name, link.to.name, link.at, link.reloc
         );
+        // the section that holds the source of this link, and where in the section the source is
+        let from = if link.from.decl.is_section() {
+            Some((segment.custom_sections[link.from.name], 0))
+        } else {
+            symtab.section_and_offset(link.from.name)
+        };
         let (absolute, reloc) = match link.reloc {
             Reloc::Auto => {
                 // NB: we currently deduce the meaning of our relocation from from decls -> to decl relocations
@@ -1028,10 +1033,10 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 if link.to.decl.is_section() {
                     // TODO: not sure if these are needed for Mach
                 } else {
-                    match symtab.index(link.to.name) {
-                        Some(to_symbol_index) => {
-                            let builder = RelocationBuilder::new(to_symbol_index, link.at, X86_64_RELOC_UNSIGNED).absolute().size(size);
-                            segment.sections[segment.custom_sections[link.from.name]].relocations.push(builder.create());
+                    match (from, symtab.index(link.to.name)) {
+                        (Some((from_section, base_offset)), Some(to_symbol_index)) => {
+                            let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, X86_64_RELOC_UNSIGNED).absolute().size(size);
+                            segment.sections[from_section].relocations.push(builder.create());
                         }
                         _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
                     }
@@ -1039,17 +1044,12 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 continue;
             }
         };
-        match (symtab.offset(link.from.name), symtab.index(link.to.name)) {
-            (Some(base_offset), Some(to_symbol_index)) => {
+        match (from, symtab.index(link.to.name)) {
+            (Some((from_section, base_offset)), Some(to_symbol_index)) => {
                 debug!("{} offset: {}", link.to.name, base_offset + link.at);
                 let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
-                // NB: we currently associate absolute relocations with data relocations; this may prove
-                // too fragile for future additions; needs analysis
-                if absolute {
-                    segment.sections[data_idx].relocations.push(builder.absolute().create());
-                } else {
-                    segment.sections[text_idx].relocations.push(builder.create());
-                }
+                let builder = if absolute { builder.absolute() } else { builder };
+                segment.sections[from_section].relocations.push(builder.create());
             },
             _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
         }
-- 
2.43.0


From ddf5c38c185d005a33c305d8e74bd393bf0091d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 13/23] fix: Mach-O symbols with an empty or a shared name are
 no longer dropped

---
 src/mach.rs | 72 +++++++++++++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 33 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 1e9469e..51ef371 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -305,13 +305,16 @@ type ArtifactData<'a> = Vec<Definition<'a>>;
 
 type StrTableIndex = usize;
 type StrTable = StringInterner<StrTableIndex>;
-type Symbols = IndexMap<StrTableIndex, SymbolBuilder>;
+type Symbols = Vec<SymbolBuilder>;
 
 /// A mach object symbol table
 #[derive(Debug)]
 struct SymbolTable {
     symbols: Symbols,
     strtable: StrTable,
+    // where each string of `strtable` starts in the file's string table
+    strtable_offsets: Vec<StrtableOffset>,
+    // the symbols of declarations; symbols in custom sections are not looked up by name
     indexes: IndexMap<StrTableIndex, SymbolIndex>,
     strtable_size: StrtableOffset,
 }
@@ -322,6 +325,7 @@ impl Default for SymbolTable {
         Self {
             symbols: Symbols::default(),
             strtable: StrTable::new(),
+            strtable_offsets: Vec::new(),
             indexes: IndexMap::default(),
             strtable_size: StrtableOffset::default(),
         }
@@ -346,12 +350,12 @@ enum SymbolType {
 impl SymbolTable {
     /// Create a new symbol table. The first strtable entry (like ELF) is always nothing
     pub fn new() -> Self {
-        let mut strtable = StrTable::new();
-        strtable.get_or_intern("");
+        let strtable = StrTable::new();
         let strtable_size = 1;
         SymbolTable {
             symbols: Symbols::new(),
             strtable,
+            strtable_offsets: Vec::new(),
             strtable_size,
             indexes: IndexMap::new(),
         }
@@ -366,10 +370,8 @@ impl SymbolTable {
     }
     /// Lookup this symbols section and its offset in there
     pub fn section_and_offset(&self, symbol_name: &str) -> Option<(SectionIndex, u64)> {
-        self.strtable
-            .get(symbol_name)
-            .and_then(|idx| self.symbols.get(&idx))
-            .and_then(|sym| sym.get_section_and_offset())
+        self.index(symbol_name)
+            .and_then(|idx| self.symbols[idx].get_section_and_offset())
     }
     /// Lookup this symbols ordinal index in the symbol table, if it has one
     pub fn index(&self, symbol_name: &str) -> Option<SymbolIndex> {
@@ -377,8 +379,14 @@ impl SymbolTable {
             .get(symbol_name)
             .and_then(|idx| self.indexes.get(&idx).cloned())
     }
-    /// Insert a new symbol into this objects symbol table
+    /// Insert the symbol of a declaration into this objects symbol table
     pub fn insert(&mut self, symbol_name: &str, kind: SymbolType) {
+        let name_index = self.push(symbol_name, kind);
+        // now create the symbols index, and using strtab name as lookup
+        self.indexes.insert(name_index, self.symbols.len() - 1);
+    }
+    /// Append a symbol to this objects symbol table
+    pub fn push(&mut self, symbol_name: &str, kind: SymbolType) -> StrTableIndex {
         // mach-o requires _ prefixes on every symbol, we will allow this to be configurable later
         //let name = format!("_{}", symbol_name);
         let name = symbol_name;
@@ -393,31 +401,29 @@ impl SymbolTable {
                 "Inserting new symbol: {}",
                 self.strtable.resolve(name_index).unwrap()
             );
-            // TODO: add code offset into symbol n_value
-            let builder = match kind {
-                SymbolType::Undefined => {
-                    SymbolBuilder::new(self.strtable_size).global(true).import()
-                }
-                SymbolType::Defined {
-                    section,
-                    absolute_offset,
-                    global,
-                    weak,
-                    segment_relative_offset,
-                } => SymbolBuilder::new(self.strtable_size)
-                    .global(global)
-                    .weak(weak)
-                    .offset(absolute_offset)
-                    .relative_offset(segment_relative_offset)
-                    .section(section),
-            };
-            // insert the builder for this symbol, using its strtab index
-            self.symbols.insert(name_index, builder);
-            // now create the symbols index, and using strtab name as lookup
-            self.indexes.insert(name_index, self.symbols.len() - 1);
+            self.strtable_offsets.push(self.strtable_size);
             // NB do not move this, otherwise all offsets will be off
             self.strtable_size += name_len;
         }
+        let name_offset = self.strtable_offsets[name_index];
+        // TODO: add code offset into symbol n_value
+        let builder = match kind {
+            SymbolType::Undefined => SymbolBuilder::new(name_offset).global(true).import(),
+            SymbolType::Defined {
+                section,
+                absolute_offset,
+                global,
+                weak,
+                segment_relative_offset,
+            } => SymbolBuilder::new(name_offset)
+                .global(global)
+                .weak(weak)
+                .offset(absolute_offset)
+                .relative_offset(segment_relative_offset)
+                .section(section),
+        };
+        self.symbols.push(builder);
+        name_index
     }
 }
 
@@ -553,7 +559,7 @@ impl SegmentBuilder {
         }
 
         for (symbol, symbol_dst_offset) in def.symbols {
-            symtab.insert(
+            symtab.push(
                 symbol,
                 SymbolType::Defined {
                     section: section_idx,
@@ -920,7 +926,7 @@ impl<'a> Mach<'a> {
         //////////////////////////////
         // write symtable
         //////////////////////////////
-        for (idx, symbol) in self.symtab.symbols.into_iter() {
+        for (idx, symbol) in self.symtab.symbols.into_iter().enumerate() {
             let symbol = symbol.create();
             debug!("{}: {:?}", idx, symbol);
             file.iowrite_with(symbol, self.ctx)?;
@@ -932,7 +938,7 @@ impl<'a> Mach<'a> {
         //////////////////////////////
         // we need to write first, empty element - but without an underscore
         file.iowrite(0u8)?;
-        for (idx, string) in self.symtab.strtable.into_iter().skip(1) {
+        for (idx, string) in self.symtab.strtable.into_iter() {
             debug!("{}: {:?}", idx, string);
             // yup, an underscore
             file.iowrite(0x5fu8)?;
-- 
2.43.0


From fabbf295c5e7266416a08d011031e5b97f5f176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 14/23] fix: Mach-O sections honour the alignment of their
 first definition

---
 src/mach.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mach.rs b/src/mach.rs
index 51ef371..0a419b6 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -478,6 +478,11 @@ impl SegmentBuilder {
                 unreachable!();
             }
 
+            alignment_exponent = std::cmp::max(
+                alignment_exponent,
+                align_to_align_exp(def.decl.get_align().unwrap_or(1)),
+            );
+
             symtab.insert(
                 def.name,
                 SymbolType::Defined {
-- 
2.43.0


From 37d3b572b7c4f06d1563e3025c8a7d5f751878af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 15/23] fix: Mach-O zero-initialized data reserves its declared
 size

---
 src/mach.rs | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 0a419b6..6717d4d 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -270,6 +270,10 @@ impl SectionBuilder {
         self.flags = flags;
         self
     }
+    /// Whether this section has no contents in the file
+    pub fn is_zerofill(&self) -> bool {
+        self.flags == S_ZEROFILL
+    }
     /// Finalize and create the actual Mach-o section
     pub fn create(&self, section_offset: &mut u64, relocation_offset: &mut u64) -> Section {
         let mut sectname = [0u8; 16];
@@ -289,7 +293,9 @@ impl SectionBuilder {
             flags: self.flags,
         };
         section.offset = *section_offset as u32;
-        *section_offset += section.size;
+        if !self.is_zerofill() {
+            *section_offset += section.size;
+        }
         if !self.relocations.is_empty() {
             let nrelocs = self.relocations.len();
             section.nreloc = nrelocs as _;
@@ -445,6 +451,14 @@ impl SegmentBuilder {
     pub fn size(&self) -> u64 {
         self.size
     }
+    /// The size of this segment's _data_ in the file, in bytes
+    pub fn file_size(&self) -> u64 {
+        let sections = self.sections.iter();
+        sections
+            .filter(|section| !section.is_zerofill())
+            .map(|section| section.size)
+            .sum()
+    }
     /// The size of this segment's _load command_, including its associated sections, in bytes
     pub fn load_command_size(&self, ctx: &Ctx) -> u64 {
         Segment::size_with(&ctx) as u64
@@ -494,9 +508,14 @@ impl SegmentBuilder {
                     weak: !def.decl.is_local() && !def.decl.is_global(),
                 },
             );
-            *symbol_offset += def.data.file_size() as u64;
-            section_relative_offset += def.data.file_size() as u64;
-            local_size += def.data.file_size() as u64;
+            // zero-initialized data takes up memory, even though it takes up no file space
+            let def_size = match def.data {
+                Data::Blob(bytes) => bytes.len() as u64,
+                Data::ZeroInit(size) => *size as u64,
+            };
+            *symbol_offset += def_size;
+            section_relative_offset += def_size;
+            local_size += def_size;
 
             let next_def_alignment_exponent = std::cmp::max(
                 min_alignment_exponent,
@@ -527,7 +546,9 @@ impl SegmentBuilder {
         if let Some(flags) = flags {
             section = section.flags(flags);
         }
-        *offset += local_size;
+        if !section.is_zerofill() {
+            *offset += local_size;
+        }
         *addr += local_size;
         sections.push(section);
     }
@@ -702,7 +723,6 @@ struct Mach<'a> {
     segment: SegmentBuilder,
     code: ArtifactCode<'a>,
     data: ArtifactData<'a>,
-    bss_size: usize,
     cstrings: Vec<Definition<'a>>,
     sections: Vec<Definition<'a>>,
     _p: ::std::marker::PhantomData<&'a ()>,
@@ -712,13 +732,12 @@ impl<'a> Mach<'a> {
     pub fn new(artifact: &'a Artifact) -> Self {
         let ctx = make_ctx(&artifact.target);
         // FIXME: I believe we can avoid this partition by refactoring SegmentBuilder::new
-        let (mut code, mut data, mut bss, mut cstrings, mut sections, mut bss_size) = (
+        let (mut code, mut data, mut bss, mut cstrings, mut sections) = (
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
-            0,
         );
         for def in artifact.definitions() {
             match def.decl {
@@ -726,9 +745,8 @@ impl<'a> Mach<'a> {
                     code.push(def);
                 }
                 DefinedDecl::Data(d) => {
-                    if let Data::ZeroInit(size) = def.data {
+                    if def.data.is_zero_init() {
                         bss.push(def);
-                        bss_size += size;
                     } else if d.get_datatype() == DataType::String {
                         cstrings.push(def);
                     } else {
@@ -762,7 +780,6 @@ impl<'a> Mach<'a> {
             _p: ::std::marker::PhantomData::default(),
             code,
             data,
-            bss_size,
             cstrings,
             sections,
         }
@@ -817,9 +834,9 @@ impl<'a> Mach<'a> {
         // FIXME: de-magic number these
         segment_load_command.initprot = 7;
         segment_load_command.maxprot = 7;
-        segment_load_command.filesize = self.segment.size();
+        segment_load_command.filesize = self.segment.file_size();
         // segment size, with __bss data sizes added
-        segment_load_command.vmsize = segment_load_command.filesize + self.bss_size as u64;
+        segment_load_command.vmsize = self.segment.size();
         segment_load_command.fileoff = first_section_offset;
         debug!("Segment: {:#?}", segment_load_command);
 
-- 
2.43.0


From d3038e74288bb6eadbab9aeeea653eb1ae53c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:16 +0000
Subject: [PATCH 16/23] fix: Mach-O section addresses are multiples of the
 section alignment

---
 src/mach.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 6717d4d..a270fae 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -56,6 +56,15 @@ fn align_to_align_exp(align: u64) -> u64 {
     align_exp
 }
 
+/// Round `addr` up to the next multiple of the alignment
+fn align_address(addr: &mut u64, align_exp: u64) {
+    let align = 1 << align_exp;
+    let misalignment = *addr % align;
+    if misalignment != 0 {
+        *addr += align - misalignment;
+    }
+}
+
 type SectionIndex = usize;
 type StrtableOffset = u64;
 
@@ -486,17 +495,20 @@ impl SegmentBuilder {
         let mut local_size = 0;
         let mut section_relative_offset = 0;
         let mut alignment_exponent = min_alignment_exponent;
+        for def in definitions {
+            alignment_exponent = std::cmp::max(
+                alignment_exponent,
+                align_to_align_exp(def.decl.get_align().unwrap_or(1)),
+            );
+        }
+        align_address(addr, alignment_exponent);
+        *symbol_offset = *addr;
         let mut def_iter = definitions.iter().peekable();
         while let Some(def) = def_iter.next() {
             if let DefinedDecl::Section { .. } = def.decl {
                 unreachable!();
             }
 
-            alignment_exponent = std::cmp::max(
-                alignment_exponent,
-                align_to_align_exp(def.decl.get_align().unwrap_or(1)),
-            );
-
             symtab.insert(
                 def.name,
                 SymbolType::Defined {
@@ -584,6 +596,10 @@ impl SegmentBuilder {
             flags |= S_ATTR_DEBUG;
         }
 
+        let alignment_exponent = align_to_align_exp(s.get_align().unwrap_or(1));
+        align_address(addr, alignment_exponent);
+        *symbol_offset = *addr;
+
         for (symbol, symbol_dst_offset) in def.symbols {
             symtab.push(
                 symbol,
@@ -602,7 +618,7 @@ impl SegmentBuilder {
         let section = SectionBuilder::new(sectname, segment_name, local_size)
             .offset(*offset)
             .addr(*addr)
-            .align(align_to_align_exp(s.get_align().unwrap_or(1)))
+            .align(alignment_exponent)
             .flags(flags);
         *offset += local_size;
         *addr += local_size;
-- 
2.43.0


From 1156c99e4ca36d27b1c67c87fe491a22719b8d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 17/23] fix: a Mach-O section name that does not fit is an
 error instead of a panic

---
 src/mach.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index a270fae..2025238 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -284,9 +284,18 @@ impl SectionBuilder {
         self.flags == S_ZEROFILL
     }
     /// Finalize and create the actual Mach-o section
-    pub fn create(&self, section_offset: &mut u64, relocation_offset: &mut u64) -> Section {
+    pub fn create(
+        &self,
+        section_offset: &mut u64,
+        relocation_offset: &mut u64,
+    ) -> Result<Section, std::io::Error> {
         let mut sectname = [0u8; 16];
-        sectname.pwrite(&*self.sectname, 0).unwrap();
+        sectname.pwrite(&*self.sectname, 0).map_err(|_| {
+            std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!("Mach-O section name too long: {}", self.sectname),
+            )
+        })?;
         let mut segname = [0u8; 16];
         segname.pwrite(self.segname, 0).unwrap();
         let mut section = Section {
@@ -311,7 +320,7 @@ impl SectionBuilder {
             section.reloff = *relocation_offset as u32;
             *relocation_offset += nrelocs as u64 * SIZEOF_RELOCATION_INFO as u64;
         }
-        section
+        Ok(section)
     }
 }
 
@@ -832,7 +841,7 @@ impl<'a> Mach<'a> {
         let mut relocation_offset = relocation_offset_start;
         let mut section_offset = first_section_offset;
         for section in self.segment.sections.iter() {
-            let header = section.create(&mut section_offset, &mut relocation_offset);
+            let header = section.create(&mut section_offset, &mut relocation_offset)?;
             debug!("Section: {:#?}", header);
             raw_sections.iowrite_with(header, self.ctx)?;
         }
-- 
2.43.0


From 8d99d34c286ff82a7c0cce0733471ef455cafc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:20 +0000
Subject: [PATCH 18/23] fix: a Mach-O object with more sections than can be
 numbered is an error

---
 src/mach.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mach.rs b/src/mach.rs
index 2025238..d415097 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -73,6 +73,8 @@ const DATA_SECTION_INDEX: SectionIndex = 1;
 const CSTRING_SECTION_INDEX: SectionIndex = 2;
 const BSS_SECTION_INDEX: SectionIndex = 3;
 const NUM_DEFAULT_SECTIONS: SectionIndex = 4;
+/// Section ordinals are one byte, and zero means no section
+const MAX_SECTIONS: usize = 255;
 
 /// A builder for creating a 32/64 bit Mach-o Nlist symbol
 #[derive(Debug)]
@@ -821,6 +823,16 @@ impl<'a> Mach<'a> {
         header
     }
     pub fn write<T: Write + Seek>(self, file: T) -> Result<(), std::io::Error> {
+        // symbols refer to their section by a one byte ordinal
+        if self.segment.sections.len() > MAX_SECTIONS {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!(
+                    "too many sections for Mach-O: {}",
+                    self.segment.sections.len()
+                ),
+            ));
+        }
         let mut file = BufWriter::new(file);
         // FIXME: this is ugly af, need cmdsize to get symtable offset
         // construct symtab command
-- 
2.43.0


From 5bfbac8d3d83be4e61f97c072a45dd1a93e4052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:45 +0000
Subject: [PATCH 19/23] fix: values that do not fit a 32-bit ELF object are an
 error instead of being truncated

---
 src/elf.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 902f529..7b65945 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -801,7 +801,35 @@ impl<'a> Elf<'a> {
             *offset += sizeof_t - alignment;
         }
     }
+    /// A 32-bit object has no room for larger values: refuse them instead of truncating them
+    fn check_class(&self) -> goblin::error::Result<()> {
+        if self.ctx.is_big() {
+            return Ok(());
+        }
+        let max = u64::from(u32::max_value());
+        let sections = self
+            .sections
+            .iter()
+            .all(|s| s.header.sh_size <= max && s.header.sh_addralign <= max);
+        let symbols = self
+            .symbols
+            .values()
+            .chain(self.section_symbols.iter())
+            .all(|s| s.st_value <= max && s.st_size <= max);
+        let relocations = self
+            .relocations
+            .values()
+            .flat_map(|(_, relocs)| relocs.iter())
+            .all(|r| r.r_offset <= max && r.r_type <= u32::from(u8::max_value()));
+        if sections && symbols && relocations {
+            Ok(())
+        } else {
+            let message = "a size, offset, alignment or relocation type does not fit 32-bit ELF";
+            Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, message).into())
+        }
+    }
     pub fn write<T: Write + Seek>(mut self, file: T) -> goblin::error::Result<()> {
+        self.check_class()?;
         use goblin::elf::section_header::{SHN_LORESERVE, SHN_XINDEX};
         let mut file = BufWriter::new(file);
 
-- 
2.43.0


From 58c6b17e89dab26a44852d262014f6c86d734c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:43 +0000
Subject: [PATCH 20/23] fix: Mach-O relocation offsets and types that do not
 fit are an error instead of being truncated

---
 src/mach.rs | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index d415097..f7c319f 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -207,7 +207,16 @@ impl RelocationBuilder {
         self
     }
     /// Finalize and create the relocation
-    pub fn create(self) -> RelocationInfo {
+    pub fn create(self) -> Result<RelocationInfo, std::io::Error> {
+        if self.relocation_offset > i32::max_value() as u64 || self.r_type > 0xf {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!(
+                    "Mach-O relocation out of range: type {} at {:#x}",
+                    self.r_type, self.relocation_offset
+                ),
+            ));
+        }
         // it basically goes sort of backwards than what you'd expect because C bitfields are bonkers
         let r_symbolnum: u32 = self.symbol as u32;
         let r_pcrel: u32 = if self.absolute { 0 } else { 1 } << 24;
@@ -227,10 +236,10 @@ impl RelocationBuilder {
         let r_type = (self.r_type as u32) << 28;
         // r_symbolnum, 24 bits, r_pcrel 1 bit, r_length 2 bits, r_extern 1 bit, r_type 4 bits
         let r_info = r_symbolnum | r_pcrel | r_length | r_extern | r_type;
-        RelocationInfo {
+        Ok(RelocationInfo {
             r_address: self.relocation_offset as i32,
             r_info,
-        }
+        })
     }
 }
 
@@ -756,7 +765,7 @@ struct Mach<'a> {
 }
 
 impl<'a> Mach<'a> {
-    pub fn new(artifact: &'a Artifact) -> Self {
+    pub fn new(artifact: &'a Artifact) -> Result<Self, std::io::Error> {
         let ctx = make_ctx(&artifact.target);
         // FIXME: I believe we can avoid this partition by refactoring SegmentBuilder::new
         let (mut code, mut data, mut bss, mut cstrings, mut sections) = (
@@ -797,9 +806,9 @@ impl<'a> Mach<'a> {
             &mut symtab,
             &ctx,
         );
-        build_relocations(&mut segment, &artifact, &symtab);
+        build_relocations(&mut segment, &artifact, &symtab)?;
 
-        Mach {
+        Ok(Mach {
             ctx,
             architecture: artifact.target.architecture,
             symtab,
@@ -809,7 +818,7 @@ impl<'a> Mach<'a> {
             data,
             cstrings,
             sections,
-        }
+        })
     }
     fn header(&self, sizeofcmds: u64) -> Header {
         let mut header = Header::new(self.ctx);
@@ -1025,7 +1034,11 @@ impl<'a> Mach<'a> {
 }
 
 // FIXME: this should actually return a runtime error if we encounter a from.decl to.decl pair which we don't explicitly match on
-fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab: &SymbolTable) {
+fn build_relocations(
+    segment: &mut SegmentBuilder,
+    artifact: &Artifact,
+    symtab: &SymbolTable,
+) -> Result<(), std::io::Error> {
     use goblin::mach::relocation::{
         R_ABS, X86_64_RELOC_BRANCH, X86_64_RELOC_GOT_LOAD, X86_64_RELOC_SIGNED,
         X86_64_RELOC_UNSIGNED,
@@ -1087,9 +1100,8 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 }
             }
             Reloc::Raw { reloc, addend } => {
-                debug_assert!(reloc <= u8::max_value() as u32);
                 assert!(addend == 0);
-                match reloc as u8 {
+                match std::cmp::min(reloc, u32::from(u8::max_value())) as u8 {
                     R_ABS => (true, R_ABS),
                     reloc => (false, reloc),
                 }
@@ -1100,8 +1112,8 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 } else {
                     match (from, symtab.index(link.to.name)) {
                         (Some((from_section, base_offset)), Some(to_symbol_index)) => {
-                            let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, X86_64_RELOC_UNSIGNED).absolute().size(size);
-                            segment.sections[from_section].relocations.push(builder.create());
+                            let builder = RelocationBuilder::new(to_symbol_index, base_offset.saturating_add(link.at), X86_64_RELOC_UNSIGNED).absolute().size(size);
+                            segment.sections[from_section].relocations.push(builder.create()?);
                         }
                         _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
                     }
@@ -1111,18 +1123,19 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
         };
         match (from, symtab.index(link.to.name)) {
             (Some((from_section, base_offset)), Some(to_symbol_index)) => {
-                debug!("{} offset: {}", link.to.name, base_offset + link.at);
-                let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
+                debug!("{} offset: {}", link.to.name, base_offset.saturating_add(link.at));
+                let builder = RelocationBuilder::new(to_symbol_index, base_offset.saturating_add(link.at), reloc);
                 let builder = if absolute { builder.absolute() } else { builder };
-                segment.sections[from_section].relocations.push(builder.create());
+                segment.sections[from_section].relocations.push(builder.create()?);
             },
             _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
         }
     }
+    Ok(())
 }
 
 pub fn to_bytes(artifact: &Artifact) -> Result<Vec<u8>, std::io::Error> {
-    let mach = Mach::new(&artifact);
+    let mach = Mach::new(&artifact)?;
     let mut buffer = Cursor::new(Vec::new());
     mach.write(&mut buffer)?;
     Ok(buffer.into_inner())
-- 
2.43.0


From 3315f606f33e468164e94b65c707ad0e25c60d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:01 +0000
Subject: [PATCH 21/23] fix: Mach-O addresses that do not fit are an error
 instead of wrapping

---
 src/mach.rs | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/mach.rs b/src/mach.rs
index f7c319f..919e801 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -842,6 +842,16 @@ impl<'a> Mach<'a> {
                 ),
             ));
         }
+        // a 32-bit object has no room for larger addresses
+        let max = u64::from(u32::max_value());
+        if !self.ctx.is_big()
+            && (self.segment.size() > max || self.symtab.symbols.iter().any(|s| s.offset > max))
+        {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "an address does not fit 32-bit Mach-O",
+            ));
+        }
         let mut file = BufWriter::new(file);
         // FIXME: this is ugly af, need cmdsize to get symtable offset
         // construct symtab command
@@ -1033,6 +1043,37 @@ impl<'a> Mach<'a> {
     }
 }
 
+/// Addresses must not wrap: refuse definitions and symbols beyond the end of the address space
+fn check_addresses(artifact: &Artifact) -> Result<(), std::io::Error> {
+    // room for every definition with its padding, and for the farthest symbol
+    let mut end = Some(0u64);
+    let mut farthest = 0;
+    for def in artifact.definitions() {
+        let size = match def.data {
+            Data::Blob(bytes) => bytes.len() as u64,
+            Data::ZeroInit(size) => *size as u64,
+        };
+        let align = std::cmp::max(def.decl.get_align().unwrap_or(1), 16);
+        // the alignment of a definition may also move the start of its section
+        let padding = if def.decl.is_section() {
+            Some(align)
+        } else {
+            align.checked_mul(2)
+        };
+        end = end
+            .and_then(|end| end.checked_add(size))
+            .and_then(|end| padding.and_then(|padding| end.checked_add(padding)));
+        farthest = std::cmp::max(farthest, def.symbols.values().cloned().max().unwrap_or(0));
+    }
+    match end.and_then(|end| end.checked_add(farthest)) {
+        Some(_) => Ok(()),
+        None => Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "definitions do not fit the address space",
+        )),
+    }
+}
+
 // FIXME: this should actually return a runtime error if we encounter a from.decl to.decl pair which we don't explicitly match on
 fn build_relocations(
     segment: &mut SegmentBuilder,
@@ -1135,6 +1176,7 @@ fn build_relocations(
 }
 
 pub fn to_bytes(artifact: &Artifact) -> Result<Vec<u8>, std::io::Error> {
+    check_addresses(&artifact)?;
     let mach = Mach::new(&artifact)?;
     let mut buffer = Cursor::new(Vec::new());
     mach.write(&mut buffer)?;
-- 
2.43.0


From 829a707465d0f7cd2ca9b4e2512eaf21355c26c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:44 +0000
Subject: [PATCH 22/23] fix: Mach-O objects too large for 32-bit file offsets
 are an error instead of being truncated

---
 src/mach.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 919e801..bd2ceb1 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -208,12 +208,16 @@ impl RelocationBuilder {
     }
     /// Finalize and create the relocation
     pub fn create(self) -> Result<RelocationInfo, std::io::Error> {
-        if self.relocation_offset > i32::max_value() as u64 || self.r_type > 0xf {
+        // symbol indexes have 24 bits
+        if self.relocation_offset > i32::max_value() as u64
+            || self.r_type > 0xf
+            || self.symbol > 0xff_ffff
+        {
             return Err(std::io::Error::new(
                 std::io::ErrorKind::InvalidInput,
                 format!(
-                    "Mach-O relocation out of range: type {} at {:#x}",
-                    self.r_type, self.relocation_offset
+                    "Mach-O relocation out of range: type {} at {:#x} against symbol {}",
+                    self.r_type, self.relocation_offset, self.symbol
                 ),
             ));
         }
@@ -876,6 +880,13 @@ impl<'a> Mach<'a> {
             debug!("Section: {:#?}", header);
             raw_sections.iowrite_with(header, self.ctx)?;
         }
+        // file offsets have 32 bits, and the relocation tables come last
+        if relocation_offset > max {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "an object of 4 GiB or more does not fit Mach-O",
+            ));
+        }
         let raw_sections = raw_sections.into_inner();
         debug!(
             "Raw sections len: {} - Section start: {} Strtable size: {} - Segment size: {}",
-- 
2.43.0


From d3d60bbde2d287802658f9cffee2828f064191dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:47 +0000
Subject: [PATCH 23/23] fix: ELF objects too large for their offsets are an
 error instead of being truncated

---
 src/elf.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 7b65945..4345193 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -820,7 +820,9 @@ impl<'a> Elf<'a> {
             .relocations
             .values()
             .flat_map(|(_, relocs)| relocs.iter())
-            .all(|r| r.r_offset <= max && r.r_type <= u32::from(u8::max_value()));
+            .all(|r| {
+                r.r_offset <= max && r.r_type <= u32::from(u8::max_value()) && r.r_sym <= 0xff_ffff
+            });
         if sections && symbols && relocations {
             Ok(())
         } else {
@@ -874,6 +876,14 @@ impl<'a> Elf<'a> {
         let shdr_align = self.ctx.size() as u64;
         Self::align(&mut sh_offset, shdr_align);
 
+        // names are designated by 32-bit offsets, and so is everything in 32-bit objects
+        let max = u64::from(u32::max_value());
+        let end_offset = sh_offset + u64::from(self.nsections) * Section::size(self.ctx) as u64;
+        if self.sizeof_strtab as u64 > max || (!self.ctx.is_big() && end_offset > max) {
+            let message = "the names or the contents are too long for ELF";
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, message).into());
+        }
+
         info!(
             "strtab: {:#x} symtab {:#x} relocs {:#x} sh_offset {:#x}",
             strtab_offset, symtab_offset, reloc_offset, sh_offset
-- 
2.43.0

