//! Stand-in for the `elf` crate: header and program-header parsing.
use std::fmt;
use std::marker::PhantomData;
pub mod endian {
    pub trait EndianParse: Copy + Default { const LE: bool; }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct LittleEndian;
    impl EndianParse for LittleEndian { const LE: bool = true; }
}
pub mod abi {
    pub const PF_NONE: u32 = 0;
    pub const PF_X: u32 = 1;
    pub const PF_W: u32 = 2;
    pub const PF_R: u32 = 4;
    pub const EM_RISCV: u16 = 243;
    pub const ET_NONE: u16 = 0;
    pub const ET_REL: u16 = 1;
    pub const ET_EXEC: u16 = 2;
    pub const ET_DYN: u16 = 3;
    pub const PT_NULL: u32 = 0;
    pub const PT_LOAD: u32 = 1;
    pub const PT_DYNAMIC: u32 = 2;
    pub const PT_INTERP: u32 = 3;
    pub const PT_NOTE: u32 = 4;
    pub const PT_PHDR: u32 = 6;
    pub const PT_TLS: u32 = 7;
    pub const PT_SHLIB: u32 = 5;
    pub const PT_LOOS: u32 = 0x6000_0000;
    pub const PT_GNU_EH_FRAME: u32 = 0x6474_e550;
    pub const PT_GNU_STACK: u32 = 0x6474_e551;
    pub const PT_GNU_RELRO: u32 = 0x6474_e552;
    pub const PT_GNU_PROPERTY: u32 = 0x6474_e553;
    pub const PT_LOPROC: u32 = 0x7000_0000;
    pub const PT_RISCV_ATTRIBUTES: u32 = 0x7000_0003;
    pub const PF_MASKOS: u32 = 0x0ff0_0000;
    pub const PF_MASKPROC: u32 = 0xf000_0000;
    pub const EM_NONE: u16 = 0;
    pub const EM_386: u16 = 3;
    pub const EM_ARM: u16 = 40;
    pub const EM_X86_64: u16 = 62;
    pub const EM_AARCH64: u16 = 183;
    pub const ET_CORE: u16 = 4;
}
pub mod file {
    #[derive(Debug, Copy, Clone, PartialEq, Eq)]
    pub enum Class { ELF32, ELF64 }
    #[derive(Debug, Copy, Clone, PartialEq, Eq)]
    pub struct FileHeader<E> {
        pub class: Class, pub endianness: E, pub version: u32, pub osabi: u8, pub abiversion: u8,
        pub e_type: u16, pub e_machine: u16, pub e_entry: u64, pub e_phoff: u64, pub e_shoff: u64,
        pub e_flags: u32, pub e_ehsize: u16, pub e_phentsize: u16, pub e_phnum: u16,
        pub e_shentsize: u16, pub e_shnum: u16, pub e_shstrndx: u16,
    }
}
pub mod segment {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct ProgramHeader {
        pub p_type: u32, pub p_offset: u64, pub p_vaddr: u64, pub p_paddr: u64,
        pub p_filesz: u64, pub p_memsz: u64, pub p_flags: u32, pub p_align: u64,
    }
    #[derive(Debug, Clone, Copy)]
    pub struct SegmentTable<'data, E> { pub(crate) class: file::Class, pub(crate) data: &'data [u8], pub(crate) _e: PhantomData<E> }
    impl<'data, E> SegmentTable<'data, E> {
        fn entsize(&self) -> usize { if self.class == file::Class::ELF32 { 32 } else { 56 } }
        pub fn len(&self) -> usize { self.data.len() / self.entsize() }
        pub fn is_empty(&self) -> bool { self.len() == 0 }
        pub fn get(&self, i: usize) -> Result<ProgramHeader, ParseError> {
            if i >= self.len() { return Err(ParseError::BadOffset(i as u64)); }
            let d = &self.data[i * self.entsize()..];
            let w = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap());
            let x = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
            Ok(if self.class == file::Class::ELF32 {
                ProgramHeader { p_type: w(0), p_offset: w(4).into(), p_vaddr: w(8).into(), p_paddr: w(12).into(),
                    p_filesz: w(16).into(), p_memsz: w(20).into(), p_flags: w(24), p_align: w(28).into() }
            } else {
                ProgramHeader { p_type: w(0), p_flags: w(4), p_offset: x(8), p_vaddr: x(16), p_paddr: x(24),
                    p_filesz: x(32), p_memsz: x(40), p_align: x(48) }
            })
        }
        pub fn iter(&self) -> SegmentIterator<'data, E> where E: Copy { SegmentIterator { t: SegmentTable { class: self.class, data: self.data, _e: PhantomData }, i: 0 } }
    }
    pub struct SegmentIterator<'data, E> { t: SegmentTable<'data, E>, i: usize }
    impl<E> Iterator for SegmentIterator<'_, E> {
        type Item = ProgramHeader;
        fn next(&mut self) -> Option<ProgramHeader> { let r = self.t.get(self.i).ok(); self.i += 1; r }
    }
    impl<'data, E: Copy> IntoIterator for SegmentTable<'data, E> {
        type Item = ProgramHeader;
        type IntoIter = SegmentIterator<'data, E>;
        fn into_iter(self) -> Self::IntoIter { SegmentIterator { t: self, i: 0 } }
    }
}
#[derive(Debug)]
pub enum ParseError { BadMagic([u8; 4]), UnsupportedElfClass(u8), UnsupportedElfEndianness(u8), UnsupportedVersion((u64, u64)), BadOffset(u64), BadEntsize((u64, u64)), SliceReadError((usize, usize)), IntegerOverflow }
impl fmt::Display for ParseError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for ParseError {}

#[derive(Debug)]
pub struct ElfBytes<'data, E> { pub ehdr: file::FileHeader<E>, data: &'data [u8], phdrs: Option<(usize, usize)> }
impl<'data, E: endian::EndianParse> ElfBytes<'data, E> {
    pub fn minimal_parse(data: &'data [u8]) -> Result<Self, ParseError> {
        let need = |a: usize, b: usize| data.get(a..b).ok_or(ParseError::SliceReadError((a, b)));
        let id = need(0, 16)?;
        if id[..4] != [0x7f, b'E', b'L', b'F'] { return Err(ParseError::BadMagic(id[..4].try_into().unwrap())); }
        let class = match id[4] { 1 => file::Class::ELF32, 2 => file::Class::ELF64, c => return Err(ParseError::UnsupportedElfClass(c)) };
        if id[5] != 1 { return Err(ParseError::UnsupportedElfEndianness(id[5])); }
        if id[6] != 1 { return Err(ParseError::UnsupportedVersion((id[6].into(), 1))); }
        let wide = class == file::Class::ELF64;
        need(16, if wide { 64 } else { 52 })?;
        let h = |o: usize| u16::from_le_bytes(data[o..o + 2].try_into().unwrap());
        let w = |o: usize| u32::from_le_bytes(data[o..o + 4].try_into().unwrap());
        let x = |o: usize| u64::from_le_bytes(data[o..o + 8].try_into().unwrap());
        let (entry, phoff, shoff, r) = if wide { (x(24), x(32), x(40), 48) } else { (w(24).into(), w(28).into(), w(32).into(), 36) };
        let ehdr = file::FileHeader {
            class, endianness: E::default(), version: w(20), osabi: id[7], abiversion: id[8],
            e_type: h(16), e_machine: h(18), e_entry: entry, e_phoff: phoff, e_shoff: shoff,
            e_flags: w(r), e_ehsize: h(r + 4), e_phentsize: h(r + 6), e_phnum: h(r + 8),
            e_shentsize: h(r + 10), e_shnum: h(r + 12), e_shstrndx: h(r + 14),
        };
        let table = |off: u64, num: u16, ent: u16, want: usize| -> Result<Option<(usize, usize)>, ParseError> {
            if off == 0 || num == 0 { return Ok(None); }
            if usize::from(ent) != want { return Err(ParseError::BadEntsize((ent.into(), want as u64))); }
            let start = usize::try_from(off).map_err(|_| ParseError::IntegerOverflow)?;
            let end = start.checked_add(want * usize::from(num)).ok_or(ParseError::IntegerOverflow)?;
            need(start, end)?;
            Ok(Some((start, end)))
        };
        let _sh = table(ehdr.e_shoff, ehdr.e_shnum, ehdr.e_shentsize, if wide { 64 } else { 40 })?;
        let phdrs = table(ehdr.e_phoff, ehdr.e_phnum, ehdr.e_phentsize, if wide { 56 } else { 32 })?;
        Ok(Self { ehdr, data, phdrs })
    }
    pub fn segments(&self) -> Option<segment::SegmentTable<'data, E>> {
        self.phdrs.map(|(s, e)| segment::SegmentTable { class: self.ehdr.class, data: &self.data[s..e], _e: PhantomData })
    }
}
