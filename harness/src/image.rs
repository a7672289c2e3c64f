//! Structures and constants of executable files and of the system ABI:
//! `tmp::msdosmz`, `tmp::pecoff`, `sys::ffi::elf`, `sys::ffi::linux`.

use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use osi::ffi::NativeEndian;
use std::mem::MaybeUninit;
use sys::ffi::elf::{elf32, elf64, elfn};
use tmp::{msdosmz as mz, pecoff as pe};

#[path = "abiconst.rs"]
mod abiconst;

pub const SUB: Sub = Sub { name: "image", gen, run };

/// The bytes of a value.
pub fn memory<T: Copy>(v: &T) -> Vec<u8> {
    (0..size_of::<T>()).map(|i| unsafe { *(v as *const T as *const u8).add(i) }).collect()
}

/// Structures as bytes and back.
trait Whole: Sized {
    fn load(b: &[u8]) -> Self {
        let mut v = MaybeUninit::<Self>::uninit();
        assert!(size_of::<Self>() == b.len(), "size");
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), v.as_mut_ptr() as *mut u8, b.len());
            v.assume_init()
        }
    }
    fn store(&self) -> Vec<u8> {
        let p = self as *const Self as *const u8;
        (0..size_of::<Self>()).map(|i| unsafe { *p.add(i) }).collect()
    }
    fn fields(&self) -> Vec<Vec<u8>>;
    fn put(&mut self, f: usize, v: &[u8]);
}

/// Numbers most significant byte first, byte arrays as they are.
trait Field<R> {
    fn get(&self) -> Vec<u8>;
    fn set(&mut self, v: &[u8]);
}

macro_rules! field {
    ($($t:ty)*) => { $(
        impl<E: NativeEndian<$t>> Field<$t> for E {
            fn get(&self) -> Vec<u8> { osi::ffi::to_native::<E, $t>(*self).to_be_bytes().to_vec() }
            fn set(&mut self, v: &[u8]) {
                *self = osi::ffi::from_native::<E, $t>(<$t>::from_be_bytes(v.try_into().expect("vh: width")));
            }
        }
    )* };
}
field!(u8 u16 u32 u64 i32 i64);

struct Bytes;
impl<const N: usize> Field<Bytes> for [u8; N] {
    fn get(&self) -> Vec<u8> { self.to_vec() }
    fn set(&mut self, v: &[u8]) { *self = v.try_into().expect("vh: width") }
}
impl Field<Bytes> for elf64::Ident {
    fn get(&self) -> Vec<u8> { self.store() }
    fn set(&mut self, v: &[u8]) { *self = Self::load(v) }
}

macro_rules! fields {
    ($($t:ty as $n:ident)*) => {
        fn fields(&self) -> Vec<Vec<u8>> { vec![$(Field::<$t>::get(&self.$n)),*] }
        fn put(&mut self, f: usize, v: &[u8]) {
            let mut k = 0;
            $( if k == f { Field::<$t>::set(&mut self.$n, v); } k += 1; )*
            let _ = k;
        }
    };
}

macro_rules! whole {
    ($s:ty; $($f:tt)*) => { impl Whole for $s { fields!($($f)*); } };
}
macro_rules! api {
    ($s:ty; $($f:tt)*) => {
        impl Whole for $s {
            fn load(b: &[u8]) -> Self { <$s>::from_bytes(b.try_into().expect("vh: width")) }
            fn store(&self) -> Vec<u8> { self.as_bytes().to_vec() }
            fields!($($f)*);
        }
    };
}

api!(mz::Header; Bytes as magic u16 as cblp u16 as cp u16 as crlc u16 as cparhdr u16 as minalloc
    u16 as maxalloc u16 as ss u16 as sp u16 as csum u16 as ip u16 as cs u16 as lfarlc u16 as ovno);
api!(mz::HeaderExt; Bytes as res u16 as oemid u16 as oeminfo Bytes as res2 u32 as lfanew);
api!(mz::Relocation; u16 as offset u16 as segment);

whole!(pe::Header; u16 as machine u16 as number_of_sections u32 as time_date_stamp
    u32 as pointer_to_symbol_table u32 as number_of_symbols u16 as size_of_optional_header
    u16 as characteristics);
whole!(pe::OptionalHeader; u16 as magic u8 as major_linker_version u8 as minor_linker_version
    u32 as size_of_code u32 as size_of_initialized_data u32 as size_of_uninitialized_data
    u32 as address_of_entry_point u32 as base_of_code u32 as base_of_data);
whole!(pe::OptionalHeader32P; u16 as magic u8 as major_linker_version u8 as minor_linker_version
    u32 as size_of_code u32 as size_of_initialized_data u32 as size_of_uninitialized_data
    u32 as address_of_entry_point u32 as base_of_code);
macro_rules! ext {
    ($s:ty, $a:ty) => {
        whole!($s; $a as image_base u32 as section_alignment u32 as file_alignment
            u16 as major_operating_system_version u16 as minor_operating_system_version
            u16 as major_image_version u16 as minor_image_version
            u16 as major_subsystem_version u16 as minor_subsystem_version
            u32 as win32_version_value u32 as size_of_image u32 as size_of_headers u32 as check_sum
            u16 as subsystem u16 as dll_characteristics
            $a as size_of_stack_reserve $a as size_of_stack_commit
            $a as size_of_heap_reserve $a as size_of_heap_commit
            u32 as loader_flags u32 as number_of_rva_and_sizes);
    };
}
ext!(pe::OptionalHeaderExt, u32);
ext!(pe::OptionalHeaderExt32P, u64);
whole!(pe::DataDirectory; u32 as virtual_address u32 as size);
whole!(pe::SectionHeader; Bytes as name u32 as virtual_size u32 as virtual_address
    u32 as size_of_raw_data u32 as pointer_to_raw_data u32 as pointer_to_relocations
    u32 as pointer_to_linenumbers u16 as number_of_relocations u16 as number_of_linenumbers
    u32 as characteristics);

whole!(elf64::Ident; Bytes as i_magic u8 as i_class u8 as i_data u8 as i_version u8 as i_osabi
    u8 as i_abiversion Bytes as i_pad);
macro_rules! elf {
    ($m:ident, $u:ty, $i:ty) => {
        whole!($m::Ehdr; Bytes as e_ident u16 as e_type u16 as e_machine u32 as e_version $u as e_entry
            $u as e_phoff $u as e_shoff u32 as e_flags u16 as e_ehsize u16 as e_phentsize u16 as e_phnum
            u16 as e_shentsize u16 as e_shnum u16 as e_shstrndx);
        whole!($m::Shdr; u32 as sh_name u32 as sh_type $u as sh_flags $u as sh_addr $u as sh_offset
            $u as sh_size u32 as sh_link u32 as sh_info $u as sh_addralign $u as sh_entsize);
        whole!($m::Dyn; $u as d_tag $u as d_val);
        whole!($m::Rel; $u as r_offset $u as r_info);
        whole!($m::Rela; $u as r_offset $u as r_info $i as r_addend);
    };
}
elf!(elf32, u32, i32);
elf!(elf64, u64, i64);
whole!(elf32::Phdr; u32 as p_type u32 as p_offset u32 as p_vaddr u32 as p_paddr u32 as p_filesz
    u32 as p_memsz u32 as p_flags u32 as p_align);
whole!(elf64::Phdr; u32 as p_type u32 as p_flags u64 as p_offset u64 as p_vaddr u64 as p_paddr
    u64 as p_filesz u64 as p_memsz u64 as p_align);
whole!(elf32::Sym; u32 as st_name u32 as st_value u32 as st_size u8 as st_info u8 as st_other
    u16 as st_shndx);
whole!(elf64::Sym; u32 as st_name u8 as st_info u8 as st_other u16 as st_shndx u64 as st_value
    u64 as st_size);

const SIZES: [(usize, &[usize]); 34] = {
    const EXT32: &[usize] = &[4, 4, 4, 2, 2, 2, 2, 2, 2, 4, 4, 4, 4, 2, 2, 4, 4, 4, 4, 4, 4];
    const EXT64: &[usize] = &[8, 4, 4, 2, 2, 2, 2, 2, 2, 4, 4, 4, 4, 2, 2, 8, 8, 8, 8, 4, 4];
    const IDENT: (usize, &[usize]) = (16, &[4, 1, 1, 1, 1, 1, 7]);
    const EHDR: (usize, &[usize]) = (64, &[16, 2, 2, 4, 8, 8, 8, 4, 2, 2, 2, 2, 2, 2]);
    const SHDR: (usize, &[usize]) = (64, &[4, 4, 8, 8, 8, 8, 4, 4, 8, 8]);
    const PHDR: (usize, &[usize]) = (56, &[4, 4, 8, 8, 8, 8, 8, 8]);
    const SYM: (usize, &[usize]) = (24, &[4, 1, 1, 2, 8, 8]);
    const TWO: (usize, &[usize]) = (16, &[8, 8]);
    const THREE: (usize, &[usize]) = (24, &[8, 8, 8]);
    [
        (28, &[2; 14]), (36, &[8, 2, 2, 20, 4]), (4, &[2, 2]),
        (20, &[2, 2, 4, 4, 4, 2, 2]), (28, &[2, 1, 1, 4, 4, 4, 4, 4, 4]), (24, &[2, 1, 1, 4, 4, 4, 4, 4]),
        (68, EXT32), (88, EXT64), (8, &[4, 4]), (40, &[8, 4, 4, 4, 4, 4, 4, 2, 2, 4]),
        IDENT, (52, &[16, 2, 2, 4, 4, 4, 4, 4, 2, 2, 2, 2, 2, 2]), (40, &[4; 10]), (32, &[4; 8]),
        (16, &[4, 4, 4, 1, 1, 2]), (8, &[4, 4]), (8, &[4, 4]), (12, &[4, 4, 4]),
        IDENT, EHDR, SHDR, PHDR, SYM, TWO, TWO, THREE,
        IDENT, EHDR, SHDR, PHDR, SYM, TWO, TWO, THREE,
    ]
};

fn gen(r: &Rnd, idx: u64, prof: &str) -> J {
    let mut ops = Vec::new();
    match prof {
        "sum" | "bigsum" => for _ in 0..r.range(1, 4) {
            let n = match r.below(4) { _ if prof == "bigsum" => r.big(16), 0 => r.below(9), 1 => r.below(300), _ => r.below(120) };
            let mut b = r.bytes(n);
            if r.one_in(3) { b.iter_mut().for_each(|v| *v |= 0xf0); }
            ops.push(J::obj(vec![("k", J::N(3)), ("s", J::N(0)), ("b", J::from_bytes(&b))]));
            if r.one_in(4) {
                ops.push(J::obj(vec![
                    ("k", J::N(4)), ("s", J::N(0)), ("n", J::N(r.below(200000) as i64)),
                    ("lo", J::N(r.below(256) as i64)), ("hi", J::N(r.below(256) as i64)),
                    ("b", J::from_bytes(&b)),
                ]));
            }
        },
        "stub" => ops.push(J::obj(vec![("k", J::N(6)), ("s", J::N(0)), ("b", J::from_bytes(&mz::STUB_X86))])),
        _ => {
            let s = if prof == "file" { idx % 10 } else { 10 + idx % 24 } as usize;
            let (size, fields) = SIZES[s];
            for _ in 0..r.range(1, 4) {
                let b = r.bytes(size);
                let f = r.below(fields.len());
                ops.push(J::obj(vec![("k", J::N(1)), ("s", J::N(s as i64)), ("b", J::from_bytes(&b))]));
                ops.push(J::obj(vec![
                    ("k", J::N(2)), ("s", J::N(s as i64)), ("b", J::from_bytes(&b)),
                    ("f", J::N(f as i64)), ("v", J::from_bytes(&r.bytes(fields[f]))),
                ]));
            }
        }
    }
    J::obj(vec![("ops", J::A(ops))])
}

fn ints(v: &[u8]) -> Vec<i64> {
    v.iter().map(|v| *v as i64).collect()
}

fn with<T: Whole>(op: &J) -> Vec<i64> {
    match op.get("k").int() {
        0 => vec![size_of::<T>() as i64, align_of::<T>() as i64],
        1 => {
            let v = T::load(&op.get("b").bytes());
            let mut o = Vec::new();
            for f in v.fields() {
                o.extend(ints(&f));
                o.push(-1);
            }
            o.extend(ints(&v.store()));
            o
        }
        _ => {
            let mut v = T::load(&op.get("b").bytes());
            v.put(op.get("f").int() as usize, &op.get("v").bytes());
            ints(&v.store())
        }
    }
}

fn run(input: &J, sink: &mut Sink) {
    for op in input.get("ops").arr() {
        sink.push(match op.get("k").int() {
            0..=2 => match op.get("s").int() {
                0 => with::<mz::Header>(op),
                1 => with::<mz::HeaderExt>(op),
                2 => with::<mz::Relocation>(op),
                3 => with::<pe::Header>(op),
                4 => with::<pe::OptionalHeader>(op),
                5 => with::<pe::OptionalHeader32P>(op),
                6 => with::<pe::OptionalHeaderExt>(op),
                7 => with::<pe::OptionalHeaderExt32P>(op),
                8 => with::<pe::DataDirectory>(op),
                9 => with::<pe::SectionHeader>(op),
                10 => with::<elf32::Ident>(op),
                11 => with::<elf32::Ehdr>(op),
                12 => with::<elf32::Shdr>(op),
                13 => with::<elf32::Phdr>(op),
                14 => with::<elf32::Sym>(op),
                15 => with::<elf32::Dyn>(op),
                16 => with::<elf32::Rel>(op),
                17 => with::<elf32::Rela>(op),
                18 => with::<elf64::Ident>(op),
                19 => with::<elf64::Ehdr>(op),
                20 => with::<elf64::Shdr>(op),
                21 => with::<elf64::Phdr>(op),
                22 => with::<elf64::Sym>(op),
                23 => with::<elf64::Dyn>(op),
                24 => with::<elf64::Rel>(op),
                25 => with::<elf64::Rela>(op),
                26 => with::<elfn::Ident>(op),
                27 => with::<elfn::Ehdr>(op),
                28 => with::<elfn::Shdr>(op),
                29 => with::<elfn::Phdr>(op),
                30 => with::<elfn::Sym>(op),
                31 => with::<elfn::Dyn>(op),
                32 => with::<elfn::Rel>(op),
                33 => with::<elfn::Rela>(op),
                s => panic!("vh: structure {s}"),
            },
            3 => vec![mz::sum16(&op.get("b").bytes()) as i64],
            4 => {
                let w = [op.get("lo").int() as u8, op.get("hi").int() as u8];
                let mut v = w.repeat(op.get("n").int() as usize);
                v.extend(op.get("b").bytes());
                vec![mz::sum16(&v) as i64]
            }
            5 => {
                let t = match op.get("t").int() {
                    0 => abiconst::elf32(),
                    1 => abiconst::elf(),
                    2 => abiconst::pe(),
                    3 => abiconst::mz(),
                    4 => abiconst::aarch64(),
                    5 => abiconst::x86(),
                    6 => abiconst::x86_64(),
                    7 => abiconst::native(),
                    8 => abiconst::target(),
                    _ => abiconst::libc(),
                };
                let n = op.get("n").str();
                ints(&t.iter().find(|v| v.0 == n).expect("vh: unknown constant").1)
            }
            // The specification is the judge of the stub that comes with the call.
            6 => {
                assert!(op.get("b").bytes() == mz::STUB_X86, "stub");
                vec![1]
            }
            k => panic!("vh: call {k}"),
        });
    }
}
