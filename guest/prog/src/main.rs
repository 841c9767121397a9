//! A guest that carries out the script the test driver writes into its data
//! segment, through the SDK, and notes the results in its data segment.
#![cfg_attr(target_os = "mozakvm", no_main)]
#![feature(restricted_std)]
#![allow(unused_attributes, static_mut_refs)]
#[cfg(target_os = "mozakvm")]
mod guest {
    use mozak_sdk::common::types::{Event, EventType, Poseidon2Hash, ProgramIdentifier, StateAddress, StateObject};
    use mozak_sdk::{call_receive, call_send, event_emit, input_tape_len, read, InputTapeType};

    #[repr(C)]
    pub struct Header { magic: [u8; 16], script: *const u8, out: *mut u8, out_len: u32, done: u32 }
    static mut SCRIPT: [u8; 16384] = [0; 16384];
    static mut OUT: [u8; 65536] = [0; 65536];
    #[no_mangle]
    pub static mut HEADER: Header = Header { magic: *b"SCRIPTED-GUEST:)", script: unsafe { SCRIPT.as_ptr() }, out: unsafe { OUT.as_mut_ptr() }, out_len: 0, done: 0 };

    struct In(*const u8);
    impl In {
        fn byte(&mut self) -> u8 { unsafe { let b = core::ptr::read_volatile(self.0); self.0 = self.0.add(1); b } }
        fn n(&mut self) -> usize { usize::from(self.byte()) | usize::from(self.byte()) << 8 }
        fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
        fn arr<const N: usize>(&mut self) -> [u8; N] { let mut a = [0; N]; for x in &mut a { *x = self.byte() } a }
        fn id(&mut self) -> ProgramIdentifier { ProgramIdentifier(Poseidon2Hash(self.arr())) }
        fn sized(&mut self) -> Vec<u8> { let n = self.n(); self.bytes(n) }
        fn u64(&mut self) -> u64 { u64::from_le_bytes(self.arr()) }
        fn text(&mut self) -> String { String::from_utf8(self.sized()).unwrap() }
    }
    fn put(b: &[u8]) { unsafe { for x in b { core::ptr::write_volatile(HEADER.out.add(HEADER.out_len as usize), *x); HEADER.out_len += 1; } } }
    fn put_sized(b: &[u8]) { put(&(b.len() as u16).to_le_bytes()); put(b) }
    macro_rules! enc { ($x:expr) => {{ let v: Vec<u8> = rkyv::to_bytes::<_, 256, rkyv::rancor::Panic>(&$x).unwrap().into(); v }} }
    macro_rules! send { ($id:expr, $a:expr, $r:ty) => {{ let id = $id; let a = $a; let r: $r = call_send(id, a, |_| unreachable!()); put(&[1]); put_sized(&enc!(r)); }} }
    macro_rules! receive { ($a:ty, $r:ty) => {{
        match call_receive::<$a, $r>() { None => put(&[2, 0]), Some((c, a, r)) => { put(&[2, 1]); put(&c.inner()); put_sized(&enc!(a)); put_sized(&enc!(r)); } }
    }} }
    fn tape(k: u8) -> InputTapeType { if k == 0 { InputTapeType::PublicTape } else { InputTapeType::PrivateTape } }

    // blocks of memory asked for: where, how large, aligned to what, and the mark written at both ends
    #[derive(Clone, Copy)]
    struct Block { at: usize, n: usize, align: usize, mark: u8 }
    static mut BLOCKS: [Block; 64] = [Block { at: 0, n: 0, align: 1, mark: 0 }; 64];
    static mut LAST: usize = 0;
    /// the ends of a block, without what lies near the stack
    fn ends(at: usize, n: usize) -> impl Iterator<Item = usize> { (0..n.min(24)).chain(n.saturating_sub(8)..n).map(move |k| at.wrapping_add(k)).filter(|a| !(0xfff0_0000..0xffff_0000).contains(a) && *a != 0) }
    unsafe fn holds(at: usize, n: usize, x: u8) -> u8 { u8::from(ends(at, n).all(|a| core::ptr::read_volatile(a as *const u8) == x)) }
    unsafe fn mark(b: Block) { for a in ends(b.at, b.n) { core::ptr::write_volatile(a as *mut u8, b.mark); } }
    unsafe fn all_hold() -> u8 { u8::from(BLOCKS.iter().all(|b| b.at == 0 || holds(b.at, b.n, b.mark) == 1)) }
    unsafe fn heap(i: &mut In) {
        use std::alloc::{alloc, alloc_zeroed, dealloc, realloc, Layout};
        let (kind, k) = (i.byte(), usize::from(i.byte()));
        let (n, align) = (u32::from_le_bytes(i.arr()) as usize, 1 << i.byte());
        let b = BLOCKS[k];
        let mut zero = 1;
        // a block that was refused can be neither resized nor given back
        if kind > 1 && b.at == 0 { put(&[6, 1, all_hold(), 0, 0, 0, 0]); return }
        match kind {
            0 | 1 => {
                let l = Layout::from_size_align_unchecked(n, align);
                let at = (if kind == 1 { alloc_zeroed(l) } else { alloc(l) }) as usize;
                let kept = all_hold();
                LAST = (LAST + 1) % 250;
                BLOCKS[k] = Block { at, n, align, mark: 1 + LAST as u8 };
                if at != 0 { if kind == 1 { zero = holds(at, n, 0); } mark(BLOCKS[k]); }
                put(&[6, zero, kept]); put(&(at as u32).to_le_bytes());
            }
            2 => {
                let at = realloc(b.at as *mut u8, Layout::from_size_align_unchecked(b.n, b.align), n) as usize;
                if at != 0 { zero = u8::from((0..n.min(b.n).min(24)).all(|k| core::ptr::read_volatile((at + k) as *const u8) == b.mark)); BLOCKS[k] = Block { at, n, ..b }; mark(BLOCKS[k]); }
                put(&[6, zero, all_hold()]); put(&(at as u32).to_le_bytes());
            }
            _ => {
                let kept = all_hold();
                dealloc(b.at as *mut u8, Layout::from_size_align_unchecked(b.n, b.align));
                BLOCKS[k].at = 0;
                put(&[6, 1, kept]); put(&(b.at as u32).to_le_bytes());
            }
        }
    }

    pub fn main() {
        let mut i = In(unsafe { core::ptr::read_volatile(&HEADER.script) });
        loop {
            match i.byte() {
                1 => { let (k, id) = (i.byte(), i.id()); match k {
                    0 => send!(id, i.u64(), u32),
                    1 => send!(id, i.sized(), Vec<u8>),
                    2 => send!(id, (i.byte(), i.text()), Option<u64>),
                    _ => send!(id, (), u16),
                } }
                2 => match i.byte() { 0 => receive!(u64, u32), 1 => receive!(Vec<u8>, Vec<u8>), 2 => receive!((u8, String), Option<u64>), _ => receive!((), u16) },
                3 => {
                    let type_ = match i.byte() { 0 => EventType::Write, 1 => EventType::Ensure, 2 => EventType::Read, 3 => EventType::GiveOwner, _ => EventType::TakeOwner };
                    let address = StateAddress(i.arr());
                    let constraint_owner = i.id();
                    let data = i.sized();
                    event_emit(Event { type_, object: StateObject { address, constraint_owner, data } });
                    put(&[3]);
                }
                4 => {
                    let (k, n) = (i.byte(), i.n());
                    let mut buf = vec![0xA5; n];
                    let got = read(&tape(k), &mut buf).unwrap();
                    put(&[4]); put(&(got as u16).to_le_bytes()); put_sized(&buf);
                }
                5 => { let n = input_tape_len(&tape(i.byte())); put(&[5]); put(&(n as u32).to_le_bytes()); }
                6 => unsafe { heap(&mut i) },
                _ => break,
            }
            unsafe { HEADER.done += 1; }
        }
    }
}
#[cfg(target_os = "mozakvm")]
use guest::main;
#[cfg(not(target_os = "mozakvm"))]
fn main() {}
mozak_sdk::entry!(main);
