use drv_util::guard;
use mozak_runner::elf::Program;
use mozak_runner::state::{RawTapes, State};
use plonky2::field::goldilocks_field::GoldilocksField as F;

pub struct Guest { program: Program, header: u32, script: u32, out: u32 }
pub struct End { pub how: &'static str, pub done: u32, pub out: Vec<u8> }
const MAGIC: &[u8] = b"SCRIPTED-GUEST:)";
impl Guest {
    pub fn new(elf: &str) -> Self {
        let program = mozak_cli::runner::load_program(std::fs::File::open(elf).unwrap()).expect("drv-guest: the guest does not load");
        let m = &program.rw_memory.0;
        let at = |a: u32| m.get(&a).copied().unwrap_or(0);
        let header = *m.keys().find(|a| MAGIC.iter().enumerate().all(|(i, b)| at(a.wrapping_add(i as u32)) == *b)).expect("drv-guest: no header in the guest");
        let w = |a: u32| u32::from_le_bytes([at(a), at(a + 1), at(a + 2), at(a + 3)]);
        let (script, out) = (w(header + 16), w(header + 20));
        Guest { program, header, script, out }
    }
    /// the part of the address space the program itself takes up
    pub fn image(&self) -> (u32, u32) {
        let p = &self.program;
        let all = || p.rw_memory.0.keys().chain(p.ro_memory.0.keys()).copied();
        (all().min().unwrap(), all().max().unwrap() + 1)
    }
    pub fn run(&self, script: &[u8], tapes: RawTapes) -> End {
        assert!(script.len() < 16000, "drv-guest: script too long");
        let mut p = self.program.clone();
        for (k, b) in script.iter().chain(&[0]).enumerate() { p.rw_memory.0.insert(self.script + k as u32, *b); }
        // a step that fails takes the state with it: go back to the state before it
        let (mut how, n, mut s) = Self::go(&p, tapes.clone(), 3_000_000);
        if how == "abort" { (how, _, s) = Self::go(&p, tapes, n); if how == "limit" { how = "abort"; } }
        let s = s.unwrap();
        let at = |a: u32| s.load_u8(a);
        let w = |a: u32| u32::from_le_bytes([at(a), at(a + 1), at(a + 2), at(a + 3)]);
        let (n, done) = (w(self.header + 24).min(65536), w(self.header + 28));
        End { how, done, out: (0..n).map(|k| at(self.out + k)).collect() }
    }
    fn go(p: &Program, tapes: RawTapes, limit: u32) -> (&'static str, u32, Option<State<F>>) {
        let mut s: State<F> = State::new(p.clone(), tapes);
        for k in 0..limit {
            if s.has_halted() { return ("halt", k, Some(s)); }
            match guard(|| s.execute_instruction(p).map(|x| x.2)) {
                Ok(Ok(n)) => s = n,
                _ => return ("abort", k, None),
            }
        }
        ("limit", limit, Some(s))
    }
}
