"""plant(id, prop, [(file, old, new)], main_rs, needs, breaks, deps): write /verif/seeded/<id>."""
import json, os, subprocess, tempfile, shutil
def plant(sid, prop, edits, main, needs, breaks, deps=("runner", "sdk")):
    d = f"/verif/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="plant")
    try:
        subprocess.run(["git", "clone", "-q", "--depth", "1", "file:///repo", t + "/r"], check=True)
        for f, old, new in edits:
            p = f"{t}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=t + "/r", stdout=subprocess.PIPE, text=True, check=True).stdout
    finally:
        shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(main)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["python3", "/verif/tools/mkseed.py", sid, *deps], check=True)
PRE = '''#![allow(unused)]
use im::hashmap::HashMap;
use mozak_runner::code::Code;
use mozak_runner::decode::decode_instruction;
use mozak_runner::elf::{Data, Program};
use mozak_runner::instruction::{Args, Instruction, Op};
use mozak_runner::state::{RawTapes, State};
use mozak_runner::vm::{step, ExecutionRecord};
use plonky2::field::goldilocks_field::GoldilocksField as F;
fn i(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32) -> Instruction { Instruction { op, args: Args { rd, rs1, rs2, imm } } }
fn li(rd: u8, imm: u32) -> Instruction { i(Op::ADD, rd, 0, 0, imm) }
fn ecall() -> Instruction { i(Op::ECALL, 0, 10, 11, 0) }
fn run_at(base: u32, p: Vec<Instruction>, rw: &[(u32, u8)], ro: &[(u32, u8)], t: RawTapes) -> ExecutionRecord<F> {
    let mut code = p; code.push(li(10, 0)); code.push(ecall());
    let code: HashMap<u32, _> = code.into_iter().enumerate().map(|(k, x)| (base.wrapping_add(4 * k as u32), Ok(x))).collect();
    let prog = Program { entry_point: base, ro_code: Code(code), ro_memory: Data(ro.iter().copied().collect()), rw_memory: Data(rw.iter().copied().collect()) };
    step(&prog, State::new(prog.clone(), t)).unwrap()
}
fn run(p: Vec<Instruction>, rw: &[(u32, u8)], ro: &[(u32, u8)], t: RawTapes) -> ExecutionRecord<F> { run_at(0, p, rw, ro, t) }
'''

vm = open("/verif/crates/drv-guest/src/vm.rs").read().replace("use drv_util::guard;\n", "")
PREG = """#![allow(unused)]
use std::collections::BTreeSet;
use mozak_cli::runner::raw_tapes_from_system_tape;
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::{CanonicalEvent, CanonicalOrderedTemporalHints, CrossProgramCall, Event, EventType, Poseidon2Hash, ProgramIdentifier, RawMessage, StateAddress, StateObject};
fn guard<T>(f: impl FnOnce() -> T) -> Result<T, ()> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ()) }
pub type Id = ProgramIdentifier;
pub fn enc<T: rkyv::Serialize<rkyv::rancor::Strategy<rkyv::ser::AllocSerializer<256>, rkyv::rancor::Panic>>>(x: &T) -> Vec<u8> { rkyv::to_bytes::<_, 256, _>(x).unwrap().into() }
fn prefixed(b: &[u8]) -> Vec<u8> { let mut v = (b.len() as u32).to_le_bytes().to_vec(); v.extend(b); v }
pub fn sized(b: &[u8]) -> Vec<u8> { let mut v = (b.len() as u16).to_le_bytes().to_vec(); v.extend(b); v }
pub fn cast(calls: &[CrossProgramCall]) -> Vec<Id> { calls.iter().map(|c| c.callee).collect::<BTreeSet<_>>().into_iter().collect() }
pub fn event_root(h: &[CanonicalOrderedTemporalHints]) -> [u8; 32] { merkleize(h.iter().map(|x| (u64::from_le_bytes(x.0.address.0), x.0.canonical_hash())).collect()).0 }
pub fn cast_root(c: &[Id]) -> [u8; 32] { merkleize(c.iter().enumerate().map(|(i, x)| (i as u64, x.0)).collect()).0 }
fn pid(k: u8) -> Id { ProgramIdentifier(Poseidon2Hash([k; 32])) }
fn call(from: u8, to: u8, arg: u64, ret: u32) -> CrossProgramCall { CrossProgramCall { caller: pid(from), callee: pid(to), argument: RawMessage(enc(&arg)), return_: RawMessage(enc(&ret)) } }
fn tapes(me: u8, calls: &[CrossProgramCall], hints: &[CanonicalOrderedTemporalHints], public: &[u8], private: &[u8]) -> RawTapes {
    RawTapes { private_tape: prefixed(private), public_tape: prefixed(public), call_tape: prefixed(&enc(&calls.to_vec())), event_tape: prefixed(&enc(&hints.to_vec())),
               events_commitment_tape: event_root(hints), cast_list_commitment_tape: cast_root(&cast(calls)), self_prog_id_tape: [me; 32] }
}
// the scripted guest's operations
fn send(to: u8, arg: u64) -> Vec<u8> { let mut v = vec![1, 0]; v.extend([to; 32]); v.extend(arg.to_le_bytes()); v }
fn receive() -> Vec<u8> { vec![2, 0] }
fn emit(e: &Event) -> Vec<u8> { let mut v = vec![3, e.type_ as u8]; v.extend(e.object.address.0); v.extend(e.object.constraint_owner.0 .0); v.extend(sized(&e.object.data)); v }
fn read(private: u8, n: u16) -> Vec<u8> { let mut v = vec![4, private]; v.extend(n.to_le_bytes()); v }
fn event(type_: EventType, addr: u64, data: &[u8]) -> Event { Event { type_, object: StateObject { address: StateAddress(addr.to_le_bytes()), constraint_owner: pid(1), data: data.to_vec() } } }
fn go(ops: &[Vec<u8>], t: RawTapes) -> End { std::panic::set_hook(Box::new(|_| {})); Guest::new(&std::env::var("GUEST_ELF").unwrap()).run(&ops.concat(), t) }
""" + vm
