pub mod noop {
    #[derive(Clone, Debug)]
    pub struct NoopGate;
}
pub mod gate {
    #[derive(Clone, Debug, Eq, PartialEq)]
    pub struct GateRef;
}
