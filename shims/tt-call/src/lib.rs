//! The two macros of dtolnay's `tt-call` that are used here, in the forms used here:
//! call a macro and hand what it returns to another one.
#[macro_export]
macro_rules! tt_call {
    { macro = [{ $m:ident }] $( $i:ident = [{ $($v:tt)* }] )* ~~> $next:ident } => { $m! { { $next } $( $i = [{ $($v)* }] )* } };
    { macro = [{ $m:path }] $( $i:ident = [{ $($v:tt)* }] )* ~~> $next:ident } => { $m! { { $next } $( $i = [{ $($v)* }] )* } };
}
#[macro_export]
macro_rules! tt_return {
    { { $next:ident } $($o:tt)* } => { $next! { $($o)* } };
}
