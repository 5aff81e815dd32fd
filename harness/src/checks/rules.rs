//! Pairs of small programs: one that keeps a static rule, one that breaks it and nothing else.
//! `@T @U @V` are different types, `@t @u @v` values of them, `@n @m` different widths with n < m, `@k` a small number, `@p` a prefix.
use super::illtyped::judge_alone;
use crate::runner::*;
use crate::spadec::{self, Opts};
use crate::tape::{self, Gen};
use serde_json::json;

/// (rule, shared prefix of both programs, the valid rest, the rest that breaks the rule)
pub const RULES: &[(&str, &str, &str, &str)] = &[
    ("trait method missing", "trait @pTr { fn @pa(self) -> @T; fn @pb(self, x: @U) -> @U; } struct @pS { a: @V } ", "impl @pTr for @pS { fn @pa(self) -> @T { @t } fn @pb(self, x: @U) -> @U { x } }", "impl @pTr for @pS { fn @pa(self) -> @T { @t } }"),
    ("method that is not in the trait", "trait @pTr { fn @pa(self) -> @T; } struct @pS { a: @V } ", "impl @pTr for @pS { fn @pa(self) -> @T { @t } }", "impl @pTr for @pS { fn @pa(self) -> @T { @t } fn @pb(self, x: @U) -> @U { x } }"),
    ("method with another parameter type than in the trait", "trait @pTr { fn @pb(self, x: @U) -> bool; } struct @pS { a: @V } ", "impl @pTr for @pS { fn @pb(self, x: @U) -> bool { true } }", "impl @pTr for @pS { fn @pb(self, x: @T) -> bool { true } }"),
    ("method with another result type than in the trait", "trait @pTr { fn @pb(self, x: @U) -> @U; } struct @pS { a: @V } ", "impl @pTr for @pS { fn @pb(self, x: @U) -> @U { x } }", "impl @pTr for @pS { fn @pb(self, x: @U) -> @T { @t } }"),
    ("method with a parameter fewer than in the trait", "trait @pTr { fn @pb(self, x: @U) -> @T; } struct @pS { a: @V } ", "impl @pTr for @pS { fn @pb(self, x: @U) -> @T { @t } }", "impl @pTr for @pS { fn @pb(self) -> @T { @t } }"),
    ("method with a parameter more than in the trait", "trait @pTr { fn @pb(self) -> @T; } struct @pS { a: @V } ", "impl @pTr for @pS { fn @pb(self) -> @T { @t } }", "impl @pTr for @pS { fn @pb(self, x: @U) -> @T { @t } }"),
    ("two impls of a trait for a type", "trait @pTr { fn @pb(self) -> @T; } struct @pS { a: @V } struct @pR { a: @V } impl @pTr for @pS { fn @pb(self) -> @T { @t } } ", "impl @pTr for @pR { fn @pb(self) -> @T { @t } }", "impl @pTr for @pS { fn @pb(self) -> @T { @t } }"),
    ("two methods of the same name in one impl", "struct @pS { a: @V } ", "impl @pS { fn @pb(self) -> @T { @t } fn @pc(self) -> @T { @t } }", "impl @pS { fn @pb(self) -> @T { @t } fn @pb(self) -> @T { @t } }"),
    ("two methods of the same name in two impls of a type", "struct @pS { a: @V } impl @pS { fn @pb(self) -> @T { @t } } ", "impl @pS { fn @pc(self) -> @T { @t } } fn @pf(s: @pS) -> @T { s.@pb() }", "impl @pS { fn @pb(self) -> @T { @t } } fn @pf(s: @pS) -> @T { s.@pb() }"),
    ("impl of something that is not a trait", "trait @pTr { fn @pb(self) -> @T; } struct @pS { a: @V } ", "impl @pTr for @pS { fn @pb(self) -> @T { @t } }", "impl @pS for @pS { fn @pb(self) -> @T { @t } }"),
    ("impl of a trait that is not defined", "trait @pTr { fn @pb(self) -> @T; } struct @pS { a: @V } ", "impl @pTr for @pS { fn @pb(self) -> @T { @t } }", "impl @pNo for @pS { fn @pb(self) -> @T { @t } }"),
    ("impl for a type that is not defined", "trait @pTr { fn @pb(self) -> @T; } struct @pS { a: @V } ", "impl @pTr for @pS { fn @pb(self) -> @T { @t } }", "impl @pTr for @pNo { fn @pb(self) -> @T { @t } }"),
    ("a trait used as a type", "trait @pTr { fn @pb(self) -> @T; } struct @pS { a: @V } ", "fn @pf(x: @pS) -> @T { @t }", "fn @pf(x: @pTr) -> @T { @t }"),
    ("a trait defined twice", "trait @pTr { fn @pb(self) -> @T; } ", "trait @pTs { fn @pb(self) -> @T; }", "trait @pTr { fn @pb(self) -> @T; }"),
    ("a trait without its parameter", "trait @pTr<A> { fn @pb(self, x: A) -> @T; } struct @pS { a: @V } ", "impl @pTr<@U> for @pS { fn @pb(self, x: @U) -> @T { @t } }", "impl @pTr for @pS { fn @pb(self, x: @U) -> @T { @t } }"),
    ("a trait with a parameter it does not have", "trait @pTr { fn @pb(self) -> @T; } struct @pS { a: @V } ", "impl @pTr for @pS { fn @pb(self) -> @T { @t } }", "impl @pTr<@U> for @pS { fn @pb(self) -> @T { @t } }"),
    ("a trait parameter of another type than the method of the impl", "trait @pTr<A> { fn @pb(self, x: A) -> @T; } struct @pS { a: @V } ", "impl @pTr<@U> for @pS { fn @pb(self, x: @U) -> @T { @t } }", "impl @pTr<@U> for @pS { fn @pb(self, x: @V) -> @T { @t } }"),
    ("a bound that is not satisfied", "trait @pTr { fn @pb(self) -> @T; } struct @pS { a: @V } struct @pR { a: @V } impl @pTr for @pS { fn @pb(self) -> @T { @t } } fn @pf<A>(x: A) -> @T where A: @pTr { x.@pb() } ", "fn @pg(x: @pS) -> @T { @pf(x) }", "fn @pg(x: @pR) -> @T { @pf(x) }"),
    ("one of two bounds that is not satisfied", "trait @pTr { fn @pb(self) -> @T; } trait @pTs { fn @pc(self) -> @T; } struct @pS { a: @V } struct @pR { a: @V } impl @pTr for @pS { fn @pb(self) -> @T { @t } } impl @pTs for @pS { fn @pc(self) -> @T { @t } } impl @pTr for @pR { fn @pb(self) -> @T { @t } } fn @pf<A>(x: A) -> @T where A: @pTr + @pTs { x.@pb() } ", "fn @pg(x: @pS) -> @T { @pf(x) }", "fn @pg(x: @pR) -> @T { @pf(x) }"),
    ("a bound with another parameter", "trait @pTr<B> { fn @pb(self, x: B) -> @T; } struct @pS { a: @V } impl @pTr<@U> for @pS { fn @pb(self, x: @U) -> @T { @t } } ", "fn @pf<A>(x: A) -> @T where A: @pTr<@U> { @t } fn @pg(x: @pS) -> @T { @pf(x) }", "fn @pf<A>(x: A) -> @T where A: @pTr<@V> { @t } fn @pg(x: @pS) -> @T { @pf(x) }"),
    ("a method of a type parameter without the bound", "trait @pTr { fn @pb(self) -> @T; } struct @pS { a: @V } impl @pTr for @pS { fn @pb(self) -> @T { @t } } ", "fn @pf<A>(x: A) -> @T where A: @pTr { x.@pb() }", "fn @pf<A>(x: A) -> @T { x.@pb() }"),
    ("a bound of the caller that is too weak", "trait @pTr { fn @pb(self) -> @T; } fn @pf<A>(x: A) -> @T where A: @pTr { x.@pb() } ", "struct @pS { a: @V } impl @pTr for @pS { fn @pb(self) -> @T { @t } } fn @pg<A>(x: A) -> @T where A: @pTr { @pf(x) } fn @ph(x: @pS) -> @T { @pg(x) }", "fn @pg<A>(x: A) -> @T { @pf(x) } fn @ph(x: @V) -> @T { @pg(x) }"),
    ("a bound of an impl that is not satisfied", "trait @pTr { fn @pb(self) -> @T; } struct @pS { a: @V } struct @pR { a: @V } struct @pW<A> { i: A } impl @pTr for @pS { fn @pb(self) -> @T { @t } } impl<A> @pTr for @pW<A> where A: @pTr { fn @pb(self) -> @T { self.i.@pb() } } ", "fn @pg(x: @pW<@pS>) -> @T { x.@pb() }", "fn @pg(x: @pW<@pR>) -> @T { x.@pb() }"),
    ("a method of an impl for another instance", "struct @pW<A> { i: A } impl @pW<@T> { fn @pb(self) -> bool { true } } ", "fn @pg(x: @pW<@T>) -> bool { x.@pb() }", "fn @pg(x: @pW<@U>) -> bool { x.@pb() }"),
    ("a where clause that does not hold", "fn @pf<#uint N>(x: uint<N>) -> bool where N > @n { true } ", "fn @pg(x: uint<@m>) -> bool { @pf(x) }", "fn @pg(x: uint<@n>) -> bool { @pf(x) }"),
    ("a where clause that does not hold", "fn @pf<#uint N>(x: uint<N>) -> bool where N < @m { true } ", "fn @pg(x: uint<@n>) -> bool { @pf(x) }", "fn @pg(x: uint<@m>) -> bool { @pf(x) }"),
    ("a where clause that does not hold", "fn @pf<#uint N>(x: uint<N>) -> bool where N == @n else \"no\" { true } ", "fn @pg(x: uint<@n>) -> bool { @pf(x) }", "fn @pg(x: uint<@m>) -> bool { @pf(x) }"),
    ("a where clause that does not hold", "fn @pf<#uint N, #uint M>() -> bool where N <= M + @k { true } ", "fn @pg() -> bool { @pf::<{@n + @k}, @n>() }", "fn @pg() -> bool { @pf::<{@m + @k}, @n>() }"),
    ("a where clause between widths that does not hold", "fn @pf<#uint N, #uint M>(x: uint<N>, y: uint<M>) -> bool where M: {N + 1} { true } ", "fn @pg(x: uint<@n>, y: uint<{@n + 1}>) -> bool { @pf(x, y) }", "fn @pg(x: uint<@n>, y: uint<{@n + 2}>) -> bool { @pf(x, y) }"),
    ("too many type arguments", "fn @pf<A>(x: A) -> bool { true } ", "fn @pg(x: @T) -> bool { @pf::<@T>(x) }", "fn @pg(x: @T) -> bool { @pf::<@T, @U>(x) }"),
    ("too few type arguments", "fn @pf<A, B>(x: A, y: B) -> bool { true } ", "fn @pg(x: @T) -> bool { @pf::<@T, @T>(x, x) }", "fn @pg(x: @T) -> bool { @pf::<@T>(x, x) }"),
    ("type arguments for a unit without parameters", "fn @pf(x: @T) -> bool { true } ", "fn @pg(x: @T) -> bool { @pf(x) }", "fn @pg(x: @T) -> bool { @pf::<@T>(x) }"),
    ("a type argument that contradicts the value", "fn @pf<A>(x: A) -> bool { true } ", "fn @pg(x: @T) -> bool { @pf::<@T>(x) }", "fn @pg(x: @T) -> bool { @pf::<@U>(x) }"),
    ("two different types for one parameter", "fn @pf<A>(x: A, y: A) -> bool { true } ", "fn @pg(x: @T, y: @T) -> bool { @pf(x, y) }", "fn @pg(x: @T, y: @U) -> bool { @pf(x, y) }"),
    ("a type for a number parameter", "fn @pf<#uint N>() -> bool { true } ", "fn @pg() -> bool { @pf::<@n>() }", "fn @pg() -> bool { @pf::<@T>() }"),
    ("a number for a type parameter", "fn @pf<A>() -> bool { true } ", "fn @pg() -> bool { @pf::<@T>() }", "fn @pg() -> bool { @pf::<@n>() }"),
    ("a number parameter used as a type", "", "fn @pf<#uint N>(x: uint<N>) -> bool { true }", "fn @pf<#uint N>(x: N) -> bool { true } fn @pg(x: @T) -> bool { @pf(x) }"),
    ("a type parameter used as a number", "", "fn @pf<A>(x: A) -> bool { true } fn @pg() -> bool { @pf(1u@n) }", "fn @pf<A>(x: uint<A>) -> bool { true } fn @pg() -> bool { @pf(1u@n) }"),
    ("a type parameter used as a value", "", "fn @pf<#uint A>(x: uint<A>) -> uint<@m> { A }", "fn @pf<A>(x: A) -> uint<@m> { A }"),
    ("a bool parameter used as a width", "", "fn @pf<#uint N>(x: uint<N>) -> bool { true }", "fn @pf<#bool N>(x: uint<N>) -> bool { true } fn @pg(x: uint<@n>) -> bool { @pf(x) }"),
    ("a type parameter that is not defined", "", "fn @pf<A>(x: A) -> bool { true }", "fn @pf<A>(x: B) -> bool { true }"),
    ("too many arguments for a type", "struct @pS<A> { x: A } ", "fn @pf(x: @pS<@T>) -> bool { true }", "fn @pf(x: @pS<@T, @U>) -> bool { true }"),
    ("too few arguments for a type", "struct @pS<A, B> { x: A, y: B } ", "fn @pf(x: @pS<@T, @U>) -> bool { true }", "fn @pf(x: @pS<@T>) -> bool { true }"),
    ("a value of another type argument", "struct @pS<A> { x: A } fn @ph(x: @pS<@T>) -> bool { true } ", "fn @pf(x: @pS<@T>) -> bool { @ph(x) }", "fn @pf(x: @pS<@U>) -> bool { @ph(x) }"),
    ("a member of another type than the type argument", "struct @pS<A> { x: A } ", "fn @pf(x: @T) -> @pS<@T> { @pS(x) }", "fn @pf(x: @T) -> @pS<@U> { @pS(x) }"),
    ("a member of one type parameter for another", "struct @pS<A, B> { x: A, y: B } ", "fn @pf<A, B>(x: A, y: B) -> @pS<A, B> { @pS(x, y) } fn @pg() -> @pS<@T, @U> { @pf(@t, @u) }", "fn @pf<A, B>(x: A, y: B) -> @pS<A, B> { @pS(y, x) } fn @pg() -> @pS<@T, @U> { @pf(@t, @u) }"),
    ("a value of one type parameter for another", "", "fn @pf<A, B>(x: A, y: B) -> A { x } fn @pg() -> @T { @pf(@t, @u) }", "fn @pf<A, B>(x: A, y: B) -> A { y } fn @pg() -> @T { @pf(@t, @u) }"),
    ("a concrete value for a type parameter", "", "fn @pf<A>(x: A) -> A { x } fn @pg() -> @U { @pf(@u) }", "fn @pf<A>(x: A) -> A { @t } fn @pg() -> @U { @pf(@u) }"),
    ("a register in a function", "", "entity @pf(c: clock, x: @T) -> @T { reg(c) a = x; a }", "fn @pf(c: clock, x: @T) -> @T { reg(c) a = x; a }"),
    ("an entity used in a function", "entity @pe(c: clock, x: @T) -> @T { reg(c) a = x; a } ", "entity @pf(c: clock, x: @T) -> @T { inst @pe(c, x) }", "fn @pf(c: clock, x: @T) -> @T { inst @pe(c, x) }"),
    ("a pipeline used in a function", "pipeline(2) @pe(c: clock, x: @T) -> @T { reg * 2; x } ", "entity @pf(c: clock, x: @T) -> @T { inst(2) @pe(c, x) }", "fn @pf(c: clock, x: @T) -> @T { inst(2) @pe(c, x) }"),
    ("a stage statement outside of a pipeline", "", "pipeline(1) @pf(c: clock, x: @T) -> @T { reg; x }", "entity @pf(c: clock, x: @T) -> @T { reg; x }"),
    ("a stage reference outside of a pipeline", "", "pipeline(1) @pf(c: clock, x: @T) -> @T { let y = x; reg; stage(-1).y }", "entity @pf(c: clock, x: @T) -> @T { let y = x; stage(-1).y }"),
    ("stage.valid outside of a pipeline", "", "pipeline(1) @pf(c: clock) -> bool { reg; stage.valid }", "entity @pf(c: clock) -> bool { stage.valid }"),
    ("a pipeline without a clock", "", "pipeline(1) @pf(c: clock, x: @T) -> @T { reg; x }", "pipeline(1) @pf(x: @T) -> @T { reg; x }"),
    ("a pipeline whose first parameter is not a clock", "", "pipeline(1) @pf(c: clock, x: @T) -> @T { reg; x }", "pipeline(1) @pf(x: @T, c: clock) -> @T { reg; x }"),
    ("a pipeline without parameters", "", "pipeline(1) @pf(c: clock) -> @T { reg; @t }", "pipeline(1) @pf() -> @T { reg; @t }"),
    ("a stage label used twice", "", "pipeline(2) @pf(c: clock, x: @T) -> @T { reg; 'a reg; 'b x }", "pipeline(2) @pf(c: clock, x: @T) -> @T { reg; 'a reg; 'a x }"),
    ("a stage reference to a name defined elsewhere", "", "pipeline(1) @pf(c: clock, x: @T) -> @T { let y = x; reg; stage(-1).y }", "pipeline(1) @pf(c: clock, x: @T) -> @T { let y = x; reg; stage(-1).z }"),
    ("a stage condition that is not a bool", "", "pipeline(1) @pf(c: clock, x: bool) -> bool { reg[x]; x }", "pipeline(1) @pf(c: clock, x: uint<@n>) -> uint<@n> { reg[x]; x }"),
    ("set of something that is not an inverted wire", "", "entity @pf(x: inv @T) { set x = @t; }", "entity @pf(x: @T) { set x = @t; }"),
    ("set to a value of another type", "", "entity @pf(x: inv @T) { set x = @t; }", "entity @pf(x: inv @T) { set x = @u; }"),
    ("an inverted wire for a value", "entity @ph(x: inv @T) { set x = @t; } ", "entity @pf(x: inv @T) { let _ = inst @ph(x); }", "entity @pf(x: @T) { let _ = inst @ph(x); }"),
    ("no result", "", "fn @pf(x: @T) -> @T { x }", "fn @pf(x: @T) -> @T { let y = x; }"),
    ("a result that was not declared", "", "fn @pf(x: @T) -> @T { x }", "fn @pf(x: @T) { x }"),
    ("a lambda called with another number of arguments", "", "fn @pf(x: @T) -> @T { let f = fn |a| { x }; f.call((x,)) }", "fn @pf(x: @T) -> @T { let f = fn |a| { x }; f.call((x, x)) }"),
    ("a lambda called with another type", "", "fn @pf(x: @T, y: @U) -> @T { let f = fn |a| { let b: @T = a; b }; f.call((x,)) }", "fn @pf(x: @T, y: @U) -> @T { let f = fn |a| { let b: @T = a; b }; f.call((y,)) }"),
    ("a lambda with another result", "", "fn @pf(x: @T, y: @U) -> @T { let f = fn |a| { x }; f.call((y,)) }", "fn @pf(x: @T, y: @U) -> @T { let f = fn |a| { a }; f.call((y,)) }"),
    ("a type level condition on a value", "", "fn @pf<#bool B>(x: bool) -> @T { gen if B { @t } else { @t } }", "fn @pf<#bool B>(x: bool) -> @T { gen if x { @t } else { @t } }"),
    ("a type level condition that is a number", "", "fn @pf<#uint N>() -> @T { gen if N > 3 { @t } else { @t } }", "fn @pf<#uint N>() -> @T { gen if N { @t } else { @t } }"),
    ("branches of gen if with another type", "", "fn @pf<#uint N>(x: @T) -> @T { gen if N > 3 { @t } else { x } } fn @pg(x: @T) -> @T { @pf::<2>(x) }", "fn @pf<#uint N>(x: @T) -> @T { gen if N > 3 { @t } else { @u } } fn @pg(x: @T) -> @T { @pf::<2>(x) }"),
    ("a match without arms for a value", "", "fn @pf(x: @T) -> bool { match x { _ => true } }", "fn @pf(x: @T) -> bool { match x { } }"),
    ("arms of different types", "", "fn @pf(x: @T, c: bool) -> bool { let y = match c { true => x, _ => x }; true }", "fn @pf(x: @T, y: @U, c: bool) -> bool { let z = match c { true => x, _ => y }; true }"),
    ("a name of an arm used in another", "", "fn @pf(x: (bool, @T), y: @T) -> @T { match x { (true, z) => z, _ => y } }", "fn @pf(x: (bool, @T), y: @T) -> @T { match x { (true, z) => y, _ => z } }"),
    ("a name of a block used outside", "", "fn @pf(x: @T) -> @T { let y = { let z = x; z }; y }", "fn @pf(x: @T) -> @T { let y = { let z = x; z }; z }"),
    ("a parameter of a lambda used outside", "", "fn @pf(x: @T) -> @T { let f = fn |z| { z }; f.call((x,)) }", "fn @pf(x: @T) -> @T { let f = fn |z| { z }; let q = f.call((x,)); z }"),
    ("a name used in its own definition", "", "entity @pf(c: clock, x: @T) -> @T { let y = x; y }", "entity @pf(c: clock, x: @T) -> @T { let y = y; y }"),
    ("self outside of an impl", "struct @pS { a: @T } ", "impl @pS { fn @pf(self) -> @T { self.a } }", "fn @pf(self) -> @T { self.a }"),
    ("Self outside of an impl", "struct @pS { a: @T } ", "impl @pS { fn @pf(self, x: Self) -> @T { self.a } }", "fn @pf(x: Self) -> @T { x.a }"),
    ("a method called without its argument", "struct @pS { a: @T } impl @pS { fn @pf(self, x: @U) -> @T { self.a } } ", "fn @pg(s: @pS) -> @T { s.@pf(@u) }", "fn @pg(s: @pS) -> @T { s.@pf() }"),
    ("a method called with an argument of another type", "struct @pS { a: @T } impl @pS { fn @pf(self, x: @U) -> @T { self.a } } ", "fn @pg(s: @pS) -> @T { s.@pf(@u) }", "fn @pg(s: @pS) -> @T { s.@pf(@v) }"),
    ("a method with its argument by another name", "struct @pS { a: @T } impl @pS { fn @pf(self, x: @U) -> @T { self.a } } ", "fn @pg(s: @pS) -> @T { s.@pf$(x: @u) }", "fn @pg(s: @pS) -> @T { s.@pf$(y: @u) }"),
    ("an associated function called as a method", "struct @pS { a: @T } ", "impl @pS { fn @pf(self) -> @T { @t } } fn @pg(s: @pS) -> @T { s.@pf() }", "impl @pS { fn @pf(x: @U) -> @T { @t } } fn @pg(s: @pS) -> @T { s.@pf() }"),
    ("an entity method used without inst", "struct @pS { a: @T } impl @pS { entity @pf(self, c: clock) -> @T { reg(c) x = self.a; x } } ", "entity @pg(c: clock, s: @pS) -> @T { s.inst @pf(c) }", "entity @pg(c: clock, s: @pS) -> @T { s.@pf(c) }"),
    ("a function method used with inst", "struct @pS { a: @T } impl @pS { fn @pf(self) -> @T { self.a } } ", "entity @pg(c: clock, s: @pS) -> @T { s.@pf() }", "entity @pg(c: clock, s: @pS) -> @T { s.inst @pf() }"),
    ("a pipeline method with another latency", "struct @pS { a: @T } impl @pS { pipeline(@n) @pf(self, c: clock) -> @T { reg * @n; self.a } } ", "entity @pg(c: clock, s: @pS) -> @T { s.inst(@n) @pf(c) }", "entity @pg(c: clock, s: @pS) -> @T { s.inst(@m) @pf(c) }"),
    ("an undefined associated function", "struct @pS { a: @T } impl @pS { fn @pf(x: @T) -> @T { x } } ", "fn @pg(x: @T) -> @T { @pS::@pf(x) }", "fn @pg(x: @T) -> @T { @pS::@ph(x) }"),
    ("a member of a private module item", "", "mod @pm { pub fn f(x: @T) -> @T { x } } fn @pg(x: @T) -> @T { @pm::f(x) }", "mod @pm { fn f(x: @T) -> @T { x } } fn @pg(x: @T) -> @T { @pm::f(x) }"),
    ("an undefined item of a module", "mod @pm { pub fn f(x: @T) -> @T { x } } ", "fn @pg(x: @T) -> @T { @pm::f(x) }", "fn @pg(x: @T) -> @T { @pm::g(x) }"),
    ("a use of something that does not exist", "mod @pm { pub fn f(x: @T) -> @T { x } } ", "use @pm::f as @ph; fn @pg(x: @T) -> @T { @ph(x) }", "use @pm::g as @ph; fn @pg(x: @T) -> @T { x }"),
    ("a name defined and imported", "mod @pm { pub fn f(x: @T) -> @T { x } } ", "use @pm::f as @ph; fn @pg(x: @T) -> @T { @ph(x) }", "use @pm::f as @ph; fn @ph(x: @T) -> @T { x }"),
    ("a module defined twice", "mod @pm { fn f(x: @T) -> @T { x } } ", "mod @pn { fn f(x: @T) -> @T { x } }", "mod @pm { fn f(x: @T) -> @T { x } }"),
    ("a reset value of another type", "", "entity @pf(c: clock, r: bool, x: @T) -> @T { reg(c) a reset(r: @t) = x; a }", "entity @pf(c: clock, r: bool, x: @T) -> @T { reg(c) a reset(r: @u) = x; a }"),
    ("an initial value of another type", "", "entity @pf(c: clock, r: bool, x: @T) -> @T { reg(c) a initial(@t) = x; a }", "entity @pf(c: clock, r: bool, x: @T) -> @T { reg(c) a initial(@u) = x; a }"),
    ("an initial value that is not constant", "", "entity @pf(c: clock, r: bool, x: @T) -> @T { reg(c) a initial(@t) = x; a }", "entity @pf(c: clock, r: bool, x: @T) -> @T { reg(c) a initial(x) = x; a }"),
    ("a reset condition that is not a bool", "", "entity @pf(c: clock, r: bool, x: @T) -> @T { reg(c) a reset(r: @t) = x; a }", "entity @pf(c: clock, r: uint<@n>, x: @T) -> @T { reg(c) a reset(r: @t) = x; a }"),
    ("a clock that is a bool", "", "entity @pf(c: clock, r: bool, x: @T) -> @T { reg(c) a = x; a }", "entity @pf(c: clock, r: bool, x: @T) -> @T { reg(r) a = x; a }"),
    ("a register pattern that may not match", "", "entity @pf(c: clock, x: (bool, @T)) -> @T { reg(c) (_, a) = x; a }", "entity @pf(c: clock, x: (bool, @T)) -> @T { reg(c) (true, a) = x; a }"),
    ("a decl without use of its name", "", "entity @pf(c: clock, x: @T) -> @T { decl a; let b = a; let a = x; b }", "entity @pf(c: clock, x: @T) -> @T { decl a; let b = a; b }"),
    ("a declared name defined twice", "", "entity @pf(c: clock, x: @T) -> @T { decl a; let b: @T = a; let a = x; b }", "entity @pf(c: clock, x: @T) -> @T { decl a; decl a; let b: @T = a; let a = x; b }"),
    ("a variant given as a type", "enum @pE { A { x: @T }, B } ", "fn @pf(x: @pE) -> bool { true }", "fn @pf(x: @pE::A) -> bool { true }"),
    ("a type used as a function", "struct @pS { a: @T } enum @pE { A { x: @T }, B } ", "fn @pf(x: @T) -> @pE { @pE::A(x) }", "fn @pf(x: @T) -> @pE { @pE(x) }"),
    ("a variant of another enum", "enum @pE { A { x: @T }, B } enum @pF { C { x: @T }, D } ", "fn @pf(x: @T) -> @pE { @pE::A(x) }", "fn @pf(x: @T) -> @pE { @pE::C(x) }"),
    ("a pattern of a variant of another enum", "enum @pE { A { x: @T }, B } enum @pF { C { x: @T }, D } ", "fn @pf(x: @pE) -> bool { match x { @pE::A(_) => true, @pE::B => false } }", "fn @pf(x: @pE) -> bool { match x { @pF::C(_) => true, @pE::A(_) => true, @pE::B => false } }"),
    ("an array length that does not fit", "", "fn @pf(x: @T) -> [@T; @n] { [x; @n] }", "fn @pf(x: @T) -> [@T; @n] { [x; @m] }"),
    ("an array of arrays of another shape", "", "fn @pf(x: [[@T; @n]; @m]) -> [@T; @n] { x[0] }", "fn @pf(x: [[@T; @m]; @n]) -> [@T; @n] { x[0] }"),
    ("a range that does not fit the result", "", "fn @pf(x: [@T; @m]) -> [@T; @n] { x[0..@n] }", "fn @pf(x: [@T; @m]) -> [@T; @n] { x[0..@m] }"),
    ("a sum of another width", "", "fn @pf(x: uint<@n>, y: uint<@n>) -> uint<{@n + 1}> { x + y }", "fn @pf(x: uint<@n>, y: uint<@n>) -> uint<@n> { x + y }"),
    ("operands of different widths", "", "fn @pf(x: uint<@n>, y: uint<@n>) -> uint<@n> { x +. y }", "fn @pf(x: uint<@n>, y: uint<@m>) -> uint<@m> { x +. y }"),
    ("operands of different signs", "", "fn @pf(x: uint<@n>, y: uint<@n>) -> bool { x == y }", "fn @pf(x: uint<@n>, y: int<@n>) -> bool { x == y }"),
    ("a product of another width", "", "fn @pf(x: int<@n>, y: int<@m>) -> int<{@n + @m}> { x * y }", "fn @pf(x: int<@n>, y: int<@m>) -> int<{@n + @m + 1}> { x * y }"),
    ("negation of an unsigned number", "", "fn @pf(x: int<@n>) -> int<@n> { -x }", "fn @pf(x: uint<@n>) -> uint<@n> { -x }"),
    ("an assert of something that is not a bool", "", "entity @pf(x: uint<@n>) { assert x == 0; }", "entity @pf(x: uint<@n>) { assert x; }"),
    ("an unknown attribute", "", "#[inline] fn @pf(x: @T) -> @T { x }", "#[nosuch] fn @pf(x: @T) -> @T { x }"),
    ("an attribute where it has no meaning", "", "#[inline] fn @pf(x: @T) -> @T { x }", "#[inline] struct @pS { x: @T }"),
    ("a const expression of a bool", "", "fn @pf<#uint N, #uint B>(x: uint<N>, y: uint<{N + B}>) -> bool { true } fn @pg() -> bool { @pf::<@n, 1>(0, 0) }", "fn @pf<#uint N, #bool B>(x: uint<N>, y: uint<{N + B}>) -> bool { true } fn @pg() -> bool { @pf::<@n, true>(0, 0) }"),
    ("a stage reference in a lambda", "", "pipeline(2) @pf(c: clock, x: @T) -> @T { let y = x; reg; let f = fn |a| { a }; reg; f.call((y,)) }", "pipeline(2) @pf(c: clock, x: @T) -> @T { let y = x; reg; let f = fn |a| { let b = stage(-1).y; a }; reg; f.call((y,)) }"),
    ("stage.valid in a lambda", "", "pipeline(1) @pf(c: clock, x: @T) -> bool { reg; let f = fn |a| { true }; f.call((x,)) }", "pipeline(1) @pf(c: clock, x: @T) -> bool { reg; let f = fn |a| { stage.valid }; f.call((x,)) }"),
    ("a register in a lambda that is a function", "", "entity @pf(c: clock, x: @T) -> @T { let f = entity |clk, a| { reg(clk) b = a; b }; f.inst call(c, (x,)) }", "entity @pf(c: clock, x: @T) -> @T { let f = fn |clk, a| { reg(clk) b = a; b }; f.call((c, x)) }"),
    ("a pipeline label used as a value", "", "pipeline(1) @pf(c: clock, x: @T) -> @T { reg; 'a x }", "pipeline(1) @pf(c: clock, x: @T) -> uint<@n> { reg; 'a a }"),
];

fn types(g: &mut Gen) -> Vec<(String, String)> {
    let n = g.usize(2, 9);
    let m = g.usize(2, 9);
    let k = g.usize(2, 4);
    let mut v = vec![
        ("bool".to_string(), "true".to_string()),
        (format!("uint<{n}>"), format!("1u{n}")),
        (format!("int<{m}>"), format!("-1i{m}")),
        (format!("(bool, uint<{m}>)"), format!("(false, 0u{m})")),
        (format!("[int<{n}>; {k}]"), format!("[0i{n}; {k}]")),
        (format!("uint<{}>", n + 1), format!("2u{}", n + 1)),
        (format!("((bool, bool), int<{n}>)"), format!("((true, false), 1i{n})")),
    ];
    let mut out = vec![];
    for _ in 0..3 {
        let i = g.usize(0, v.len() - 1);
        out.push(v.remove(i));
    }
    out
}

pub fn rule_case(g: &mut Gen) -> CaseFn2 {
    let (what, common, good, bad) = *g.pick(RULES);
    let t = types(g);
    let n = g.usize(2, 7);
    let m = n + g.usize(1, 6);
    let k = g.usize(1, 3);
    let fill = |s: &str| {
        let mut s = s.to_string();
        for (a, b) in [("@T", &t[0].0), ("@U", &t[1].0), ("@V", &t[2].0), ("@t", &t[0].1), ("@u", &t[1].1), ("@v", &t[2].1)] {
            s = s.replace(a, b);
        }
        s.replace("@n", &n.to_string()).replace("@m", &m.to_string()).replace("@k", &k.to_string())
    };
    // names with the prefix are handled first, so that they do not look like the others
    let pre = |s: &str| s.replace("@p", "\u{1}");
    let post = |s: String| s.replace('\u{1}', "u0_");
    let p = |s: &str| post(fill(&pre(s)));
    let (common, good, bad) = (p(common), p(good), p(bad));
    let order = g.bool();
    let join = |a: &str, b: &str| if order { format!("{a}\n{b}\n") } else { format!("{b}\n{a}\n") };
    let (good, bad) = (join(&common, &good), join(&common, &bad));
    let fail = |class: String, msg: String, src: &str| Err((Failure { class, msg }, json!({"source": src})));
    beat(&good);
    let o = spadec::run(&spadec::single(&good), &Opts::default());
    if let Some(e) = &o.panic {
        return fail(format!("panic {}", norm_panic(e)), format!("the compiler panicked: {e}"), &good);
    }
    if !o.ok {
        return fail(format!("rejected: the valid form of '{what}'"), format!("a valid program was rejected: {}", o.errors().iter().map(|d| d.msg.clone()).collect::<Vec<_>>().join("; ")), &good);
    }
    let msgs = judge_alone(&bad, what, false)?;
    Ok(CaseOk { nontrivial: Some(tape::hash_str(&bad)), sample: json!({"valid": good, "program": bad, "rule": what, "errors": msgs}), feats: vec![what] })
}
type CaseFn2 = Result<CaseOk, (Failure, serde_json::Value)>;
