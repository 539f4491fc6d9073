// What a macro is written with: proc_macro2, syn and quote, as far as the extracted functions use them.
pub mod tokens {
use super::*;
// a token tree; nothing is said of what it looks like
pub struct Tok { t: u8 }
pub type Toks = Seq<Tok>;
#[verifier::external_body]
pub struct TokenStream { t: u8 }
impl TokenStream {
    pub uninterp spec fn view(&self) -> Toks;
    #[verifier::external_body]
    pub fn extend(&mut self, t: TokenStream)
        ensures final(self)@ == old(self)@ + t@
    { unimplemented!() }
}
pub trait ToTokens {
    spec fn toks(&self) -> Toks;
    fn to_tokens(&self, tokens: &mut TokenStream)
        ensures final(tokens)@ == old(tokens)@ + self.toks();
}
// the provided method of ToTokens
pub trait ToTokenStream: ToTokens {
    fn to_token_stream(&self) -> (r: TokenStream)
        ensures r@ == self.toks();
}
impl<X: ToTokens> ToTokenStream for X {
    #[verifier::external_body]
    fn to_token_stream(&self) -> TokenStream { unimplemented!() }
}
#[verifier::external_body]
pub struct Expr { t: u8 }
#[verifier::external_body]
pub struct Type { t: u8 }
#[verifier::external_body]
pub struct LitInt { t: u8 }
#[verifier::external_body]
pub struct LitStr { t: u8 }
#[verifier::external_body]
pub struct Error { t: u8 }
pub struct Comma;
pub struct Colon;
impl ToTokens for Expr {
    uninterp spec fn toks(&self) -> Toks;
    #[verifier::external_body]
    fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() }
}
impl ToTokens for Type {
    uninterp spec fn toks(&self) -> Toks;
    #[verifier::external_body]
    fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() }
}
impl Clone for Expr {
    #[verifier::external_body]
    fn clone(&self) -> Self { unimplemented!() }
}
// ---- parsing
#[verifier::external_body]
pub struct ParseBuffer { t: u8 }
impl ParseBuffer {
    // the tokens still to be read
    pub uninterp spec fn view(&self) -> Toks;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self, c: Comma) -> (r: bool)
        ensures r == at_comma(self@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<T: Parse>(&mut self) -> (r: Result<T, Error>)
        ensures
            r is Ok ==> T::reads(old(self)@, r->Ok_0, final(self)@) && final(self)@.len() < old(self)@.len(),
            r is Err && T::complete() ==> forall|t: T, rest: Toks| !#[trigger] T::reads(old(self)@, t, rest)
    { unimplemented!() }
}
pub trait Parse: Sized {
    // t may be what is read first from ts, rest is left
    spec fn reads(ts: Toks, t: Self, rest: Toks) -> bool;
    // reading fails only where nothing can be read
    open spec fn complete() -> bool { true }
}
pub open spec fn at_comma(ts: Toks) -> bool { exists|c: Comma, rest: Toks| #[trigger] Comma::reads(ts, c, rest) }
impl Parse for Expr { uninterp spec fn reads(ts: Toks, t: Self, rest: Toks) -> bool; }
impl Parse for Type { uninterp spec fn reads(ts: Toks, t: Self, rest: Toks) -> bool; }
impl Parse for Comma { uninterp spec fn reads(ts: Toks, t: Self, rest: Toks) -> bool; }
impl Parse for Colon { uninterp spec fn reads(ts: Toks, t: Self, rest: Toks) -> bool; }
// a literal that is the whole of ts
impl Parse for LitInt { open spec fn reads(ts: Toks, t: Self, rest: Toks) -> bool { lit_int(ts) == Some(t.value()) && rest.len() == 0 } }
impl Parse for LitStr { open spec fn reads(ts: Toks, t: Self, rest: Toks) -> bool { lit_str(ts) == Some(t.text()) && rest.len() == 0 } }
// the value of an integer literal, with or without a sign and a suffix; the text of a string literal
pub uninterp spec fn lit_int(ts: Toks) -> Option<int>;
pub uninterp spec fn lit_str(ts: Toks) -> Option<Seq<char>>;
impl LitInt {
    pub uninterp spec fn value(&self) -> int;
    #[verifier::external_body]
    pub fn base10_parse<K: PrimInt>(&self) -> (r: Result<K, Error>)
        ensures match r { Ok(k) => k.v() == self.value(), Err(_) => !(K::min_v() <= self.value() <= K::max_v()) }
    { unimplemented!() }
}
impl LitStr {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn value(&self) -> (r: String)
        ensures r@ == self.text()
    { unimplemented!() }
}
// the whole of ts is one T
pub open spec fn is_a<T: Parse>(ts: Toks) -> bool { exists|t: T| #[trigger] T::reads(ts, t, Seq::empty()) }
#[verifier::external_body]
pub fn parse2<T: Parse>(ts: TokenStream) -> (r: Result<T, Error>)
    ensures
        r is Ok ==> T::reads(ts@, r->Ok_0, Seq::empty()),
        r is Err && T::complete() ==> !is_a::<T>(ts@)
{ unimplemented!() }
// every integer and every text has a literal that stands for it
pub axiom fn axiom_lits(ts: Toks)
    ensures
        lit_int(ts) is Some ==> is_a::<LitInt>(ts),
        lit_str(ts) is Some ==> is_a::<LitStr>(ts);
impl Error {
    #[verifier::external_body]
    pub fn to_compile_error(&self) -> (r: TokenStream)
        ensures is_error(r@)
    { unimplemented!() }
}
pub uninterp spec fn is_error(ts: Toks) -> bool;
// ---- what is written
#[verifier::external_body]
pub struct Ident { t: u8 }
impl Ident {
    pub uninterp spec fn view(&self) -> Seq<char>;
}
#[verifier::external_body]
pub fn vident(s: &str) -> (r: Ident)
    ensures r@ == s@
{ unimplemented!() }
pub uninterp spec fn shown(ts: Toks) -> Seq<char>;
#[verifier::external_body]
pub fn vformat(t: TokenStream) -> (r: String)
    ensures r@ == shown(t@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vstr_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@)
{ unimplemented!() }
// `#key, #value`; `String::from(#x)`; `String`
pub uninterp spec fn paired(k: Toks, v: Toks) -> Toks;
pub uninterp spec fn string_from(x: Toks) -> Toks;
pub uninterp spec fn string_type() -> Toks;
pub axiom fn axiom_string_from(x: Toks)
    ensures is_a::<Expr>(string_from(x)), is_a::<Type>(string_type());
// an expression or a type that is the whole of ts is written as ts
pub broadcast axiom fn axiom_expr_toks(ts: Toks, e: Expr)
    ensures #[trigger] Expr::reads(ts, e, Seq::empty()) ==> e.toks() == ts;
pub broadcast axiom fn axiom_type_toks(ts: Toks, e: Type)
    ensures #[trigger] Type::reads(ts, e, Seq::empty()) ==> e.toks() == ts;
impl<T, E> VUnwrap<T> for Result<T, E> {
    open spec fn vok(&self) -> bool { self is Ok }
    #[verifier::external_body]
    fn vunwrap(self, p: Ghost<bool>) -> (r: T)
        ensures self == Ok::<T, E>(r)
    { unimplemented!() }
}
// prog, where the macro stands, makes a map whose keys have the type ty and whose entries are kv, and nothing else
pub uninterp spec fn makes(prog: Toks, ty: Toks, kv: Seq<(Toks, Toks)>) -> bool;
}
pub use tokens::*;
pub mod syn { pub type Result<T> = std::result::Result<T, super::Error>; }
broadcast use {tokens::axiom_expr_toks, tokens::axiom_type_toks};
pub mod ints {
use super::*;
impl Unsigned for u16 {}
impl PrimInt for u16 {
    open spec fn v(self) -> int { self as int }
    open spec fn min_v() -> int { 0 }
    open spec fn max_v() -> int { u16::MAX as int }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
    fn max_value() -> (r: Self) { u16::MAX }
    fn min_value() -> (r: Self) { u16::MIN }
    #[verifier::external_body]
    fn to_usize(&self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
impl Unsigned for u64 {}
impl PrimInt for u64 {
    open spec fn v(self) -> int { self as int }
    open spec fn min_v() -> int { 0 }
    open spec fn max_v() -> int { u64::MAX as int }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
    fn max_value() -> (r: Self) { u64::MAX }
    fn min_value() -> (r: Self) { u64::MIN }
    #[verifier::external_body]
    fn to_usize(&self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
impl Unsigned for u128 {}
impl PrimInt for u128 {
    open spec fn v(self) -> int { self as int }
    open spec fn min_v() -> int { 0 }
    open spec fn max_v() -> int { u128::MAX as int }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
    fn max_value() -> (r: Self) { u128::MAX }
    fn min_value() -> (r: Self) { u128::MIN }
    #[verifier::external_body]
    fn to_usize(&self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
impl PrimInt for i8 {
    open spec fn v(self) -> int { self as int }
    open spec fn min_v() -> int { i8::MIN as int }
    open spec fn max_v() -> int { i8::MAX as int }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
    fn max_value() -> (r: Self) { i8::MAX }
    fn min_value() -> (r: Self) { i8::MIN }
    #[verifier::external_body]
    fn to_usize(&self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
impl PrimInt for i16 {
    open spec fn v(self) -> int { self as int }
    open spec fn min_v() -> int { i16::MIN as int }
    open spec fn max_v() -> int { i16::MAX as int }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
    fn max_value() -> (r: Self) { i16::MAX }
    fn min_value() -> (r: Self) { i16::MIN }
    #[verifier::external_body]
    fn to_usize(&self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
impl PrimInt for i32 {
    open spec fn v(self) -> int { self as int }
    open spec fn min_v() -> int { i32::MIN as int }
    open spec fn max_v() -> int { i32::MAX as int }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
    fn max_value() -> (r: Self) { i32::MAX }
    fn min_value() -> (r: Self) { i32::MIN }
    #[verifier::external_body]
    fn to_usize(&self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
impl PrimInt for i64 {
    open spec fn v(self) -> int { self as int }
    open spec fn min_v() -> int { i64::MIN as int }
    open spec fn max_v() -> int { i64::MAX as int }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
    fn max_value() -> (r: Self) { i64::MAX }
    fn min_value() -> (r: Self) { i64::MIN }
    #[verifier::external_body]
    fn to_usize(&self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
impl PrimInt for i128 {
    open spec fn v(self) -> int { self as int }
    open spec fn min_v() -> int { i128::MIN as int }
    open spec fn max_v() -> int { i128::MAX as int }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
    fn max_value() -> (r: Self) { i128::MAX }
    fn min_value() -> (r: Self) { i128::MIN }
    #[verifier::external_body]
    fn to_usize(&self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
impl Fundamental for u16 {
    open spec fn fv(self) -> int { self as int }
    fn as_usize(self) -> (r: usize) { self as usize }
    fn as_u64(self) -> (r: u64) { self as u64 }
}
}
pub use ints::*;
