%% ghost
/// the cache of constants: the context only stores it
#[verifier::external_body]
pub struct Consts { x: u8 }
impl Consts {
    #[verifier::external_body]
    pub fn new() -> (r: Result<Consts, Error>)
        ensures r is Err ==> r->Err_0 == Error::MemoryAllocation,
    { unimplemented!() }
}
/// `Ord::clamp` of exponents
#[verifier::external_body]
pub fn clamp_exponent(x: Exponent, lo: Exponent, hi: Exponent) -> (r: Exponent)
    requires lo <= hi,
    ensures r == (if x < lo { lo } else if x > hi { hi } else { x }),
{ unimplemented!() }
pub open spec fn clamped(x: Exponent, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x as int } }
pub open spec fn rng(emin: Exponent, emax: Exponent) -> bool { EXPONENT_MIN <= emin <= 0 <= emax <= EXPONENT_MAX }
/// the parts of the trait that do not involve constants
pub trait Contextable {
    spec fn cok(&self) -> bool;
    fn precision(&self) -> (r: usize);
    fn rounding_mode(&self) -> (r: RoundingMode);
    fn emin(&self) -> (r: Exponent)
        requires self.cok(),
        ensures EXPONENT_MIN <= r <= 0;
    fn emax(&self) -> (r: Exponent)
        requires self.cok(),
        ensures 0 <= r <= EXPONENT_MAX;
}
%% item ctx.rs||Context
%% ghost
impl Context {
    pub open spec fn wf(&self) -> bool { rng(self.emin, self.emax) }
}
%% fn ctx.rs|impl Context|new
pub fn new(p: usize, rm: RoundingMode, cc: Consts, emin: Exponent, emax: Exponent) -> (ret: Self)
@    ensures ret.wf(), ret.p == p, ret.rm == rm, ret.cc == cc, ret.emin == clamped(emin, EXPONENT_MIN as int, 0), ret.emax == clamped(emax, 0, EXPONENT_MAX as int),
{
    Context {
        cc,
        p,
        rm,
        emin: clamp_exponent(emin, EXPONENT_MIN, 0),
        emax: clamp_exponent(emax, 0, EXPONENT_MAX),
    }
}
%% fn ctx.rs|impl Context|to_raw_parts
pub fn to_raw_parts(self) -> (ret: (usize, RoundingMode, Consts, Exponent, Exponent))
@    ensures ret.0 == self.p, ret.1 == self.rm, ret.2 == self.cc, ret.3 == self.emin, ret.4 == self.emax,
{
    let Context {
        p,
        rm,
        cc,
        emin,
        emax,
    } = self;
    (p, rm, cc, emin, emax)
}
%% fn ctx.rs|impl Context|set_precision
pub fn set_precision(&mut self, p: usize)
@    ensures final(self).p == p, final(self).rm == old(self).rm && final(self).cc == old(self).cc && final(self).emin == old(self).emin && final(self).emax == old(self).emax,
{
    self.p = p;
}
%% fn ctx.rs|impl Context|set_rounding_mode
pub fn set_rounding_mode(&mut self, rm: RoundingMode)
@    ensures final(self).rm == rm, final(self).p == old(self).p && final(self).cc == old(self).cc && final(self).emin == old(self).emin && final(self).emax == old(self).emax,
{
    self.rm = rm;
}
%% fn ctx.rs|impl Context|set_consts
pub fn set_consts(&mut self, cc: Consts)
@    ensures final(self).cc == cc, final(self).p == old(self).p && final(self).rm == old(self).rm && final(self).emin == old(self).emin && final(self).emax == old(self).emax,
{
    self.cc = cc;
}
%% fn ctx.rs|impl Context|set_emin
pub fn set_emin(&mut self, emin: Exponent)
@    ensures old(self).wf() ==> final(self).wf(), final(self).emin == clamped(emin, EXPONENT_MIN as int, 0), final(self).p == old(self).p && final(self).rm == old(self).rm && final(self).cc == old(self).cc && final(self).emax == old(self).emax,
{
    self.emin = clamp_exponent(emin, EXPONENT_MIN, 0);
}
%% fn ctx.rs|impl Context|set_emax
pub fn set_emax(&mut self, emax: Exponent)
@    ensures old(self).wf() ==> final(self).wf(), final(self).emax == clamped(emax, 0, EXPONENT_MAX as int), final(self).p == old(self).p && final(self).rm == old(self).rm && final(self).cc == old(self).cc && final(self).emin == old(self).emin,
{
    self.emax = clamp_exponent(emax, 0, EXPONENT_MAX);
}
%% fn ctx.rs|impl Context|precision
pub fn precision(&self) -> (ret: usize)
@    ensures ret == self.p,
{
    self.p
}
%% fn ctx.rs|impl Context|rounding_mode
pub fn rounding_mode(&self) -> (ret: RoundingMode)
@    ensures ret == self.rm,
{
    self.rm
}
%% fn ctx.rs|impl Context|emin
pub fn emin(&self) -> (ret: Exponent)
@    ensures ret == self.emin,
{
    self.emin
}
%% fn ctx.rs|impl Context|emax
pub fn emax(&self) -> (ret: Exponent)
@    ensures ret == self.emax,
{
    self.emax
}
%% fn ctx.rs|impl Context|clone
pub fn clone(&self) -> (ret: Result<Self, Error>)
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation, ret is Ok ==> ret->Ok_0.p == self.p && ret->Ok_0.rm == self.rm && ret->Ok_0.emin == self.emin && ret->Ok_0.emax == self.emax,
{
    let cc = Consts::new()?;
    Ok(Context {
        p: self.p,
        rm: self.rm,
        cc,
        emin: self.emin,
        emax: self.emax,
    })
}
%% implghost impl Contextable for (usize , RoundingMode , & mut Consts)
open spec fn cok(&self) -> bool { true }
%% fn ctx.rs|impl Contextable for (usize , RoundingMode , & mut Consts)|precision
fn precision(&self) -> (ret: usize)
@    ensures ret == self.0,
{
    self.0
}
%% fn ctx.rs|impl Contextable for (usize , RoundingMode , & mut Consts)|rounding_mode
fn rounding_mode(&self) -> (ret: RoundingMode)
@    ensures ret == self.1,
{
    self.1
}
%% fn ctx.rs|impl Contextable for (usize , RoundingMode , & mut Consts)|emin
fn emin(&self) -> (ret: Exponent)
@    ensures ret == EXPONENT_MIN,
{
    EXPONENT_MIN
}
%% fn ctx.rs|impl Contextable for (usize , RoundingMode , & mut Consts)|emax
fn emax(&self) -> (ret: Exponent)
@    ensures ret == EXPONENT_MAX,
{
    EXPONENT_MAX
}
%% implghost impl Contextable for (usize , RoundingMode , & mut Consts , Exponent , Exponent)
open spec fn cok(&self) -> bool { true }
%% fn ctx.rs|impl Contextable for (usize , RoundingMode , & mut Consts , Exponent , Exponent)|precision
fn precision(&self) -> (ret: usize)
@    ensures ret == self.0,
{
    self.0
}
%% fn ctx.rs|impl Contextable for (usize , RoundingMode , & mut Consts , Exponent , Exponent)|rounding_mode
fn rounding_mode(&self) -> (ret: RoundingMode)
@    ensures ret == self.1,
{
    self.1
}
%% fn ctx.rs|impl Contextable for (usize , RoundingMode , & mut Consts , Exponent , Exponent)|emin
fn emin(&self) -> (ret: Exponent)
@    ensures ret == clamped(self.3, EXPONENT_MIN as int, 0),
{
    clamp_exponent(self.3, EXPONENT_MIN, 0)
}
%% fn ctx.rs|impl Contextable for (usize , RoundingMode , & mut Consts , Exponent , Exponent)|emax
fn emax(&self) -> (ret: Exponent)
@    ensures ret == clamped(self.4, 0, EXPONENT_MAX as int),
{
    clamp_exponent(self.4, 0, EXPONENT_MAX)
}
%% implghost impl Contextable for Context
open spec fn cok(&self) -> bool { self.wf() }
%% fn ctx.rs|impl Contextable for Context|precision
fn precision(&self) -> (ret: usize)
@    ensures ret == self.p,
{
    Context::precision(self)
}
%% fn ctx.rs|impl Contextable for Context|rounding_mode
fn rounding_mode(&self) -> (ret: RoundingMode)
@    ensures ret == self.rm,
{
    Context::rounding_mode(self)
}
%% fn ctx.rs|impl Contextable for Context|emin
fn emin(&self) -> (ret: Exponent)
@    ensures ret == self.emin,
{
    Context::emin(self)
}
%% fn ctx.rs|impl Contextable for Context|emax
fn emax(&self) -> (ret: Exponent)
@    ensures ret == self.emax,
{
    Context::emax(self)
}
%% fn macro_util.rs||check_exponent_range
pub fn check_exponent_range(n: BigFloat, emin: Exponent, emax: Exponent) -> (ret: BigFloat)
@    requires n.wf(),
@    ensures match n.inner { Flavor::Value(v) => if v.e > emax { ret.isinf(v.s) } else if v.e < emin { ret.zero() || nomem(ret) || 64 * v.m.l() >= pmax() } else { ret == n }, _ => ret == n },
{
    if let Some(e) = n.exponent() {
        if e > emax {
            if n.is_positive() {
                INF_POS
            } else {
                INF_NEG
            }
        } else if e < emin {
            BigFloat::new(n.mantissa_max_bit_len().unwrap_or(DEFAULT_P))
        } else {
            n
        }
    } else {
        n
    }
}
