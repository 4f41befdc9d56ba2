NUM='astro-float-num/src/num.rs'; MAN='astro-float-num/src/mantissa/mantissa.rs'; EXT='astro-float-num/src/ext.rs'; CTX='astro-float-num/src/ctx.rs'; MU='astro-float-num/src/macro_util.rs'
BUGS=[
dict(id='c06-cmp-tail',property='C06',
 edits=[(MAN,"        for v in iter2 {\n            if v != 0 {\n                return -1;","        for v in iter2.take(n + 1) {\n            if v != 0 {\n                return -1;")],
 needs='two numbers that agree on all words of the shorter one, the longer one more than twice as long, second, and different from zero only in its lowest words',
 breaks='cmp and abs_cmp report such numbers as equal when the longer one is the second argument',
 demo='''use astro_float_num::{BigFloat,Sign};
fn main(){
 let h=0x8000000000000000u64;
 let a=BigFloat::from_words(&[1,0,0,h],Sign::Pos,3); let b=BigFloat::from_words(&[h],Sign::Pos,3);
 assert!(a.cmp(&b).unwrap()>0); assert!(b.cmp(&a).unwrap()<0);
}'''),
dict(id='c06-exp-wrap',property='C06',
 edits=[(NUM,"let e: isize = self.e as isize - n1 - d2.e as isize + n2;","let e = (self.e as isize - n1 - d2.e as isize + n2) as Exponent;")],
 needs='two numbers whose exponents differ by 2^31 or more',
 breaks='the difference of the exponents wraps around and the order of a huge and a tiny number is reversed',
 demo='''use astro_float_num::{BigFloat,Sign};
fn main(){
 let h=0x8000000000000000u64;
 let a=BigFloat::from_words(&[h],Sign::Pos,2000000000); let b=BigFloat::from_words(&[h],Sign::Pos,-1000000000);
 assert!(a.cmp(&b).unwrap()>0); assert!(b.abs_cmp(&a).unwrap()<0);
}'''),
dict(id='c06-max-tie',property='C06',
 edits=[(NUM,"        if self.s != d2.s {","        if self.s != d2.s && !(self.m.is_subnormal() && d2.m.is_subnormal()) {")],
 needs='two subnormal numbers with different signs',
 breaks='cmp ignores the sign of the second number and orders by magnitude when both are subnormal',
 demo='''use astro_float_num::{BigFloat,Sign,EXPONENT_MIN};
fn main(){
 let a=BigFloat::from_raw_parts(&[5,9],68,Sign::Pos,EXPONENT_MIN,false);
 let b=BigFloat::from_raw_parts(&[5,10],68,Sign::Neg,EXPONENT_MIN,false);
 assert!(a.cmp(&b).unwrap()>0); assert!(b.cmp(&a).unwrap()<0); assert!(a.max(&b).is_positive());
}'''),
dict(id='c10-zero-inf',property='C10',
 edits=[(EXT,"                    Flavor::Inf(s2) => {\n                        if v1.is_zero() {\n                            // 0*inf","                    Flavor::Inf(s2) => {\n                        if v1.is_zero() && v1.sign().is_positive() {\n                            // 0*inf")],
 needs='the product of negative zero and an infinity',
 breaks='-0 * Inf is an infinity instead of NaN',
 demo='''use astro_float_num::{BigFloat,Sign,RoundingMode,INF_POS};
fn main(){
 let mut z=BigFloat::new(64); assert!(z.mul(&INF_POS,64,RoundingMode::ToEven).is_nan());
 z.set_sign(Sign::Neg); assert!(z.mul(&INF_POS,64,RoundingMode::ToEven).is_nan()); assert!(INF_POS.mul(&z,64,RoundingMode::ToEven).is_nan());
}'''),
dict(id='c10-div-sign',property='C10',
 edits=[(EXT,"                    Self::result_to_ext(v1.div(v2, p, rm), v1.is_zero(), v1.sign() == v2.sign())","                    Self::result_to_ext(v1.div(v2, p, rm), v1.is_zero(), v1.is_positive() == v2.is_positive() || v1.is_subnormal())")],
 needs='division of a subnormal number by a zero of the other sign',
 breaks='x/0 has the wrong sign for subnormal x',
 demo='''use astro_float_num::{BigFloat,Sign,RoundingMode};
fn main(){
 let z=BigFloat::new(64); let mut x=BigFloat::min_positive(64); x.set_sign(Sign::Neg);
 assert!(x.div(&z,64,RoundingMode::ToEven).is_inf_neg());
 assert!(BigFloat::from_i8(-1,64).div(&z,64,RoundingMode::ToEven).is_inf_neg());
}'''),
dict(id='c11-raw-parts-len',property='C11',
 edits=[(NUM,"            if m.bit_len() != n {\n                return Err(Error::InvalidArgument);\n            }\n","            if m.bit_len() > n {\n                return Err(Error::InvalidArgument);\n            }\n")],
 needs='raw parts with a number of significant bits larger than that of the words',
 breaks='from_raw_parts accepts a mantissa that is not the one announced and returns a number that is not normalized',
 demo='''use astro_float_num::{BigFloat,Sign};
fn main(){
 let a=BigFloat::from_raw_parts(&[0x4000000000000000u64],64,Sign::Pos,5,false);
 assert!(a.is_nan());
}'''),
dict(id='c11-from-words-shift',property='C11',
 edits=[(NUM,"            if (e as isize) < EXPONENT_MIN as isize + shift as isize {","            if (e as isize) <= EXPONENT_MIN as isize + WORD_BIT_SIZE as isize {")],
 needs='words with more than one leading word of zeroes and an exponent within that distance of the minimum, or an exponent within one word of it',
 breaks='from_words normalizes a number by more or less than the exponent allows',
 demo='''use astro_float_num::{BigFloat,Sign,EXPONENT_MIN};
fn main(){
 let a=BigFloat::from_words(&[0,1],Sign::Pos,EXPONENT_MIN+64);
 let (m,n,_,e,_)=a.as_raw_parts().unwrap();
 assert_eq!((m[0],m[1],n,e),(0,0x8000000000000000,128,EXPONENT_MIN+1));
 let a=BigFloat::from_words(&[0,1],Sign::Pos,EXPONENT_MIN+10);
 let (m,n,_,e,_)=a.as_raw_parts().unwrap();
 assert_eq!((m[0],m[1],n,e),(0,1<<10,75,EXPONENT_MIN));
}'''),
dict(id='c12-neg-clone',property='C12',
 edits=[(NUM,"        let mut ret = self.clone()?;\n        ret.s = Sign::Pos;\n        Ok(ret)","        let mut ret = self.clone()?;\n        ret.s = Sign::Pos;\n        ret.inexact &= !ret.m.is_subnormal();\n        Ok(ret)")],
 needs='the absolute value of an inexact subnormal number',
 breaks='abs clears the inexact flag of subnormal numbers',
 demo='''use astro_float_num::{BigFloat};
fn main(){
 let mut x=BigFloat::min_positive(64); x.set_inexact(true);
 assert!(x.abs().inexact()); 
}'''),
dict(id='c12-classify',property='C12',
 edits=[(MAN,"        self.n < self.max_bit_len()","        self.n + WORD_BIT_SIZE <= self.max_bit_len() || self.n < WORD_BIT_SIZE")],
 needs='a subnormal number of at least two words whose top word is not zero',
 breaks='is_subnormal is false for numbers which have up to 63 leading zero bits',
 demo='''use astro_float_num::{BigFloat,Sign,EXPONENT_MIN};
fn main(){
 let x=BigFloat::from_raw_parts(&[5,1],65,Sign::Pos,EXPONENT_MIN,false);
 assert!(x.is_subnormal());
 let x=BigFloat::from_raw_parts(&[5,1u64<<62],127,Sign::Pos,EXPONENT_MIN,false);
 assert!(x.is_subnormal());
}'''),
dict(id='c16-emin',property='C16',
 edits=[(CTX,"    pub fn set_emin(&mut self, emin: Exponent) {\n        self.emin = emin.clamp(EXPONENT_MIN, 0);","    pub fn set_emin(&mut self, emin: Exponent) {\n        self.emin = emin.clamp(EXPONENT_MIN, self.emax);")],
 needs='a positive minimum exponent set after a positive maximum exponent',
 breaks='a context holds a positive minimum exponent',
 demo='''use astro_float_num::{ctx::Context,Consts,RoundingMode};
fn main(){
 let mut c=Context::new(64,RoundingMode::ToEven,Consts::new().unwrap(),-100,100);
 c.set_emin(50); assert_eq!(c.emin(),0);
}'''),
dict(id='c16-range-subnormal',property='C16',
 edits=[(MU,"        } else if e < emin {\n            BigFloat::new","        } else if e < emin || n.is_subnormal() && e <= emin {\n            BigFloat::new")],
 needs='a subnormal number and a context with the minimum exponent of the library',
 breaks='check_exponent_range flushes subnormal numbers inside the range to zero',
 demo='''use astro_float_num::{macro_util::check_exponent_range,BigFloat,EXPONENT_MIN,EXPONENT_MAX};
fn main(){
 let x=BigFloat::min_positive(64);
 assert!(!check_exponent_range(x.clone(),EXPONENT_MIN,EXPONENT_MAX).is_zero());
 assert!(check_exponent_range(x,EXPONENT_MIN+1,EXPONENT_MAX).is_zero());
}'''),
]
