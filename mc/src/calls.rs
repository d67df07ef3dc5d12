//! Prepared calls: an operation with its input and its expected outcome, for histories and schedules.
use crate::env;
use crate::mem::contents;
use crate::ops::{self, *};

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Err,
    Unit,
    Bool(bool),
    Len(usize),
    Bytes(Vec<u8>),
    SameStr,
    OtherStr,
    Panicked,
    Any,
}
impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Bytes(b) => format!("bytes {}", env::hex(&b[..b.len().min(300)])),
            o => format!("{o:?}"),
        }
    }
    pub fn digest(&self) -> u64 {
        let mut h: u64 = 0xcbf29ce484222325;
        let mut eat = |b: u8| h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        match self {
            Out::Err => eat(1),
            Out::Unit => eat(2),
            Out::Bool(b) => eat(3 + *b as u8),
            Out::Len(n) => n.to_le_bytes().iter().for_each(|&b| eat(b)),
            Out::Bytes(v) => {
                eat(6);
                v.iter().for_each(|&b| eat(b))
            }
            Out::SameStr => eat(7),
            Out::OtherStr => eat(8),
            Out::Panicked => eat(9),
            Out::Any => eat(10),
        }
        h
    }
}

/// How a special (not slice based) call is made.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Op(Op),
    /// encoded_length beyond the limit: documented panic
    LenPanic(u8),
}

#[derive(Clone)]
pub struct Call {
    pub kind: Kind,
    pub input: Vec<u8>,
    pub dl: usize,
    pub want: Out,
    pub name: String,
}

impl Call {
    pub fn op(&self) -> Op {
        match self.kind {
            Kind::Op(o) => o,
            Kind::LenPanic(k) => [Op::B64(0, EncLen), Op::B32(0, EncLen), Op::Hex(0, EncLen)][k as usize],
        }
    }
    pub fn panics(&self) -> bool {
        self.want == Out::Panicked
    }
    /// Space this call needs for its source and destination.
    pub fn space(&self) -> (usize, usize) {
        (self.input.len(), self.dst_len())
    }
    pub fn dst_len(&self) -> usize {
        let op = self.op();
        if op.in_place() {
            self.input.len()
        } else if op.has_dst() && !op.dst_fixed() {
            self.dl
        } else {
            op.fixed_dst(self.input.len())
        }
    }
    /// Prepares the destination.
    pub unsafe fn prepare(&self, dst: *mut u8) {
        if self.op().in_place() {
            core::ptr::copy_nonoverlapping(self.input.as_ptr(), dst, self.input.len());
        } else {
            core::ptr::write_bytes(dst, 0xEE, self.dst_len());
        }
    }
    /// Makes the call. `src` holds the input; `dst` was prepared.
    #[inline(never)]
    pub unsafe fn raw(&self, src: *const u8, dst: *mut u8) -> R {
        match self.kind {
            Kind::Op(op) => ops::exec(op, src, self.input.len(), dst, self.dst_len()),
            Kind::LenPanic(k) => {
                let n = usize::MAX / 2 + 1 + self.input.len();
                R::Len(match k {
                    0 => base64_simd::STANDARD.encoded_length(n),
                    1 => base32_simd::BASE32.encoded_length(n),
                    _ => hex_simd::encoded_length(n),
                })
            }
        }
    }
    pub unsafe fn outcome(&self, r: R, src: *const u8) -> Out {
        match r {
            R::Err => Out::Err,
            R::Unit => Out::Unit,
            R::Bool(b) => Out::Bool(b),
            R::Len(n) => Out::Len(n),
            R::Bytes(p, n) => Out::Bytes(core::slice::from_raw_parts(p, n.min(1 << 20)).to_vec()),
            R::Heap(v) => Out::Bytes(v),
            R::Str(p, n) => {
                if p == src && n == self.input.len() {
                    Out::SameStr
                } else {
                    Out::OtherStr
                }
            }
        }
    }
    /// Compares without building an outcome when it is right.
    pub unsafe fn right(&self, r: &R, src: *const u8) -> bool {
        match (&self.want, r) {
            (Out::Any, _) => true,
            (Out::Err, R::Err) | (Out::Unit, R::Unit) => true,
            (Out::Bool(a), R::Bool(b)) => a == b,
            (Out::Len(a), R::Len(b)) => a == b,
            (Out::Bytes(a), R::Bytes(p, n)) => a.len() == *n && core::slice::from_raw_parts(*p, *n) == &a[..],
            (Out::Bytes(a), R::Heap(v)) => a == v,
            (Out::SameStr, R::Str(p, n)) => *p == src && *n == self.input.len(),
            _ => false,
        }
    }
}

pub fn make(op: Op, input: Vec<u8>, dl: usize) -> Call {
    let mut out = vec![];
    let mut tmp = vec![];
    let mut c = Call { kind: Kind::Op(op), name: String::new(), input, dl, want: Out::Any };
    let d = c.dst_len();
    c.want = match ops::expect(op, &c.input, d, &mut out, &mut tmp) {
        Exp::Err | Exp::NoStr => Out::Err,
        Exp::Unit => Out::Unit,
        Exp::Bool(b) => Out::Bool(b),
        Exp::Len(n) => Out::Len(n),
        Exp::Bytes => Out::Bytes(out),
        Exp::SameStr => Out::SameStr,
        Exp::Any => Out::Any,
        Exp::Panic => Out::Panicked,
    };
    c.name = format!("{}[{}{}]", op.name(), c.input.len(), if matches!(c.want, Out::Err | Out::Bool(false)) { ",bad" } else { "" });
    c
}

/// The alphabet of calls: for every operation a short and a vector-sized input, accepted and rejected,
/// and the documented panics. `size` 0: one call per operation, 1: a few, 2: many.
pub fn alphabet(size: usize) -> Vec<Call> {
    let mut r = vec![];
    for op in Op::all() {
        let lens: &[usize] = if op.fixed16() {
            &[16]
        } else {
            match op {
                Op::UuidParse | Op::UuidExtParse => &[36, 32, 45, 38][..if size == 0 { 1 } else if size == 1 { 2 } else { 4 }],
                Op::UuidParseSimple | Op::UuidExtParseSimple => &[32],
                Op::UuidParseHyph | Op::UuidExtParseHyph => &[36],
                _ => &[72, 4, 136, 40, 0, 24, 2104][..if size == 0 { 1 } else if size == 1 { 2 } else { 7 }],
            }
        };
        for &n in lens {
            let cs = contents(op, n, false);
            let k = if size == 0 { 1 } else if size == 1 { 2 } else { 4 };
            let mut picked = 0;
            let m = cs.len();
            for (i, s) in cs.into_iter().enumerate() {
                // the valid one, then errors at different places
                if picked >= k || (i > 0 && i + 1 < m && size == 1 && i % 2 == 1) {
                    continue;
                }
                picked += 1;
                r.push(make(op, s, n * 2 + 16));
            }
        }
        // too short a destination: error or documented panic
        if op.has_dst() && !op.dst_fixed() && size > 0 {
            let s = contents(op, 72, false).into_iter().next().unwrap();
            r.push(make(op, s, 4));
        }
    }
    for k in 0..3 {
        r.push(Call { kind: Kind::LenPanic(k), input: vec![], dl: 0, want: Out::Panicked, name: format!("encoded_length panic {k}") });
    }
    r
}
