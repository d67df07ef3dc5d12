//! C08, C09: UUID parsing and formatting.
use crate::codec::placements;
use crate::env::Place::{self, *};
use crate::explore::X;
use crate::ops::*;
use crate::refm;

const PARSE: [Op; 6] = [Op::UuidParse, Op::UuidParseSimple, Op::UuidParseHyph, Op::UuidExtParse, Op::UuidExtParseSimple, Op::UuidExtParseHyph];

fn form(f: usize, raw: &[u8], casing: usize) -> Vec<u8> {
    let mut o = vec![];
    refm::uuid_format(f > 0, casing == 1, raw, &mut o);
    if casing == 2 {
        for (i, c) in o.iter_mut().enumerate() {
            if i % 2 == 1 {
                *c = c.to_ascii_uppercase();
            }
        }
    }
    match f {
        2 => {
            o.insert(0, b'{');
            o.push(b'}');
        }
        3 => {
            let mut u = b"urn:uuid:".to_vec();
            u.extend_from_slice(&o);
            o = u;
        }
        _ => {}
    }
    o
}
pub fn raws(k: usize) -> [u8; 16] {
    let mut r = [0u8; 16];
    crate::codec::fill_pat(&mut r, [2, 3, 1, 4, 0, 7, 5, 6][k]);
    if k == 0 {
        r = [0x67, 0xe5, 0x50, 0x44, 0x10, 0xb1, 0x42, 0x6f, 0x92, 0x47, 0xbb, 0x68, 0x0e, 0x5f, 0xe0, 0xc8];
    }
    r
}
#[inline]
fn all(x: &mut X, pl: Place, len: usize) {
    for o in PARSE {
        x.run(o, pl, len, pl, 16);
    }
}

pub fn parse_parts(x: &mut X, part: &str) {
    let t = x.thorough;
    match part {
        "bytes" => {
            // every byte value at every position of every form
            for f in 0..4 {
                for k in 0..8 {
                    for casing in 0..3 {
                        if !x.mine() {
                            continue;
                        }
                        let s = form(f, &raws(k), casing);
                        x.put(End, &s);
                        let b = x.src_buf(End, s.len());
                        for i in 0..s.len() {
                            for v in 0..=255u8 {
                                b[i] = v;
                                all(x, End, s.len());
                            }
                            b[i] = s[i];
                        }
                    }
                }
            }
            x.sample("every byte value at every position of each of the four forms".into());
        }
        "pairs" => {
            let cls: &[u8] = b"0fA:@G`g/-{}un\x00\x80\xff9aF:\x10\x2d\xad\xb0\x0d\x36";
            for f in 0..4 {
                let s = form(f, &raws(0), 2);
                for i in 0..s.len() {
                    if !x.mine() {
                        continue;
                    }
                    x.put(End, &s);
                    let b = x.src_buf(End, s.len());
                    for j in i + 1..s.len() {
                        for &p in cls {
                            b[i] = p;
                            for &q in cls {
                                b[j] = q;
                                all(x, End, s.len());
                            }
                        }
                        b[j] = s[j];
                    }
                    b[i] = s[i];
                }
            }
            x.sample(format!("every position pair x {}^2 characters in each form", cls.len()));
        }
        "allpairs" => {
            // all 65536 values of every pair of characters
            for f in 0..4 {
                let s = form(f, &raws(0), 2);
                for i in 0..s.len() {
                    for j in i + 1..s.len() {
                        if !x.mine() {
                            continue;
                        }
                        x.put(End, &s);
                        let b = x.src_buf(End, s.len());
                        for v in 0..65536usize {
                            (b[i], b[j]) = (v as u8, (v >> 8) as u8);
                            x.run(Op::UuidParse, End, s.len(), End, 16);
                            if f < 2 {
                                x.run(PARSE[[1, 2][f]], End, s.len(), End, 16);
                            }
                        }
                    }
                }
            }
            // the four separators, and the characters of the wrappers
            let seps = b"-,/.+=\r0aFf)%m\xad\x0d\x2f\x9d\x00\xff_: ";
            let k = seps.len();
            for first in 0..k * k {
                if !x.mine() {
                    continue;
                }
                for f in 1..4 {
                    let s = form(f, &raws(0), 2);
                    let at: Vec<usize> = (0..s.len()).filter(|&i| s[i] == b'-').collect();
                    x.put(End, &s);
                    let b = x.src_buf(End, s.len());
                    (b[at[0]], b[at[1]]) = (seps[first / k], seps[first % k]);
                    for second in 0..k * k {
                        (b[at[2]], b[at[3]]) = (seps[second / k], seps[second % k]);
                        x.run(Op::UuidParse, End, s.len(), End, 16);
                        if f == 1 {
                            x.run(PARSE[2], End, s.len(), End, 16);
                        }
                    }
                }
            }
            x.sample(format!("all 2^16 values of every pair of characters in each form; all {k}^4 values of the four separators"));
        }
        "values" => {
            // all 65536 values of every pair of UUID bytes
            for i in 0..16usize {
                for j in i + 1..16 {
                    if !x.mine() {
                        continue;
                    }
                    let mut raw = raws(0);
                    for v in 0..65536usize {
                        raw[i] = (v >> 8) as u8;
                        raw[j] = v as u8;
                        for f in 0..2 {
                            if !t && (v + i + j + f) % 2 == 1 {
                                continue;
                            }
                            let mut o = [0u8; 36];
                            let n = fmt_into(f == 1, v % 3, &raw, &mut o);
                            x.put(End, &o[..n]);
                            x.run(PARSE[[1, 2][f]], End, n, End, 16);
                            x.run(Op::UuidParse, End, n, End, 16);
                        }
                    }
                }
            }
            x.sample("all 2^16 values of every pair of UUID bytes, simple and hyphenated".into());
        }
        "hexpair" => {
            // all 256^2 values of every digit pair and of digit pairs next to hyphens
            for f in 0..2 {
                let s = form(f, &raws(3), 0);
                for i in 0..s.len() - 1 {
                    for p in 0..=255u8 {
                        if !x.mine() {
                            continue;
                        }
                        x.put(End, &s);
                        let b = x.src_buf(End, s.len());
                        b[i] = p;
                        for q in 0..=255u8 {
                            b[i + 1] = q;
                            x.run(PARSE[[1, 2][f]], End, s.len(), End, 16);
                            x.run(PARSE[[0, 3][q as usize % 2]], End, s.len(), End, 16);
                        }
                    }
                }
            }
            x.sample("all 2^16 values of every adjacent character pair".into());
        }
        "lengths" => {
            // every length: prefixes, suffixes, doubled and padded forms; wrappers altered
            for f in 0..4 {
                for k in 0..4 {
                    if !x.mine() {
                        continue;
                    }
                    let s = form(f, &raws(k), k % 3);
                    let mut big = vec![];
                    for _ in 0..4 {
                        big.extend_from_slice(&s);
                    }
                    for len in 0..=big.len() {
                        for st in [0usize, 1, 2, 8, 9, 10] {
                            if st + len <= big.len() {
                                x.put(End, &big[st..st + len]);
                                all(x, End, len);
                                x.put(Start, &big[st..st + len]);
                                all(x, Start, len);
                            }
                        }
                    }
                    for len in 0..=130usize {
                        for c in [b'0', b'-', b'{', 0, 0xff] {
                            let b = x.src_buf(End, len);
                            b.fill(c);
                            all(x, End, len);
                            let mut v = vec![c; len];
                            v[..len.min(s.len())].copy_from_slice(&s[..len.min(s.len())]);
                            x.put(End, &v);
                            all(x, End, len);
                            let mut v = vec![c; len];
                            let m = len.min(s.len());
                            v[len - m..].copy_from_slice(&s[s.len() - m..]);
                            x.put(End, &v);
                            all(x, End, len);
                        }
                    }
                }
            }
            // mixed wrappers
            let h = form(1, &raws(0), 0);
            let si = form(0, &raws(0), 0);
            for (i, pre) in ["", "{", "}", "urn:uuid:", "URN:UUID:", "urn:uuid", "uuid:", "urn:", "urn:uuid: ", " ", "(", "{{", "urn-uuid:", "urn:uuid;", "Urn:uuid:", "urn:Uuid:", "0x"].iter().enumerate() {
                for post in ["", "}", "{", "}}", " ", "\n", ")", "\0", "-", "0"] {
                    if !x.mine() {
                        continue;
                    }
                    for body in [&h, &si] {
                        let mut v = pre.as_bytes().to_vec();
                        v.extend_from_slice(body);
                        v.extend_from_slice(post.as_bytes());
                        x.put(End, &v);
                        all(x, End, v.len());
                    }
                    let _ = i;
                }
            }
            // hyphens at every other set of 4 positions of a 36-character text
            for a in 0..33usize {
                if !x.mine() {
                    continue;
                }
                for b in a + 1..34 {
                    for c in b + 1..35 {
                        for d in c + 1..36 {
                            let s = x.src_buf(End, 36);
                            for (i, v) in s.iter_mut().enumerate() {
                                *v = b"0123456789abcdefABCDEF"[i % 22];
                            }
                            for k in [a, b, c, d] {
                                s[k] = b'-';
                            }
                            x.run(Op::UuidParse, End, 36, End, 16);
                            x.run(Op::UuidParseHyph, End, 36, End, 16);
                        }
                    }
                }
            }
            x.sample("every length 0..=180, every wrapper combination, every placement of four hyphens".into());
        }
        "align" => {
            for (so, d_o, _) in placements(1) {
                if !x.mine() {
                    continue;
                }
                {
                    for f in 0..4 {
                        let s = form(f, &raws((so + d_o) % 8), 2);
                        x.put(At(so), &s);
                        for o in PARSE {
                            x.run(o, At(so), s.len(), At(d_o), 16);
                        }
                    }
                }
            }
        }
        _ => panic!("unknown part {part}"),
    }
}

fn fmt_into(hyphen: bool, casing: usize, raw: &[u8; 16], o: &mut [u8; 36]) -> usize {
    let lo = b"0123456789abcdef";
    let up = b"0123456789ABCDEF";
    let mut n = 0;
    for (i, &b) in raw.iter().enumerate() {
        if hyphen && matches!(i, 4 | 6 | 8 | 10) {
            o[n] = b'-';
            n += 1;
        }
        let set = match casing {
            0 => lo,
            1 => up,
            _ => {
                if i % 2 == 0 {
                    lo
                } else {
                    up
                }
            }
        };
        o[n] = set[(b >> 4) as usize];
        o[n + 1] = set[(b & 15) as usize];
        n += 2;
    }
    n
}

fn fmt_ops() -> Vec<Op> {
    let mut v = vec![];
    for c in 0..2 {
        v.push(Op::UuidFmtSimple(c));
        v.push(Op::UuidFmtHyph(c));
    }
    for c in 0..3 {
        v.push(Op::UuidExtFmtSimple(c));
        v.push(Op::UuidExtFmtHyph(c));
    }
    v
}

pub fn fmt_parts(x: &mut X, part: &str) {
    let t = x.thorough;
    let ops = fmt_ops();
    match part {
        "bytes" => {
            for k in 0..8 {
                for i in 0..16 {
                    if !x.mine() {
                        continue;
                    }
                    x.put(End, &raws(k));
                    let b = x.src_buf(End, 16);
                    for v in 0..=255u8 {
                        b[i] = v;
                        for &o in &ops {
                            x.run(o, End, 16, End, 0);
                            x.run(o, End, 16, Start, 0);
                        }
                    }
                }
            }
            x.sample("every value of every UUID byte, both forms, both cases, raw and adapter".into());
        }
        "flags" => flags(x),
        "values" => {
            for i in 0..16usize {
                for j in i + 1..16 {
                    if !x.mine() {
                        continue;
                    }
                    x.put(End, &raws(0));
                    let b = x.src_buf(End, 16);
                    for v in 0..65536usize {
                        b[i] = (v >> 8) as u8;
                        b[j] = v as u8;
                        for &o in &ops[..4] {
                            if !t && (v + o.code() as usize) % 4 > 1 {
                                continue;
                            }
                            x.run(o, End, 16, End, 0);
                        }
                        x.run(ops[4 + v % 6], End, 16, End, 0);
                    }
                }
            }
            x.sample("all 2^16 values of every pair of UUID bytes".into());
        }
        "align" => {
            for (so, d_o, _) in placements(1) {
                if !x.mine() {
                    continue;
                }
                {
                    x.put(At(so), &raws((so * 3 + d_o) % 8));
                    for &o in &ops {
                        x.canary = true;
                        x.run(o, At(so), 16, At(d_o), 0);
                        x.canary = false;
                    }
                }
            }
        }
        _ => panic!("unknown part {part}"),
    }
}

/// The adapters under every width, precision, alignment, fill, flag and trait; and a writer that fails.
fn flags(x: &mut X) {
    use crate::env::{self, EXPECT_PANIC, IN_CALL, PROGRESS};
    use std::fmt::Write;
    use std::sync::atomic::Ordering::Relaxed;
    use uuid_simd::UuidExt;
    let _ = &EXPECT_PANIC;
    struct Cut<'a>(&'a mut String, usize);
    impl Write for Cut<'_> {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if self.0.len() + s.len() > self.1 {
                return Err(std::fmt::Error);
            }
            self.0.push_str(s);
            Ok(())
        }
    }
    macro_rules! forms {
        ($ad:expr, $lo:expr, $up:expr, $w:expr, $p:expr, $f:expr) => {{
            let (w, p) = ($w, $p);
            $f(0, format_args!("{:w$}", $ad), format_args!("{:w$}", $lo));
            $f(1, format_args!("{:<w$}", $ad), format_args!("{:<w$}", $lo));
            $f(2, format_args!("{:>w$}", $ad), format_args!("{:>w$}", $lo));
            $f(3, format_args!("{:^w$}", $ad), format_args!("{:^w$}", $lo));
            $f(4, format_args!("{:*^w$}", $ad), format_args!("{:*^w$}", $lo));
            $f(5, format_args!("{:->w$x}", $ad), format_args!("{:->w$}", $lo));
            $f(6, format_args!("{:w$x}", $ad), format_args!("{:w$}", $lo));
            $f(7, format_args!("{:^w$X}", $ad), format_args!("{:^w$}", $up));
            $f(8, format_args!("{:w$X}", $ad), format_args!("{:w$}", $up));
            $f(9, format_args!("{:\u{e9}>w$X}", $ad), format_args!("{:\u{e9}>w$}", $up));
            $f(10, format_args!("{:w$.p$}", $ad), format_args!("{:w$.p$}", $lo));
            $f(11, format_args!("{:>w$.p$X}", $ad), format_args!("{:>w$.p$}", $up));
            $f(12, format_args!("{:.p$x}", $ad), format_args!("{:.p$}", $lo));
            $f(13, format_args!("{}", $ad), format_args!("{}", $lo));
            $f(14, format_args!("{:x}", $ad), format_args!("{}", $lo));
            $f(15, format_args!("{:X}", $ad), format_args!("{}", $up));
        }};
    }
    for k in 0..8 {
        let raw = raws(k);
        let arr: [u8; 16] = raw[..].try_into().unwrap();
        for hyphen in [false, true] {
            let mut b = [0u8; 36];
            let n = fmt_into(hyphen, 0, &arr, &mut b);
            let lo = String::from_utf8(b[..n].to_vec()).unwrap();
            let n = fmt_into(hyphen, 1, &arr, &mut b);
            let up = String::from_utf8(b[..n].to_vec()).unwrap();
            for w in 0..=80usize {
                if !x.mine() {
                    continue;
                }
                x.put(End, &raw);
                let u = uuid::Uuid::from_bytes(arr);
                for p in (0..=40usize).chain([77, 255]) {
                    let mut judge = |i: usize, got: std::fmt::Arguments, want: std::fmt::Arguments| {
                        let mut g = String::new();
                        PROGRESS.fetch_add(1, Relaxed);
                        IN_CALL.store(true, Relaxed);
                        let r = g.write_fmt(got);
                        let mut c = String::new();
                        let limit = (w + p) % 90;
                        let rc = Cut(&mut c, limit).write_fmt(got);
                        IN_CALL.store(false, Relaxed);
                        let want = want.to_string();
                        x.cases += 1;
                        x.calls += 2;
                        x.ok += 1;
                        unsafe {
                            env::CASE.op = if hyphen { Op::UuidExtFmtHyph(2) } else { Op::UuidExtFmtSimple(2) };
                            env::CASE.src = raw.as_ptr();
                            env::CASE.src_len = 16;
                            env::CASE.dst_len = 0;
                        }
                        if r.is_err() || g != want {
                            env::violation(&format!("with format {i}, width {w} and precision {p} it prints {g:?} instead of {want:?}"));
                        }
                        if rc.is_ok() != (want.len() <= limit) || !want.starts_with(c.as_str()) {
                            env::violation(&format!("with format {i}, width {w} and precision {p}, a writer with room for {limit} bytes gets {c:?} and {}", if rc.is_ok() { "success" } else { "an error" }));
                        }
                    };
                    if hyphen {
                        forms!(u.format_hyphenated(), lo.as_str(), up.as_str(), w, p, judge);
                    } else {
                        forms!(u.format_simple(), lo.as_str(), up.as_str(), w, p, judge);
                    }
                }
            }
        }
    }
    x.group("formatter flag combinations", 16 * 81 * 43);
    x.sample("both adapters x 16 format specifications x widths 0..=80 x precisions 0..=40, 77, 255, also into a writer that runs out of room".into());
}
