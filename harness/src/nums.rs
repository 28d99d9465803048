//! Wide integers and decimals against exact arithmetic: results, refusals (an abort, which the chain
//! turns into a failed transaction), texts and conversions.
use crate::big::{big, Big, E18};
use crate::check::{Cx, V};
use crate::rng::Rng;
use bignumber::{Decimal256, Uint256};
use cosmwasm_std::{Decimal, Uint128};
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

fn u(b: &Big) -> Uint256 {
    let mut x = Uint256::zero();
    for i in 0..4 {
        x.0 .0[i] = b.limb(i);
    }
    x
}
fn d(b: &Big) -> Decimal256 {
    let mut x = Decimal256::zero();
    for i in 0..4 {
        x.0 .0[i] = b.limb(i);
    }
    x
}
fn bu(x: Uint256) -> Big {
    Big::from_limbs(&x.0 .0)
}
fn bd(x: Decimal256) -> Big {
    Big::from_limbs(&x.0 .0)
}
fn run<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// up to 256 bits; edges of limbs and of the decimal unit on purpose
fn wide(r: &mut Rng, bits: u64) -> Big {
    let top = Big::pow2(256);
    let v = match r.below(10) {
        0 if r.chance(1, 3) => top.sat_sub(&big(1 + r.below(3))),
        0 => big(r.below(4)),
        1 => {
            let k = r.below(bits + 1) as usize;
            let p = Big::pow2(k.min(255));
            match r.below(3) {
                0 => p,
                1 => p.sat_sub(&Big::one()),
                _ => p.add(&Big::one()),
            }
        }
        2 => Big::pow10(r.below(78) as u32),
        3 => Big::pow10(r.below(78) as u32).sat_sub(&Big::one()),
        4 => big(r.log(128)),
        5 => big(r.log(128)).mul(&big(E18)),
        6 => big(r.log(64)),
        7 => {
            // limbs that are empty or full
            let l: Vec<u64> = (0..4).map(|_| r.pick(&[0, 1, u64::MAX, 1 << 63, 0])).collect();
            Big::from_limbs(&l)
        }
        _ => {
            let l = [r.next(), r.next(), r.next(), r.next()];
            Big::from_limbs(&l).shr(255 - r.below(256) as usize)
        }
    };
    let keep = Big::pow2(bits.min(256) as usize);
    let v = if v >= top { v.shr(v.bits() - 256) } else { v };
    if v >= keep {
        v.shr(v.bits() - bits as usize)
    } else {
        v
    }
}

/// `product`: the value the library needs in 256 bits on its way; `want`: the exact result
fn judge(cx: &mut Cx, what: &str, args: &[&Big], product: Option<Big>, want: Option<Big>, got: Option<Big>) -> V {
    cx.eval();
    let top = Big::pow2(256);
    let show = || args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", ");
    match want {
        None => {
            cx.count("undefined results aborted");
            if got.is_some() {
                return Err(format!("{what} of {} has no result, but {} was given", show(), got.unwrap()));
            }
        }
        Some(w) if w >= top => {
            cx.count("results over 256 bits aborted");
            if let Some(g) = got {
                return Err(format!("{what} of {} is {w}, which does not fit, but {g} was given", show()));
            }
        }
        Some(w) => match got {
            Some(g) => {
                if g != w {
                    return Err(format!("{what} of {} is {w}, but {g} was given", show()));
                }
                cx.count("exact results");
                if args.iter().any(|a| a.bits() > 64) {
                    cx.distinct(&format!("{what}{}", show()));
                    cx.sample(|| format!("{what} of {} = {w}", show()));
                }
            }
            None => {
                // may abort only if it has to form something that does not fit
                if product.map_or(true, |p| p < top) {
                    return Err(format!("{what} of {} is {w}, but it aborted", show()));
                }
                cx.count("results whose product does not fit aborted");
            }
        },
    }
    Ok(())
}

/// P28
pub fn arithmetic(cx: &mut Cx) -> V {
    let e = big(E18);
    for _ in 0..60 {
        let ba = cx.r.range(1, 256);
        let bb = cx.r.range(1, 256);
        let a = wide(&mut cx.r, ba);
        // often such that the product is around the edge
        let bb = if cx.r.chance(1, 2) { (257 - a.bits().min(256) as u64 + cx.r.below(3)).clamp(1, 256) } else { bb };
        let mut b = wide(&mut cx.r, bb);
        if cx.r.chance(1, 10) {
            b = if cx.r.chance(1, 2) { a.clone() } else { a.sat_sub(&Big::one()) };
        }
        let bc = cx.r.range(1, 256);
        let c = wide(&mut cx.r, bc);
        let quot = |n: &Big, m: &Big| if m.is_zero() { None } else { Some(n.div(m)) };
        let ab = a.mul(&b);
        match cx.r.below(18) {
            0 => judge(cx, "integer sum", &[&a, &b], None, Some(a.add(&b)), run(|| bu(u(&a) + u(&b))))?,
            1 => judge(cx, "integer running sum", &[&a, &b], None, Some(a.add(&b)), run(|| {
                let mut x = u(&a);
                x += u(&b);
                bu(x)
            }))?,
            2 => judge(cx, "integer difference", &[&a, &b], None, a.checked_sub(&b), run(|| bu(u(&a) - u(&b))))?,
            3 => judge(cx, "integer product", &[&a, &b], None, Some(ab.clone()), run(|| bu(u(&a) * u(&b))))?,
            4 => {
                let g = run(|| bu(u(&a).multiply_ratio(u(&b), u(&c))));
                judge(cx, "multiplication by a ratio", &[&a, &b, &c], Some(ab.clone()), quot(&ab, &c), g)?
            }
            5 => {
                let g = run(|| bu(u(&a) * d(&b)));
                judge(cx, "integer times decimal", &[&a, &b], Some(ab.clone()), Some(ab.div(&e)), g)?
            }
            6 => {
                let g = run(|| bu(d(&a) * u(&b)));
                judge(cx, "decimal times integer", &[&a, &b], Some(ab.clone()), Some(ab.div(&e)), g)?
            }
            7 => {
                let n = a.mul(&e);
                let g = run(|| bu(u(&a) / d(&b)));
                judge(cx, "integer over decimal", &[&a, &b], Some(n.clone()), quot(&n, &b), g)?
            }
            8 => judge(cx, "decimal sum", &[&a, &b], None, Some(a.add(&b)), run(|| bd(d(&a) + d(&b))))?,
            9 => judge(cx, "decimal running sum", &[&a, &b], None, Some(a.add(&b)), run(|| {
                let mut x = d(&a);
                x += d(&b);
                bd(x)
            }))?,
            10 => judge(cx, "decimal difference", &[&a, &b], None, a.checked_sub(&b), run(|| bd(d(&a) - d(&b))))?,
            11 => judge(cx, "decimal product", &[&a, &b], Some(ab.clone()), Some(ab.div(&e)), run(|| bd(d(&a) * d(&b))))?,
            12 => {
                let n = a.mul(&e);
                judge(cx, "decimal quotient", &[&a, &b], Some(n.clone()), quot(&n, &b), run(|| bd(d(&a) / d(&b))))?
            }
            13 => {
                let n = a.mul(&e);
                let g = run(|| bd(Decimal256::from_ratio(u(&a), u(&b))));
                judge(cx, "ratio", &[&a, &b], Some(n.clone()), quot(&n, &b), g)?
            }
            14 => judge(cx, "decimal of an integer", &[&a], None, Some(a.mul(&e)), run(|| bd(Decimal256::from_uint256(u(&a)))))?,
            15 => {
                let x = cx.r.log(64) as u64;
                let (bx, p) = (big(x), cx.r.chance(1, 2));
                let unit = big(if p { E18 / 100 } else { E18 / 1000 });
                let g = run(|| bd(if p { Decimal256::percent(x) } else { Decimal256::permille(x) }));
                judge(cx, if p { "percent" } else { "permille" }, &[&bx], None, Some(bx.mul(&unit)), g)?
            }
            16 => {
                // into 128 bits: exact or aborted
                let want = if a.bits() <= 128 { Some(a.clone()) } else { None };
                let g = if cx.r.chance(1, 2) {
                    run(|| big(u128::from(u(&a))))
                } else {
                    run(|| big(Uint128::from(u(&a)).u128()))
                };
                judge(cx, "128-bit value", &[&a], None, want, g)?
            }
            _ => {
                cx.eval();
                let same = (u(&a).cmp(&u(&b)), d(&a).cmp(&d(&b)), u(&a) == u(&b), d(&a) == d(&b), u(&a).is_zero(), d(&a).is_zero());
                let z = a.is_zero();
                let want = (a.cmp(&b), a.cmp(&b), a == b, a == b, z, z);
                if same != want {
                    return Err(format!("comparing {a} and {b} gives {same:?}"));
                }
                if u(&a).max(u(&b)) != u(&(if a > b { a.clone() } else { b.clone() })) {
                    return Err(format!("the larger of {a} and {b} is wrong"));
                }
            }
        }
    }
    Ok(())
}

/// whole.fraction with the trailing zeros cut
fn text(b: &Big) -> String {
    let (w, f) = b.divrem(&big(E18));
    if f.is_zero() {
        return w.to_string();
    }
    let f = format!("{:0>18}", f.to_string());
    format!("{w}.{}", f.trim_end_matches('0'))
}

#[derive(Debug)]
enum P {
    Value(Big),
    No,
    /// an empty part stands for zero, or is refused
    Open(Big),
}
fn parse(s: &str) -> P {
    let p: Vec<&str> = s.split('.').collect();
    if p.len() > 2 || !p.iter().all(|x| x.bytes().all(|b| b.is_ascii_digit())) {
        return P::No;
    }
    let f = p.get(1).copied().unwrap_or("0");
    if f.len() > 18 {
        return P::No;
    }
    let n = |s: &str| if s.is_empty() { Big::zero() } else { Big::parse(s).unwrap() };
    let v = n(p[0]).mul(&big(E18)).add(&n(f).mul(&Big::pow10(18 - f.len() as u32)));
    if v >= Big::pow2(256) {
        P::No
    } else if p.iter().any(|x| x.is_empty()) {
        P::Open(v)
    } else {
        P::Value(v)
    }
}

fn some_text(r: &mut Rng) -> String {
    let digits = |r: &mut Rng, n: u64| -> String {
        (0..n).map(|_| (b'0' + if r.chance(1, 3) { r.pick(&[0, 9]) } else { r.below(10) as u8 }) as char).collect()
    };
    let top = Big::pow2(256).sub(&Big::one());
    match r.below(12) {
        0 => {
            let n = r.below(80);
            digits(r, n)
        }
        1 | 2 => {
            let (a, b) = (r.below(62), r.below(21));
            format!("{}.{}", digits(r, a), digits(r, b))
        }
        3 => {
            let v = big(r.below(3)).add(&top).sub(&big(r.below(3)));
            text(&v)
        }
        4 => {
            let v = big(r.below(3)).add(&top).sub(&big(r.below(3)));
            v.to_string()
        }
        5 => {
            // one odd character
            let mut s = format!("{}.{}", digits(r, 4), digits(r, 4));
            let at = r.idx(s.len() + 1);
            s.insert_str(at, r.pick(&[" ", "-", "+", "e", "_", ".", "x", "\u{0660}", ",", "\t", "/", ":"]));
            s
        }
        6 => r.pick(&["", ".", "1.", ".1", "1..2", "1.2.3", "-1", "+1", "0x1", "1e3", " 1", "1 ", "00", "0.0", "000.100"]).to_string(),
        7 => format!("{}{}", "0".repeat(r.below(100) as usize), digits(r, 3)),
        8 => format!("{}.{}{}", digits(r, 2), "0".repeat(r.below(20) as usize), digits(r, 1)),
        _ => {
            let b = r.range(1, 256);
            text(&wide(r, b))
        }
    }
}

/// P29
pub fn texts(cx: &mut Cx) -> V {
    for _ in 0..40 {
        let bits = cx.r.range(1, 256);
        let a = wide(&mut cx.r, bits);
        cx.eval();
        match cx.r.below(9) {
            0 => {
                // value -> text -> value
                let t = run(|| d(&a).to_string()).ok_or_else(|| format!("the decimal {a} has no text"))?;
                if t != text(&a) {
                    return Err(format!("the decimal of {a} units reads {t} instead of {}", text(&a)));
                }
                match run(|| Decimal256::from_str(&t)) {
                    Some(Ok(x)) if bd(x) == a => {}
                    o => return Err(format!("{t} reads back as {o:?}")),
                }
                cx.distinct(&format!("dt{a}"));
                cx.sample(|| format!("{a} units = {t}"));
                cx.count("decimals to text and back");
            }
            1 => {
                let t = u(&a).to_string();
                let t2 = String::from(u(&a));
                if t != a.to_string() || t2 != t {
                    return Err(format!("{a} reads {t} / {t2}"));
                }
                match (run(|| Uint256::from_str(&t)), run(|| Uint256::try_from(t.as_str()))) {
                    (Some(Ok(x)), Some(Ok(y))) if bu(x) == a && bu(y) == a => {}
                    o => return Err(format!("{t} reads back as {o:?}")),
                }
                cx.distinct(&format!("it{a}"));
                cx.count("integers to text and back");
            }
            2 => {
                let j = run(|| cosmwasm_std::to_vec(&d(&a)).unwrap()).ok_or("no JSON")?;
                if j != format!("\"{}\"", text(&a)).into_bytes() {
                    return Err(format!("the decimal of {a} units is sent as {}", String::from_utf8_lossy(&j)));
                }
                match run(|| cosmwasm_std::from_slice::<Decimal256>(&j)) {
                    Some(Ok(x)) if bd(x) == a => {}
                    o => return Err(format!("{} is received as {o:?}", String::from_utf8_lossy(&j))),
                }
                cx.distinct(&format!("dj{a}"));
                cx.count("decimals to JSON and back");
            }
            3 => {
                let j = run(|| cosmwasm_std::to_vec(&u(&a)).unwrap()).ok_or("no JSON")?;
                if j != format!("\"{a}\"").into_bytes() {
                    return Err(format!("{a} is sent as {}", String::from_utf8_lossy(&j)));
                }
                match run(|| cosmwasm_std::from_slice::<Uint256>(&j)) {
                    Some(Ok(x)) if bu(x) == a => {}
                    o => return Err(format!("{a} is received as {o:?}")),
                }
                cx.distinct(&format!("ij{a}"));
                cx.count("integers to JSON and back");
            }
            4 => {
                // to and from the chain's own 128-bit decimal
                let got = run(|| Decimal::from(d(&a)));
                match (a.u128(), got) {
                    (Some(v), Some(x)) if x.atomics().u128() == v => {
                        cx.distinct(&format!("dd{a}"));
                        cx.count("decimals to 128 bits and back")
                    }
                    (None, None) => cx.count("decimals over 128 bits aborted"),
                    (_, o) => return Err(format!("the decimal of {a} units becomes {o:?} in 128 bits")),
                }
                let v = cx.r.log(128);
                let x = Decimal::new(Uint128::new(v));
                match run(|| Decimal256::from(x)) {
                    Some(y) if bd(y) == big(v) => {}
                    o => return Err(format!("the 128-bit decimal {x} becomes {o:?}")),
                }
            }
            7 => {
                // narrowing is exact or refused, whichever of the upper words is set
                let a = if cx.r.chance(1, 2) {
                    let l: Vec<u64> = (0..4).map(|_| if cx.r.chance(1, 2) { 0 } else { cx.r.next() >> cx.r.below(64) }).collect();
                    Big::from_limbs(&l)
                } else {
                    a
                };
                let got = [run(|| u128::from(u(&a))), run(|| Uint128::from(u(&a)).u128())];
                let want = a.u128();
                if got != [want, want] {
                    return Err(format!("{a} becomes {got:?} in 128 bits"));
                }
                match (a.u128(), run(|| Decimal::from(d(&a)).atomics().u128())) {
                    (w, g) if w == g => {}
                    (_, g) => return Err(format!("the decimal of {a} units becomes {g:?} units in 128 bits")),
                }
                if bu(Uint256::from(u(&a).0)) != a {
                    return Err(format!("{a} changes in the raw type"));
                }
                cx.distinct(&format!("nw{a}"));
                cx.count(if want.is_some() { "narrowed exactly" } else { "narrowings refused" });
            }
            5 => {
                let v = cx.r.log(128);
                let n = v as u64;
                if bu(Uint256::from(v)) != big(v) || bu(Uint256::from(Uint128::new(v))) != big(v) || bu(Uint256::from(n)) != big(n) {
                    return Err(format!("{v} changes when it is widened"));
                }
                if bd(Decimal256::one()) != big(E18) || !Decimal256::zero().is_zero() || bu(Uint256::one()) != Big::one() || !Uint256::zero().is_zero() {
                    return Err("one or zero is wrong".into());
                }
                if bd(Decimal256::MAX) != Big::pow2(256).sub(&Big::one()) {
                    return Err("the largest decimal is wrong".into());
                }
                cx.count("widenings");
            }
            6 => {
                let s = some_text(&mut cx.r);
                let got = if cx.r.chance(1, 2) {
                    run(|| Decimal256::from_str(&s).ok()).flatten()
                } else {
                    run(|| cosmwasm_std::from_slice::<Decimal256>(&serde_json::to_vec(&s).unwrap()).ok()).flatten()
                };
                match (parse(&s), got) {
                    (P::Value(v), Some(g)) if bd(g) == v => {
                        cx.count("decimal texts read");
                        cx.distinct(&format!("t{s}"))
                    }
                    (P::Open(v), Some(g)) if bd(g) == v => {}
                    (P::Open(_), None) => {}
                    (P::No, None) => cx.count("decimal texts refused"),
                    (p, g) => return Err(format!("{s:?} is read as {g:?} instead of {p:?}")),
                }
            }
            _ => {
                let s = some_text(&mut cx.r);
                let got = match cx.r.below(3) {
                    0 => run(|| Uint256::from_str(&s).ok()).flatten(),
                    1 => run(|| Uint256::try_from(s.as_str()).ok()).flatten(),
                    _ => run(|| cosmwasm_std::from_slice::<Uint256>(&serde_json::to_vec(&s).unwrap()).ok()).flatten(),
                };
                let want = if s.bytes().all(|b| b.is_ascii_digit()) && !s.is_empty() {
                    Big::parse(&s).filter(|v| *v < Big::pow2(256))
                } else {
                    None
                };
                match (want, got) {
                    (Some(v), Some(g)) if bu(g) == v => {
                        cx.count("integer texts read");
                        cx.distinct(&format!("n{s}"))
                    }
                    (None, None) => cx.count("integer texts refused"),
                    (None, Some(g)) if s.is_empty() && g.is_zero() => {}
                    (w, g) => return Err(format!("{s:?} is read as {g:?} instead of {w:?}")),
                }
            }
        }
    }
    Ok(())
}
