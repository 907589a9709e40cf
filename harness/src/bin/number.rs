//! C01 (field arithmetic), C02 (conversions and encodings), C03 (CSV column files).
use harness::engine::{catch, main as run, CaseResult, Failure, Gen, Property, Sub};
use harness::{ensure, ensure_eq};
use num_bigint::{BigInt, BigUint as Ref};
use num_traits::{One, Zero};
use powdr_number::*;
use powdr_verif_harness as harness;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

trait Known: FieldElement {
    const NAME: &'static str;
    fn p() -> Ref;
}
macro_rules! known {
    ($t:ty, $n:expr, $p:expr) => {
        impl Known for $t {
            const NAME: &'static str = $n;
            fn p() -> Ref {
                Ref::from_str($p).unwrap()
            }
        }
    };
}
known!(BabyBearField, "BabyBear", "2013265921");
known!(KoalaBearField, "KoalaBear", "2130706433");
known!(Mersenne31Field, "Mersenne31", "2147483647");
known!(GoldilocksField, "Goldilocks", "18446744069414584321");
known!(
    Bn254Field,
    "Bn254",
    "21888242871839275222246405745257275088548364400416034343698204186575808495617"
);

fn big(r: &Ref) -> BigUint {
    BigUint::from_le_bytes(&r.to_bytes_le())
}
fn unbig(b: &BigUint) -> Ref {
    Ref::from_bytes_le(&b.to_le_bytes())
}
fn val<F: FieldElement>(f: F) -> Ref {
    unbig(&f.to_arbitrary_integer())
}
fn mk<F: FieldElement>(r: &Ref) -> F {
    F::from(big(r))
}
fn pow2(k: u64) -> Ref {
    Ref::one() << k
}

/// An integer in 0..p, biased towards the places where carries and reductions happen.
fn gen_val<F: Known>(g: &mut Gen) -> Ref {
    let p = F::p();
    let bits = p.bits();
    let rand_ref = |g: &mut Gen| {
        let mut r = Ref::zero();
        for _ in 0..bits.div_ceil(64) {
            r = (r << 64u32) + Ref::from(g.u64());
        }
        r % &p
    };
    match g.usize(9) {
        0 => Ref::from(g.below(10)),
        1 => &p - Ref::from(1 + g.below(10)),
        2 => {
            // around a power of two
            let k = g.below(bits);
            let x = pow2(k) + Ref::from(g.below(5));
            if x < Ref::from(2u32) {
                Ref::zero()
            } else {
                (x - Ref::from(2u32)) % &p
            }
        }
        3 => {
            // around half
            let h: Ref = (&p - Ref::one()) / Ref::from(2u32);
            (h + Ref::from(g.below(7)) - Ref::from(3u32)) % &p
        }
        4 => {
            // low half zero
            let k = bits / 2;
            ((rand_ref(g) >> k) << k) % &p
        }
        5 => {
            // low half ones
            let k = bits / 2;
            (((rand_ref(g) >> k) << k) + (pow2(k) - Ref::one())) % &p
        }
        6 => {
            // few bits: sparse
            let mut r = Ref::zero();
            for _ in 0..g.range(1, 3) {
                r += pow2(g.below(bits));
            }
            r % &p
        }
        7 => {
            // p minus something medium
            let k = g.below(bits);
            let x = rand_ref(g) % pow2(k);
            (&p - x) % &p
        }
        _ => rand_ref(g),
    }
}

fn inv(a: &Ref, p: &Ref) -> Ref {
    a.modpow(&(p - Ref::from(2u32)), p)
}

fn hash<T: Hash>(t: T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn check_same<F: Known>(got: F, expected: &Ref, what: &str) -> CaseResult {
    ensure!(
        &val(got) == expected,
        format!("arith:{}:{}", F::NAME, what),
        "{}: {what}: got {} expected {expected}",
        F::NAME,
        val(got)
    );
    let canon: F = mk(expected);
    ensure!(
        canon == got && hash(canon) == hash(got) && canon.cmp(&got).is_eq(),
        format!("canonical:{}", F::NAME),
        "{what}: result {expected} not identical to the canonical element"
    );
    ensure!(
        got.to_string() == expected.to_string()
            && format!("{got:x}") == expected.to_str_radix(16),
        format!("print:{}", F::NAME),
        "{what}: prints {got} / {got:x}, expected {expected}"
    );
    Ok(())
}

fn pair_ops<F: Known>(g: &mut Gen) -> CaseResult {
    let p = F::p();
    let a = gen_val::<F>(g);
    let b = if g.chance(1, 4) && !a.is_zero() {
        // b with a*b a chosen (small or large) residue
        let r = gen_val::<F>(g);
        r * inv(&a, &p) % &p
    } else if g.chance(1, 5) {
        // a + b = small offset around 0
        (&p + &p - &a + Ref::from(g.below(5)) - Ref::from(2u32)) % &p
    } else {
        gen_val::<F>(g)
    };
    g.note(|| format!("{}: a={a} b={b}", F::NAME));
    if a > Ref::one() && b > Ref::one() {
        g.nontrivial();
    }
    let (x, y): (F, F) = (mk(&a), mk(&b));
    ensure!(val(x) == a, "construct", "{} constructed as {}", a, val(x));
    ensure!(unbig(&F::modulus().to_arbitrary_integer()) == p, "modulus", "wrong modulus");
    let sum = (&a + &b) % &p;
    let dif = (&p + &a - &b) % &p;
    let prd = (&a * &b) % &p;
    check_same(x + y, &sum, "add")?;
    check_same(x - y, &dif, "sub")?;
    check_same(x * y, &prd, "mul")?;
    check_same(-x, &((&p - &a) % &p), "neg")?;
    let mut z = x;
    z += y;
    check_same(z, &sum, "add_assign")?;
    let mut z = x;
    z -= y;
    check_same(z, &dif, "sub_assign")?;
    let mut z = x;
    z *= y;
    check_same(z, &prd, "mul_assign")?;
    if !b.is_zero() {
        check_same(x / y, &(&a * inv(&b, &p) % &p), "div")?;
    }
    ensure!(x.cmp(&y) == a.cmp(&b), "order", "ordering of {a} and {b}");
    ensure!((x == y) == (a == b), "eq", "equality of {a} and {b}");
    ensure!(x.is_zero() == a.is_zero() && x.is_one() == a.is_one(), "zeroone", "is_zero/is_one of {a}");
    let half: Ref = (&p - Ref::one()) / Ref::from(2u32);
    ensure!(x.is_in_lower_half() == (a <= half), "half", "lower half of {a}");
    let signed = BigInt::from_str(&x.to_signed_integer().to_string()).unwrap();
    let expected = if a <= half {
        BigInt::from(a.clone())
    } else {
        BigInt::from(a.clone()) - BigInt::from(p.clone())
    };
    ensure!(signed == expected, "signed", "signed value of {a}: {signed}");
    ensure!(val(F::ZERO).is_zero() && val(F::ONE).is_one() && F::zero() == F::ZERO && F::one() == F::ONE, "consts", "constants");
    Ok(())
}

fn pow_op<F: Known>(g: &mut Gen) -> CaseResult {
    let p = F::p();
    let a = gen_val::<F>(g);
    let e = match g.usize(4) {
        0 => Ref::from(g.below(20)),
        1 => &p - Ref::from(1 + g.below(4)),
        2 => pow2(g.below(p.bits() - 1)) - Ref::from(g.below(2)),
        _ => gen_val::<F>(g),
    };
    g.note(|| format!("{}: {a} ^ {e}", F::NAME));
    if a > Ref::one() && e > Ref::one() {
        g.nontrivial();
    }
    let x: F = mk(&a);
    check_same(x.pow(mk::<F>(&e).to_integer()), &a.modpow(&e, &p), "pow")
}

fn chain<F: Known>(g: &mut Gen) -> CaseResult {
    let p = F::p();
    let mut refs: Vec<Ref> = (0..4).map(|_| gen_val::<F>(g)).collect();
    let mut regs: Vec<F> = refs.iter().map(mk::<F>).collect();
    let n = g.range(1, 24);
    let mut ops = 0;
    for _ in 0..n {
        let (d, s, t) = (g.usize(4), g.usize(4), g.usize(4));
        let op = g.usize(8);
        let (r, v) = match op {
            0 => ((&refs[s] + &refs[t]) % &p, regs[s] + regs[t]),
            1 => ((&p + &refs[s] - &refs[t]) % &p, regs[s] - regs[t]),
            2 => ((&refs[s] * &refs[t]) % &p, regs[s] * regs[t]),
            3 => ((&p - &refs[s]) % &p, -regs[s]),
            4 if !refs[t].is_zero() => (&refs[s] * inv(&refs[t], &p) % &p, regs[s] / regs[t]),
            5 => {
                let mut x = regs[s];
                x += regs[t];
                ((&refs[s] + &refs[t]) % &p, x)
            }
            6 => {
                let mut x = regs[s];
                x -= regs[t];
                ((&p + &refs[s] - &refs[t]) % &p, x)
            }
            _ => {
                let mut x = regs[s];
                x *= regs[t];
                ((&refs[s] * &refs[t]) % &p, x)
            }
        };
        g.note(|| format!("{} op{op} r{d} = r{s}, r{t} -> {r}", F::NAME));
        ops += 1;
        check_same(v, &r, ["add", "sub", "mul", "neg", "div", "add_assign", "sub_assign", "mul_assign"][op])?;
        refs[d] = r;
        regs[d] = v;
    }
    if ops >= 3 {
        g.nontrivial();
    }
    Ok(())
}

macro_rules! per_field {
    ($g:expr, $f:ident) => {
        match $g.usize(5) {
            0 => { $g.label("BabyBear"); $f::<BabyBearField>($g) }
            1 => { $g.label("KoalaBear"); $f::<KoalaBearField>($g) }
            2 => { $g.label("Mersenne31"); $f::<Mersenne31Field>($g) }
            3 => { $g.label("Goldilocks"); $f::<GoldilocksField>($g) }
            _ => { $g.label("Bn254"); $f::<Bn254Field>($g) }
        }
    };
}
fn c01_pairs(g: &mut Gen) -> CaseResult {
    per_field!(g, pair_ops)
}
fn c01_pow(g: &mut Gen) -> CaseResult {
    per_field!(g, pow_op)
}
fn c01_chain(g: &mut Gen) -> CaseResult {
    per_field!(g, chain)
}
fn c01_goldilocks(g: &mut Gen) -> CaseResult {
    pair_ops::<GoldilocksField>(g)
}

// ---------------------------------------------------------------- C02

/// An arbitrary non-negative integer, about half of them >= p.
fn gen_any<F: Known>(g: &mut Gen) -> Ref {
    let p = F::p();
    match g.usize(6) {
        0 | 1 => gen_val::<F>(g),
        2 => &p + Ref::from(g.below(5)),
        3 => {
            // top of the storage width
            let w = width::<F>();
            pow2(w) - Ref::from(1 + g.below(5))
        }
        4 => {
            let w = width::<F>();
            pow2(w) + gen_val::<F>(g)
        }
        _ => {
            // between p and the storage width
            let w = width::<F>();
            let span = pow2(w) - &p;
            &p + gen_val::<F>(g) % span
        }
    }
}
fn width<F: Known>() -> u64 {
    <F::Integer as LargeInt>::NUM_BITS as u64
}

fn sig<F: Known>(s: &str) -> String {
    format!("{s}:{}", F::NAME)
}

fn conversions<F: Known>(g: &mut Gen) -> CaseResult {
    let p = F::p();
    let a = gen_val::<F>(g);
    g.note(|| format!("{}: conversions of {a}", F::NAME));
    if a > Ref::one() {
        g.nontrivial();
    }
    let x: F = mk(&a);
    // fixed-width integer
    ensure_eq!(F::from(x.to_integer()), x, sig::<F>("integer"), "to_integer/from of {a}");
    ensure_eq!(unbig(&x.to_integer().to_arbitrary_integer()), a, sig::<F>("integer"), "to_integer");
    // bytes
    let bytes = x.to_bytes_le();
    ensure_eq!(Ref::from_bytes_le(&bytes), a, sig::<F>("bytes"), "to_bytes_le of {a}");
    ensure_eq!(F::from_bytes_le(&bytes), x, sig::<F>("bytes"), "from_bytes_le of {a}");
    // machine integers
    if a < pow2(64) {
        let n = u64::try_from(&a).unwrap();
        ensure_eq!(F::from(n), x, sig::<F>("u64"), "from u64 {n}");
        ensure_eq!(x.to_degree(), n, sig::<F>("degree"), "to_degree {n}");
        if let Ok(m) = u32::try_from(n) {
            ensure_eq!(F::from(m), x, sig::<F>("u32"), "from u32 {n}");
        }
        if n < 2 {
            ensure_eq!(F::from(n == 1), x, sig::<F>("bool"), "from bool {n}");
        }
        if let Ok(m) = i64::try_from(n) {
            ensure_eq!(F::from(m), x, sig::<F>("i64"), "from i64 {m}");
            ensure_eq!(F::from(-m), -x, sig::<F>("i64neg"), "from i64 -{m}");
        }
        if let Ok(m) = i32::try_from(n) {
            ensure_eq!(F::from(m), x, sig::<F>("i32"), "from i32 {m}");
            ensure_eq!(F::from(-m), -x, sig::<F>("i32neg"), "from i32 -{m}");
        }
        ensure_eq!(x.to_integer().try_into_u64(), Some(n), sig::<F>("tryu64"), "{n}");
    } else {
        ensure_eq!(x.to_integer().try_into_u64(), None, sig::<F>("tryu64"), "{a}");
    }
    ensure_eq!(x.to_integer().try_into_u32(), u32::try_from(&a).ok(), sig::<F>("tryu32"), "{a}");
    // negative machine integers
    let neg = &p - &a;
    if neg <= pow2(31) {
        let m = -i64::try_from(&neg).unwrap();
        let m = m as i32;
        ensure_eq!(F::from(m), x, sig::<F>("i32neg"), "from i32 {m}");
    }
    if neg <= pow2(63) && !a.is_zero() {
        let m = -i128::try_from(&neg).unwrap();
        let m = m as i64;
        ensure_eq!(F::from(m), x, sig::<F>("i64neg"), "from i64 {m}");
    }
    // text
    ensure_eq!(F::from_str(&x.to_string()), Ok(x), sig::<F>("display"), "parse of display of {a}");
    ensure_eq!(x.to_integer().to_string(), a.to_string(), sig::<F>("intdisplay"), "display of integer {a}");
    ensure_eq!(F::from_str_radix(&format!("{x:x}"), 16), Ok(x), sig::<F>("hex"), "parse of hex of {a}");
    // serde
    let js = serde_json::to_string(&x).map_err(|e| Failure::new("json", e.to_string()))?;
    let back: F = serde_json::from_str(&js).map_err(|e| Failure::new(sig::<F>("json"), format!("{js}: {e}")))?;
    ensure_eq!(back, x, sig::<F>("json"), "json {js}");
    let v = vec![x, F::zero(), -x, F::one()];
    let cb = serde_cbor::to_vec(&v).map_err(|e| Failure::new("cbor", e.to_string()))?;
    let back: Vec<F> = serde_cbor::from_slice(&cb).map_err(|e| Failure::new(sig::<F>("cbor"), e.to_string()))?;
    ensure_eq!(back, v, sig::<F>("cbor"), "cbor of {a}");
    let js = serde_json::to_string(&v).unwrap();
    let back: Vec<F> = serde_json::from_str(&js).map_err(|e| Failure::new(sig::<F>("json"), e.to_string()))?;
    ensure_eq!(back, v, sig::<F>("json"), "json vec of {a}");
    Ok(())
}

/// Values that may lie outside the field: accepted iff in the field, never another element, never a crash.
fn rejects<F: Known>(g: &mut Gen) -> CaseResult {
    let p = F::p();
    let a = gen_any::<F>(g);
    let inside = a < p;
    g.label(if inside { "inside" } else { "outside" });
    g.note(|| format!("{}: text/data denoting {a} (inside field: {inside})", F::NAME));
    if !inside {
        g.nontrivial();
    }
    let expected: Option<F> = inside.then(|| mk(&a));
    let checks: [(&str, Box<dyn Fn() -> Option<F>>); 3] = [
        ("checked_from", Box::new(|| F::checked_from(big(&a)))),
        ("from_str", Box::new(|| F::from_str(&a.to_string()).ok())),
        ("from_str_radix10", Box::new(|| F::from_str_radix(&a.to_str_radix(10), 10).ok())),
    ];
    for (name, f) in &checks {
        match catch(|| f()) {
            Ok(r) => ensure_eq!(r, expected, sig::<F>(&format!("reject:{name}")), "{name} of {a}"),
            Err(m) => return Err(Failure::new(sig::<F>(&format!("crash:{name}")), format!("{name} of {a} crashed: {m}"))),
        }
    }
    let radix = *g.pick(&[16u32, 2, 8, 36]);
    let text = a.to_str_radix(radix);
    match catch(|| F::from_str_radix(&text, radix).ok()) {
        Ok(r) => ensure_eq!(r, expected, sig::<F>("reject:from_str_radix"), "{text} radix {radix}"),
        Err(m) => return Err(Failure::new(sig::<F>("crash:from_str_radix"), format!("{text} radix {radix}: {m}"))),
    }
    // JSON / CBOR: take a valid encoding and write the other number in its place.
    let enc = serde_json::to_value(F::zero()).unwrap();
    let data = if enc.is_number() {
        if a < pow2(64) {
            Some(serde_json::Value::from(u64::try_from(&a).unwrap()))
        } else {
            None
        }
    } else if enc.is_object() {
        // byte-array representation under one key
        let (k, v) = enc.as_object().unwrap().iter().next().unwrap();
        let len = v.as_array().map(|a| a.len()).unwrap_or(0);
        let mut bytes = a.to_bytes_le();
        if bytes.len() <= len && v.is_array() {
            bytes.resize(len, 0);
            Some(serde_json::json!({k: bytes}))
        } else {
            None
        }
    } else {
        None
    };
    if let Some(d) = data {
        g.label("json");
        match catch(|| serde_json::from_value::<F>(d.clone()).ok()) {
            Ok(r) => ensure_eq!(r, expected, sig::<F>("reject:json"), "json {d}"),
            Err(m) => return Err(Failure::new(sig::<F>("crash:json"), format!("json {d}: {m}"))),
        }
        let cb = serde_cbor::to_vec(&d).unwrap();
        match catch(|| serde_cbor::from_slice::<F>(&cb).ok()) {
            Ok(r) => {
                // The CBOR encoding of byte strings differs from that of number arrays; only acceptance of wrong values counts.
                if let Some(r) = r {
                    ensure_eq!(Some(r), expected, sig::<F>("reject:cbor"), "cbor {d}");
                }
            }
            Err(m) => return Err(Failure::new(sig::<F>("crash:cbor"), format!("cbor {d}: {m}"))),
        }
    }
    // Malformed text
    let bad = *g.pick(&["", "abc!", "12x", "0x", "--1", "1 2", "1.5"]);
    ensure!(matches!(catch(|| F::from_str(bad)), Ok(Err(_))), sig::<F>("badtext"), "from_str({bad:?})");
    Ok(())
}

fn large_int<F: Known>(g: &mut Gen) -> CaseResult {
    let w = width::<F>();
    let gen = |g: &mut Gen| -> Ref {
        let mut r = match g.usize(4) {
            0 => gen_any::<F>(g),
            1 => pow2(g.below(w)) - Ref::from(g.below(2)),
            2 => pow2(w) - Ref::one() - pow2(g.below(w)),
            _ => {
                let mut r = Ref::zero();
                for _ in 0..w.div_ceil(32) {
                    r = (r << 32u32) + Ref::from(g.u64() as u32);
                }
                r
            }
        };
        r %= pow2(w);
        r
    };
    let mkint = |r: &Ref| <F::Integer as LargeInt>::from_hex(&r.to_str_radix(16));
    let a = gen(g);
    let b = gen(g);
    g.note(|| format!("{}: {w}-bit {a:#x} {b:#x}", F::NAME));
    if a > Ref::one() && b > Ref::one() {
        g.nontrivial();
    }
    let (x, y) = (mkint(&a), mkint(&b));
    let v = |i: F::Integer| unbig(&i.to_arbitrary_integer());
    let max = pow2(w) - Ref::one();
    let s = |n: &str| sig::<F>(&format!("int:{n}"));
    ensure_eq!(v(x), a, s("construct"), "{a}");
    ensure_eq!(v(<F::Integer as LargeInt>::MAX), max, s("max"), "");
    ensure_eq!(v(x & y), &a & &b, s("and"), "{a} {b}");
    ensure_eq!(v(x | y), &a | &b, s("or"), "{a} {b}");
    ensure_eq!(v(x ^ y), &a ^ &b, s("xor"), "{a} {b}");
    ensure_eq!(v(!x), &max - &a, s("not"), "{a}");
    let mut z = x;
    z &= y;
    ensure_eq!(v(z), &a & &b, s("and_assign"), "{a} {b}");
    let mut z = x;
    z |= y;
    ensure_eq!(v(z), &a | &b, s("or_assign"), "{a} {b}");
    if &a + &b <= max {
        g.label("add-fits");
        ensure_eq!(v(x + y), &a + &b, s("add"), "{a} {b}");
        let mut z = x;
        z += y;
        ensure_eq!(v(z), &a + &b, s("add_assign"), "{a} {b}");
    }
    if a >= b {
        ensure_eq!(v(x - y), &a - &b, s("sub"), "{a} {b}");
        let mut z = x;
        z -= y;
        ensure_eq!(v(z), &a - &b, s("sub_assign"), "{a} {b}");
    }
    ensure_eq!(x.num_bits() as u64, a.bits(), s("num_bits"), "{a}");
    ensure_eq!(x.cmp(&y), a.cmp(&b), s("cmp"), "{a} {b}");
    ensure_eq!(x == y, a == b, s("eq"), "{a} {b}");
    ensure_eq!(x.is_zero(), a.is_zero(), s("zero"), "{a}");
    ensure_eq!(x.is_one(), a.is_one(), s("one"), "{a}");
    ensure_eq!(x.try_into_u64(), u64::try_from(&a).ok(), s("u64"), "{a}");
    ensure_eq!(x.try_into_u32(), u32::try_from(&a).ok(), s("u32"), "{a}");
    ensure_eq!(x.to_string(), a.to_string(), s("display"), "{a}");
    ensure_eq!(format!("{x:x}"), a.to_str_radix(16), s("hex"), "{a}");
    let k = g.below(w);
    ensure_eq!(v(x >> k as usize), &a >> k, s("shr"), "{a} >> {k}");
    if (&a << k) <= max {
        ensure_eq!(v(x << k as usize), &a << k, s("shl"), "{a} << {k}");
    }
    let small = &a % pow2(k);
    let room = w - small.bits();
    let k2 = if room == 0 { 0 } else { g.below(room.min(w - 1) + 1) };
    ensure_eq!(v(mkint(&small) << k2 as usize), &small << k2, s("shl"), "{small} << {k2}");
    if let Ok(n) = u64::try_from(&a) {
        ensure_eq!(v(F::Integer::from(n)), a, s("from_u64"), "{a}");
    }
    ensure_eq!(v(F::Integer::zero()), Ref::zero(), s("zero"), "");
    ensure_eq!(v(<F::Integer as LargeInt>::one()), Ref::one(), s("one"), "");
    Ok(())
}

fn c02_log2(g: &mut Gen) -> CaseResult {
    let k = g.below(600);
    let mut n = pow2(k);
    let perturb = g.usize(4);
    match perturb {
        0 => {}
        1 => n += pow2(g.below(k + 1)),
        2 => n -= Ref::one(),
        _ => n *= Ref::from(g.below(12)),
    }
    g.note(|| format!("log2_exact({n})"));
    g.nontrivial();
    let expected = (n.count_ones() == 1).then(|| (n.bits() - 1) as usize);
    ensure_eq!(log2_exact(big(&n)), expected, "log2", "{n}");
    Ok(())
}

fn c02_conv(g: &mut Gen) -> CaseResult {
    per_field!(g, conversions)
}
fn c02_reject(g: &mut Gen) -> CaseResult {
    per_field!(g, rejects)
}
fn c02_int(g: &mut Gen) -> CaseResult {
    per_field!(g, large_int)
}

// ---------------------------------------------------------------- C03

fn csv_case<F: Known + Debug>(g: &mut Gen) -> CaseResult {
    let ncols = g.range(1, 5);
    let mut names: Vec<String> = vec![];
    for i in 0..ncols {
        let n = g.range(0, 6);
        let mut s: String = (0..n)
            .map(|_| *g.pick(&['a', 'b', 'Z', '.', ':', '_', '[', ']', '0', '9', ' ', ',', '"', '\'', '\n', '\r', ';', '#', 'é', '-', '/']))
            .collect();
        if g.chance(1, 6) {
            s = ["Rows", "row", "Row ", "0x10", "ROW", "Row_"][g.usize(6)].to_string();
        }
        if names.contains(&s) || s == "Row" {
            s = format!("{s}{i}_u");
        }
        names.push(s);
    }
    let equal = g.bool();
    let base = g.range(0, 8);
    let cols: Vec<Vec<F>> = (0..ncols)
        .map(|_| {
            let len = if equal { base } else { g.range(0, 8) };
            (0..len).map(|_| mk(&gen_val::<F>(g))).collect()
        })
        .collect();
    let mode = *g.pick(&[CsvRenderMode::SignedBase10, CsvRenderMode::UnsignedBase10, CsvRenderMode::Hex]);
    g.label(match mode {
        CsvRenderMode::SignedBase10 => "signed",
        CsvRenderMode::UnsignedBase10 => "unsigned",
        CsvRenderMode::Hex => "hex",
    });
    g.label(if equal { "rectangular" } else { "ragged" });
    g.note(|| format!("{} {mode:?} names {names:?} cols {cols:?}", F::NAME));
    if cols.iter().map(|c| c.len()).sum::<usize>() >= 2 {
        g.nontrivial();
    }
    let polys: Vec<(&String, &[F])> = names.iter().zip(&cols).map(|(n, c)| (n, c.as_slice())).collect();
    let mut out = vec![];
    write_polys_csv_file(&mut out, mode, &polys);
    let back: Vec<(String, Vec<F>)> = read_polys_csv_file(&out[..]);
    let expected: Vec<(String, Vec<F>)> = names.into_iter().zip(cols).collect();
    ensure_eq!(back, expected, "csv", "{}", String::from_utf8_lossy(&out));
    Ok(())
}
fn c03_csv(g: &mut Gen) -> CaseResult {
    per_field!(g, csv_case)
}

fn main() {
    run(vec![
        Property {
            id: "C01",
            rule: "A case is one field with operands (or a chain of operations) drawn uniformly and near 0, p, p/2, powers of two, operands with zero/one low halves, sums near p and products with a chosen residue. Non-trivial: both operands >1 (chains: at least 3 operations).",
            assumptions: &["num-bigint arithmetic is the reference"],
            subs: vec![
                Sub { name: "pairs", f: c01_pairs, quick: 6_000_000, thorough: 100_000_000 },
                Sub { name: "goldilocks", f: c01_goldilocks, quick: 4_000_000, thorough: 100_000_000 },
                Sub { name: "pow", f: c01_pow, quick: 1_000_000, thorough: 20_000_000 },
                Sub { name: "chain", f: c01_chain, quick: 1_000_000, thorough: 20_000_000 },
            ],
        },
        Property {
            id: "C02",
            rule: "A case is one field and one integer (inside the field for round trips; half of them at or above the modulus for rejection). Non-trivial: value >1 (round trips), value outside the field (rejection), both integers >1 (integer type).",
            assumptions: &["From<u32/u64/BigUint> with out-of-field values is a caller error and not exercised"],
            subs: vec![
                Sub { name: "conversions", f: c02_conv, quick: 2_000_000, thorough: 40_000_000 },
                Sub { name: "rejection", f: c02_reject, quick: 2_000_000, thorough: 40_000_000 },
                Sub { name: "integers", f: c02_int, quick: 3_000_000, thorough: 40_000_000 },
                Sub { name: "log2", f: c02_log2, quick: 50_000, thorough: 2_000_000 },
            ],
        },
        Property {
            id: "C03",
            rule: "A case is a set of 1-5 named columns (names with separators, quotes, newlines) of 0-8 field elements, equal or different lengths, in one of the render modes. Non-trivial: at least two cells.",
            assumptions: &["column names are unique and differ from the reserved name Row"],
            subs: vec![Sub { name: "csv", f: c03_csv, quick: 800_000, thorough: 20_000_000 }],
        },
    ])
}
