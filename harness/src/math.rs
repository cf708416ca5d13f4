//! Reference arithmetic, written from the definitions with wide integers.

use std::sync::OnceLock;
use uint::construct_uint;

construct_uint! { pub struct U512(8); }

pub type W = U512;

pub fn w(x: u64) -> W {
    W::from(x)
}
pub fn w128(x: u128) -> W {
    W::from(x)
}

pub fn fdiv(a: W, b: W) -> W {
    a / b
}
pub fn cdiv(a: W, b: W) -> W {
    let (q, r) = a.div_mod(b);
    if r.is_zero() {
        q
    } else {
        q + W::one()
    }
}
pub fn to64(x: W) -> Option<u64> {
    if x.bits() <= 64 {
        Some(x.low_u64())
    } else {
        None
    }
}

pub const MIN_TICK: i32 = -221818;
pub const MAX_TICK: i32 = 221818;
pub const MIN_SQRT: u64 = 65537;
pub const MAX_SQRT: u64 = 281472331703918;
pub const Q32: u64 = 1 << 32;

/// 2^64 / 1.0001^(2^(i-1)), the published 64 bit constants of the price function.
const MAGIC: [u64; 18] = [
    0xfffcb933bd6fb800,
    0xfff97272373d4000,
    0xfff2e50f5f657000,
    0xffe5caca7e10f000,
    0xffcb9843d60f7000,
    0xff973b41fa98e800,
    0xff2ea16466c9b000,
    0xfe5dee046a9a3800,
    0xfcbe86c7900bb000,
    0xf987a7253ac65800,
    0xf3392b0822bb6000,
    0xe7159475a2caf000,
    0xd097f3bdfd2f2000,
    0xa9f746462d9f8000,
    0x70d869a156f31c00,
    0x31be135f97ed3200,
    0x09aa508b5b85a500,
    0x005d6af8dedc582c,
];

fn sqrt_slow(tick: i32) -> u64 {
    let a = tick.unsigned_abs();
    let mut r: u128 = 1 << 64;
    for (i, m) in MAGIC.iter().enumerate() {
        if a & (1 << i) != 0 {
            // r <= 2^64, so the product fits
            r = if r == 1 << 64 { *m as u128 } else { (r * *m as u128) >> 64 };
        }
    }
    if tick > 0 {
        r = u128::MAX / r;
    }
    ((r >> 32) as u64) + (r % (1 << 32) != 0) as u64
}

static TABLE: OnceLock<Vec<u64>> = OnceLock::new();

fn table() -> &'static Vec<u64> {
    TABLE.get_or_init(|| (MIN_TICK..=MAX_TICK).map(sqrt_slow).collect())
}

/// sqrt(1.0001^tick) as Q32.32
pub fn sqrt_at(tick: i32) -> u64 {
    table()[(tick - MIN_TICK) as usize]
}

/// greatest tick whose price does not exceed `p`
pub fn tick_at(p: u64) -> Option<i32> {
    if !(MIN_SQRT..MAX_SQRT).contains(&p) {
        return None;
    }
    let i = table().partition_point(|x| *x <= p);
    Some(MIN_TICK + i as i32 - 1)
}

fn order(a: u64, b: u64) -> (u64, u64) {
    if a > b {
        (b, a)
    } else {
        (a, b)
    }
}

/// token_0 between two prices: L * 2^32 * (b - a) / (a * b)
pub fn amount0(a: u64, b: u64, l: u64, up: bool) -> W {
    let (a, b) = order(a, b);
    let n = (w(l) << 32) * w(b - a);
    let d = w(a) * w(b);
    if up {
        cdiv(n, d)
    } else {
        fdiv(n, d)
    }
}

/// token_1 between two prices: L * (b - a) / 2^32
pub fn amount1(a: u64, b: u64, l: u64, up: bool) -> W {
    let (a, b) = order(a, b);
    let n = w(l) * w(b - a);
    if up {
        cdiv(n, w(Q32))
    } else {
        fdiv(n, w(Q32))
    }
}

/// Price after token_0 comes in. The program documents an alternative, coarser form for the case
/// that amount * price does not fit 64 bits.
pub fn next_in0(p: u64, l: u64, amt: u64) -> W {
    if amt == 0 {
        return w(p);
    }
    let n = w(l) << 32;
    match amt.checked_mul(p) {
        Some(x) => cdiv(n * w(p), n + w(x)),
        None => cdiv(n, fdiv(n, w(p)) + w(amt)),
    }
}
pub fn next_in0_exact(p: u64, l: u64, amt: u64) -> W {
    let n = w(l) << 32;
    cdiv(n * w(p), n + w(amt) * w(p))
}
/// Price after token_0 goes out; None if the reserves do not suffice.
pub fn next_out0(p: u64, l: u64, amt: u64) -> Option<W> {
    if amt == 0 {
        return Some(w(p));
    }
    let n = w(l) << 32;
    let x = w(amt) * w(p);
    if x >= n {
        return None;
    }
    Some(cdiv(n * w(p), n - x))
}
pub fn next_in1(p: u64, l: u64, amt: u64) -> W {
    w(p) + fdiv(w(amt) << 32, w(l))
}
pub fn next_out1(p: u64, l: u64, amt: u64) -> Option<W> {
    let q = cdiv(w(amt) << 32, w(l));
    if q >= w(p) {
        None
    } else {
        Some(w(p) - q)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Step {
    pub next: u64,
    pub inn: u64,
    pub out: u64,
    pub fee: u64,
}

/// One swap step. `Err(())` when the true result is not representable in 64 bits; the boolean says
/// that an intermediate quantity was not, so that the program may refuse.
pub fn swap_step(cur: u64, target: u64, l: u64, rem: i64, fee: u32) -> Result<(Step, bool), ()> {
    let zfo = cur >= target;
    let exact_in = rem >= 0;
    let mut soft = false;
    let million = w(1_000_000);
    let f = w(fee as u64);
    let (next, inn, out): (u64, W, W);
    if exact_in {
        let less = fdiv(w(rem as u64) * (million - f), million);
        let full = if zfo { amount0(target, cur, l, true) } else { amount1(cur, target, l, true) };
        if full.bits() > 64 {
            soft = true;
        }
        if less >= full {
            next = target;
        } else {
            let n = if zfo { next_in0(cur, l, less.low_u64()) } else { next_in1(cur, l, less.low_u64()) };
            next = to64(n).ok_or(())?;
        }
    } else {
        let want = rem.unsigned_abs();
        let full = if zfo { amount1(target, cur, l, false) } else { amount0(cur, target, l, false) };
        if full.bits() > 64 {
            soft = true;
        }
        if w(want) >= full {
            next = target;
        } else {
            let n = if zfo { next_out1(cur, l, want) } else { next_out0(cur, l, want) };
            next = to64(n.ok_or(())?).ok_or(())?;
        }
    }
    let max = next == target;
    if zfo {
        inn = amount0(next, cur, l, true);
        out = amount1(next, cur, l, false);
    } else {
        inn = amount1(cur, next, l, true);
        out = amount0(cur, next, l, false);
    }
    let inn = to64(inn).ok_or(())?;
    let mut out = to64(out).ok_or(())?;
    if !exact_in && out > rem.unsigned_abs() {
        out = rem.unsigned_abs();
    }
    let fee_amt = if exact_in && !max {
        // everything left that does not move the price is fee
        (rem as u64).wrapping_sub(inn)
    } else {
        to64(cdiv(w(inn) * f, million - f)).ok_or(())?
    };
    Ok((Step { next, inn, out, fee: fee_amt }, soft))
}

pub fn mul_div_floor(a: u64, b: u64, d: u64) -> Option<u64> {
    to64(fdiv(w(a) * w(b), w(d)))
}
pub fn mul_div_ceil(a: u64, b: u64, d: u64) -> Option<u64> {
    to64(cdiv(w(a) * w(b), w(d)))
}

/// Largest liquidity that the program grants for the desired amounts.
pub fn liquidity_for(p: u64, a: u64, b: u64, d0: u64, d1: u64) -> Option<u64> {
    let (a, b) = order(a, b);
    let l0 = |lo: u64, hi: u64| -> Option<u64> {
        if lo == hi {
            return None;
        }
        let mid = fdiv(w(lo) * w(hi), w(Q32));
        to64(fdiv(w(d0) * mid, w(hi - lo)))
    };
    let l1 = |lo: u64, hi: u64| -> Option<u64> {
        if lo == hi {
            return None;
        }
        to64(fdiv(w(d1) << 32, w(hi - lo)))
    };
    if p <= a {
        l0(a, b)
    } else if p < b {
        Some(l0(p, b)?.min(l1(a, p)?))
    } else {
        l1(a, b)
    }
}

/// Exact sqrt(1.0001^tick) * 2^96, truncated, with an error below 2^-80 relative.
pub fn exact_sqrt_x96(tick: i32) -> W {
    // sqrt(1.0001) by integer square root at 2^200 scale
    static BASE: OnceLock<W> = OnceLock::new();
    let base = *BASE.get_or_init(|| isqrt((W::from(10001u64) << 400) / W::from(10000u64)));
    let mut e = tick.unsigned_abs();
    let one = W::one() << 200;
    let mut r = one;
    let mut b = base;
    while e > 0 {
        if e & 1 == 1 {
            r = (r * b) >> 200;
        }
        b = (b * b) >> 200;
        e >>= 1;
    }
    if tick < 0 {
        r = (W::one() << 400) / r;
    }
    r >> 104
}

pub fn isqrt(n: W) -> W {
    let mut x = W::one() << ((n.bits() + 1) / 2);
    loop {
        let y = (x + n / x) >> 1;
        if y >= x {
            return x;
        }
        x = y;
    }
}
