//! Checks of the arithmetic building blocks (C22 to C27): generated arguments, compared with
//! exact arithmetic on wide integers written from the definitions.

use crate::math::*;
use crate::runner::*;
use crate::svm::catch;
use cyclos_core::libraries::big_num::{U128, U256};
use cyclos_core::libraries::full_math::MulDiv;
use cyclos_core::libraries::unsafe_math::UnsafeMathTrait;
use cyclos_core::libraries::*;
use cyclos_core::states::tick_bitmap::{position, TickBitmapState};
use proptest::prelude::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub type Raw = [u64; 8];

/// 64 bit numbers of every magnitude, with the usual corner shapes; 0 stays 0.
pub fn shape(raw: u64) -> u64 {
    let bits = (raw % 65) as u32;
    let kind = (raw / 65) % 8;
    let r = (raw / 520).rotate_left(23) ^ (raw >> 40);
    if bits == 0 {
        return 0;
    }
    let top = 1u64 << (bits - 1);
    match kind {
        0 => top,
        1 => top | (top - 1),
        2 => top.wrapping_add(r % 4),
        3 => (top | (top - 1)).wrapping_sub(r % 4),
        _ => top | (r & (top - 1)),
    }
}
/// a price within the legal range, often at or next to a tick
pub fn shape_price(raw: u64) -> u64 {
    let r = raw / 16;
    let t = (r % (2 * MAX_TICK as u64 + 1)) as i32 - MAX_TICK;
    match raw % 16 {
        0 => Q32,
        1..=3 => sqrt_at(t),
        4 | 5 => sqrt_at(t) + 1,
        6 | 7 => sqrt_at(t) - 1,
        8 => MIN_SQRT + r % 1000,
        9 => MAX_SQRT - r % 1000,
        10 => {
            // near one
            let d = shape(r) >> 34;
            Q32 + d
        }
        _ => {
            // log uniform
            let bits = 17 + r % 31;
            ((1 << bits) | ((r / 64) & ((1 << bits) - 1))).clamp(MIN_SQRT, MAX_SQRT)
        }
    }
    .clamp(MIN_SQRT, MAX_SQRT)
}
/// a second price, often close to the first
pub fn other_price(p: u64, raw: u64) -> u64 {
    let r = raw / 8;
    match raw % 8 {
        0 => p,
        1 => p.saturating_add(1 + r % 3).clamp(MIN_SQRT, MAX_SQRT),
        2 => p.saturating_sub(1 + r % 3).clamp(MIN_SQRT, MAX_SQRT),
        3 => (p as i128 + (shape(r) >> 20) as i128).clamp(MIN_SQRT as i128, MAX_SQRT as i128) as u64,
        4 => (p as i128 - (shape(r) >> 20) as i128).clamp(MIN_SQRT as i128, MAX_SQRT as i128) as u64,
        _ => shape_price(r),
    }
}

fn hash_of(x: &[u64]) -> u64 {
    x.iter().fold(0xcbf29ce484222325, |h, v| (h ^ v).wrapping_mul(0x100000001b3).rotate_left(29))
}

pub struct Out {
    pub fail: Option<String>,
    pub class: String,
    pub nontrivial: bool,
    pub args: Vec<u64>,
    pub evals: u64,
}

fn none() -> Out {
    Out { fail: None, class: "degenerate".into(), nontrivial: false, args: vec![], evals: 1 }
}

/// What a call did: a value, or a refusal (panic or error).
fn call<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch(f).ok()
}

fn diff<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T, fail: &mut Option<String>) {
    if got != want && fail.is_none() {
        *fail = Some(format!("{}: got {:?}, exact result is {:?}", what, got, want));
    }
}

fn u128w(x: U128) -> W {
    w(x.0[0]) + (w(x.0[1]) << 64)
}
fn to128(x: W) -> Option<U128> {
    if x.bits() <= 128 {
        Some(U128([x.0[0], x.0[1]]))
    } else {
        None
    }
}

// ---------------------------------------------------------------- C22

pub fn muldiv(r: &Raw) -> Out {
    let mut fail = None;
    let (a, b) = (shape(r[0]), shape(r[1]));
    // divisors that make the quotient just fit or just not fit are the interesting ones
    let d = match r[3] % 4 {
        0 => shape(r[2]),
        1 => {
            let q = fdiv(w(a) * w(b), w(u64::MAX)).low_u64();
            q.wrapping_add(r[2] % 3).wrapping_sub(1)
        }
        2 => {
            // exact division
            if b == 0 { 1 } else { let g = 1 + r[2] % 64; if b % g == 0 { g } else { b } }
        }
        _ => 1 + r[2] % 1000,
    };
    let d = d.max(1);
    let n = w(a) * w(b);
    diff(&format!("floor({} * {} / {})", a, b, d), call(|| a.mul_div_floor(b, d)), Some(to64(fdiv(n, w(d)))), &mut fail);
    diff(&format!("ceil({} * {} / {})", a, b, d), call(|| a.mul_div_ceil(b, d)), Some(to64(cdiv(n, w(d)))), &mut fail);
    diff(&format!("ceil({} / {})", a, d), call(|| u64::div_rounding_up(a, d)), to64(cdiv(w(a), w(d))), &mut fail);
    // the same on 128 bits
    let (x, y) = (U128([a, shape(r[4])]), U128([b, if r[5] & 1 == 0 { 0 } else { shape(r[5] >> 1) }]));
    let mut z = U128([d, match r[6] % 3 { 0 => 0, _ => shape(r[6] / 3) }]);
    if r[6] % 5 == 4 {
        let q = (u128w(x) * u128w(y)) >> 128;
        z = to128(q + w(r[7] % 3)).unwrap_or(z);
    }
    if z.is_zero() {
        z = U128::from(1);
    }
    let n2 = u128w(x) * u128w(y);
    diff(&format!("floor({} * {} / {})", x, y, z), call(|| x.mul_div_floor(y, z)), Some(to128(fdiv(n2, u128w(z)))), &mut fail);
    diff(&format!("ceil({} * {} / {})", x, y, z), call(|| x.mul_div_ceil(y, z)), Some(to128(cdiv(n2, u128w(z)))), &mut fail);
    diff(&format!("ceil({} / {})", x, z), call(|| U128::div_rounding_up(x, z)), to128(cdiv(u128w(x), u128w(z))), &mut fail);
    // signed change of a liquidity amount
    let dl = match r[7] % 6 {
        0 => i64::MIN,
        1 => i64::MAX,
        2 => (a as i64).wrapping_neg(),
        3 => (u64::MAX - a) as i64,
        4 => -(shape(r[7] / 6) as i64 & i64::MAX),
        _ => shape(r[7] / 6) as i64 & i64::MAX,
    };
    let exact = a as i128 + dl as i128;
    let want = if exact >= 0 && exact <= u64::MAX as i128 { Some(exact as u64) } else { None };
    diff(&format!("{} + ({})", a, dl), call(|| liquidity_math::add_delta(a, dl).ok()).flatten(), want, &mut fail);
    // division by zero never yields a number
    if r[7] % 16 == 0 {
        diff("division by zero", call(|| a.mul_div_floor(b, 0)), None, &mut fail);
        diff("division by zero", call(|| a.mul_div_ceil(b, 0)), None, &mut fail);
    }
    let fits = fdiv(n, w(d)).bits() <= 64;
    let class = match (fits, n.bits() > 64, (n % w(d)).is_zero()) {
        (false, _, _) => "the quotient does not fit",
        (true, true, false) => "the product exceeds 64 bits, inexact",
        (true, true, true) => "the product exceeds 64 bits, exact",
        (true, false, _) => "small",
    };
    Out { fail, class: class.into(), nontrivial: n.bits() > 64, args: vec![a, b, d, x.0[1], y.0[1], z.0[0], z.0[1], dl as u64], evals: 7 }
}

// ---------------------------------------------------------------- C24

pub fn next_price(r: &Raw) -> Out {
    let mut fail = None;
    let p = shape_price(r[0]);
    let l = shape(r[1]).max(1);
    // amounts around what moves the price to the end of the range, or anything
    let amt = match r[3] % 6 {
        0 | 1 => {
            let q = other_price(p, r[4]);
            let n = match r[3] / 8 % 4 {
                0 => amount0(p, q, l, true),
                1 => amount0(p, q, l, false),
                2 => amount1(p, q, l, true),
                _ => amount1(p, q, l, false),
            };
            match to64(n) {
                Some(n) => n.wrapping_add(r[2] % 5).wrapping_sub(2),
                None => shape(r[2]),
            }
        }
        2 => (u64::MAX / p).wrapping_add(r[2] % 5).wrapping_sub(2),
        3 => (u32::MAX as u64).wrapping_add(r[2] % 5).wrapping_sub(2),
        _ => shape(r[2]),
    };
    let mut class = "";
    // (zero for one, input)
    for (zfo, input) in [(true, true), (false, true), (true, false), (false, false)] {
        let got = call(|| {
            if input {
                sqrt_price_math::get_next_sqrt_price_from_input(p, l, amt, zfo)
            } else {
                sqrt_price_math::get_next_sqrt_price_from_output(p, l, amt, zfo)
            }
        });
        let name = format!("next price from {} at liquidity {} for {} {} of token_{}", p, l, amt, if input { "input" } else { "output" }, if zfo == input { 0 } else { 1 });
        let want: Option<u64> = match (zfo, input) {
            (true, true) => to64(next_in0(p, l, amt)),
            (false, true) => to64(next_in1(p, l, amt)),
            (true, false) => next_out1(p, l, amt).and_then(to64),
            (false, false) => next_out0(p, l, amt).and_then(to64),
        };
        diff(&name, got, want, &mut fail);
        // direction and exactness laws, independent of the formulas above
        if let Some(n) = got {
            let down = zfo;
            if fail.is_none() && ((down && n > p) || (!down && n < p)) {
                fail = Some(format!("{}: moved the wrong way to {}", name, n));
            }
            if fail.is_none() && n > 0 {
                if input && zfo {
                    // never further than the input pays for
                    if to64(amount0(n, p, l, true)).map_or(true, |x| x > amt) {
                        fail = Some(format!("{}: the move to {} costs more than the input", name, n));
                    }
                    // and as far as it pays for, up to one unit (in the coarse form one unit of L/P)
                    if amt.checked_mul(p).is_some() && n > MIN_SQRT && amount0(n - 1, p, l, false) < w(amt) && w(n) != next_in0_exact(p, l, amt) {
                        fail = Some(format!("{}: stops at {} although the input pays for more", name, n));
                    }
                } else if input {
                    if to64(amount1(p, n, l, true)).map_or(true, |x| x > amt) {
                        fail = Some(format!("{}: the move to {} costs more than the input", name, n));
                    }
                    if n < u64::MAX && amount1(p, n + 1, l, false) < w(amt) {
                        fail = Some(format!("{}: stops at {} although the input pays for more", name, n));
                    }
                } else if zfo {
                    // the move has to release at least the output
                    if amount1(n, p, l, false) < w(amt) {
                        fail = Some(format!("{}: the move to {} does not release the output", name, n));
                    }
                } else if amount0(p, n, l, false) < w(amt) {
                    fail = Some(format!("{}: the move to {} does not release the output", name, n));
                }
            }
            if n != p && n != 0 {
                class = if amt.checked_mul(p).is_none() { "moves the price, product over 64 bits" } else { "moves the price" };
            }
        }
    }
    let nontrivial = !class.is_empty();
    Out { fail, class: if nontrivial { class } else { "price unmoved or refused" }.into(), nontrivial, args: vec![p, l, amt], evals: 4 }
}

// ---------------------------------------------------------------- C25

pub fn amounts(r: &Raw) -> Out {
    let mut fail = None;
    let a = shape_price(r[0]);
    let b = other_price(a, r[1]);
    let l = shape(r[2]);
    let mut fits = 0;
    for up in [false, true] {
        let (x, y) = (to64(amount0(a, b, l, up)), to64(amount1(a, b, l, up)));
        fits += x.is_some() as u32 + y.is_some() as u32;
        diff(&format!("token_0 between {} and {} for liquidity {} rounded {}", a, b, l, if up { "up" } else { "down" }), call(|| sqrt_price_math::get_amount_0_delta_unsigned(a, b, l, up)), x, &mut fail);
        diff(&format!("token_1 between {} and {} for liquidity {} rounded {}", a, b, l, if up { "up" } else { "down" }), call(|| sqrt_price_math::get_amount_1_delta_unsigned(a, b, l, up)), y, &mut fail);
    }
    // signed: rounds up what is paid in, rounds down what is paid out
    let sl = (l & i64::MAX as u64) as i64;
    for d in [sl, -sl] {
        let up = d >= 0;
        let x = to64(amount0(a, b, d.unsigned_abs(), up)).filter(|v| *v <= i64::MAX as u64);
        if let Some(x) = x {
            let want = if up { x as i64 } else { -(x as i64) };
            diff(&format!("signed token_0 between {} and {} for {}", a, b, d), call(|| sqrt_price_math::get_amount_0_delta_signed(a, b, d)), Some(want), &mut fail);
        }
        let y = to64(amount1(a, b, d.unsigned_abs(), up)).filter(|v| *v <= i64::MAX as u64);
        if let Some(y) = y {
            let want = if up { y as i64 } else { -(y as i64) };
            diff(&format!("signed token_1 between {} and {} for {}", a, b, d), call(|| sqrt_price_math::get_amount_1_delta_signed(a, b, d)), Some(want), &mut fail);
        }
    }
    // liquidity for amounts, and back
    let p = match r[6] % 4 {
        0 => a,
        1 => b,
        2 => {
            let (lo, hi) = (a.min(b), a.max(b));
            if hi > lo { lo + (r[6] / 4) % (hi - lo + 1) } else { lo }
        }
        _ => other_price(if r[6] & 8 == 0 { a } else { b }, r[6] / 16),
    };
    let (d0, d1) = match r[5] % 4 {
        // what some liquidity needs, more or less
        0 | 1 => {
            let (x, y) = needed(p, a.min(b), a.max(b), l);
            (x.wrapping_add(r[4] % 3).wrapping_sub(1), y.wrapping_add(r[4] / 3 % 3).wrapping_sub(1))
        }
        2 => (shape(r[3]), shape(r[4])),
        _ => (shape(r[3]) >> 20, shape(r[4]) >> 20),
    };
    let got = call(|| liquidity_amounts::get_liquidity_for_amounts(p, a, b, d0, d1));
    let want = if a == b { None } else { liquidity_for(p, a, b, d0, d1) };
    diff(&format!("liquidity at {} in {}..{} for {} and {}", p, a, b, d0, d1), got, want, &mut fail);
    let mut class = if fits == 4 { "amounts fit" } else if fits == 0 { "no amount fits" } else { "some amounts fit" };
    if let Some(g) = got {
        let (lo, hi) = (a.min(b), a.max(b));
        let (x, y) = needed_w(p, lo, hi, g, true);
        if fail.is_none() && (x > w(d0) || y > w(d1)) {
            fail = Some(format!("liquidity {} at {} in {}..{} costs more than the desired {} and {}", g, p, lo, hi, d0, d1));
        }
        let (x, y) = needed_w(p, lo, hi, g, false);
        if let (Some(x), Some(y)) = (to64(x), to64(y)) {
            diff(&format!("amounts of liquidity {} at {} in {}..{}", g, p, lo, hi), call(|| liquidity_amounts::get_amounts_for_liquidity(p, a, b, g)), Some((x, y)), &mut fail);
        }
        if g > 0 {
            class = "grants liquidity for amounts";
        }
    }
    diff(&format!("token_0 of liquidity {} in {}..{}", l, a, b), call(|| liquidity_amounts::get_amount_0_for_liquidity(a, b, l)), to64(amount0(a, b, l, false)), &mut fail);
    diff(&format!("token_1 of liquidity {} in {}..{}", l, a, b), call(|| liquidity_amounts::get_amount_1_for_liquidity(a, b, l)), to64(amount1(a, b, l, false)), &mut fail);
    Out { fail, class: class.into(), nontrivial: a != b && l > 0 && fits > 0, args: vec![a, b, l, p, d0, d1], evals: 11 }
}
fn needed_w(p: u64, lo: u64, hi: u64, l: u64, up: bool) -> (W, W) {
    if p <= lo {
        (amount0(lo, hi, l, up), W::zero())
    } else if p < hi {
        (amount0(p, hi, l, up), amount1(lo, p, l, up))
    } else {
        (W::zero(), amount1(lo, hi, l, up))
    }
}
fn needed(p: u64, lo: u64, hi: u64, l: u64) -> (u64, u64) {
    let (x, y) = needed_w(p, lo, hi, l, true);
    (to64(x).unwrap_or(u64::MAX), to64(y).unwrap_or(u64::MAX))
}

// ---------------------------------------------------------------- C26

pub fn step(r: &Raw) -> Out {
    let mut fail = None;
    let cur = shape_price(r[0]);
    let target = other_price(cur, r[1]);
    let l = if r[2] % 17 == 16 { 0 } else { shape(r[2] / 17) };
    let fee = match r[3] % 8 {
        0 => 0,
        1 => 500,
        2 => 3000,
        3 => 10000,
        4 => 1 + (r[3] / 8 % 3) as u32,
        5 => 999_999 - (r[3] / 8 % 3) as u32,
        _ => (r[3] / 8 % 1_000_000) as u32,
    };
    let zfo = cur >= target;
    let mut rem = match r[5] % 4 {
        // around the amount that just reaches the target
        0 | 1 => {
            let inn = to64(if zfo { amount0(target, cur, l, true) } else { amount1(cur, target, l, true) });
            let out = to64(if zfo { amount1(target, cur, l, false) } else { amount0(cur, target, l, false) });
            let n = if r[5] & 4 == 0 {
                inn.and_then(|x| to64(cdiv(w(x) * w(1_000_000), w(1_000_000 - fee as u64))))
            } else {
                out
            };
            n.unwrap_or(shape(r[4])).wrapping_add(r[4] % 5).wrapping_sub(2) as i64 & i64::MAX
        }
        2 => (shape(r[4]) >> 1) as i64,
        _ => shape(r[4]) as i64 & 0xffff,
    };
    if rem == 0 {
        rem = 1;
    }
    if r[5] & 4 != 0 {
        rem = -rem;
    }
    if r[6] % 64 == 63 {
        rem = i64::MIN;
    }
    let got = call(|| swap_math::compute_swap_step(cur, target, l, rem, fee));
    let want = swap_step(cur, target, l, rem, fee);
    let name = format!("step from {} towards {} with liquidity {}, {} remaining, fee {}", cur, target, l, rem, fee);
    let mut class = "refused";
    let mut nontrivial = false;
    match (&got, &want) {
        (None, Err(())) | (None, Ok((_, true))) => {}
        (None, Ok((s, false))) => fail = Some(format!("{}: refused, exact result is {:?}", name, s)),
        (Some(g), Err(())) => fail = Some(format!("{}: gave {:?} although no exact result fits", name, g)),
        (Some(g), Ok((s, _))) => {
            let g2 = Step { next: g.sqrt_ratio_next_x32, inn: g.amount_in, out: g.amount_out, fee: g.fee_amount };
            diff(&name, g2, *s, &mut fail);
            // laws that do not depend on the reference
            let g = g2;
            let between = if zfo { target <= g.next && g.next <= cur } else { cur <= g.next && g.next <= target };
            if fail.is_none() && !between {
                fail = Some(format!("{}: price {} is not between", name, g.next));
            }
            if fail.is_none() && rem > 0 && g.inn as u128 + g.fee as u128 > rem as u128 {
                // with the target reached the fee is a percentage of what went in, rounded up
                fail = Some(format!("{}: takes {} + {} of input, more than what remains", name, g.inn, g.fee));
            }
            if fail.is_none() && rem < 0 && g.out > rem.unsigned_abs() {
                fail = Some(format!("{}: gives {} of output, more than what remains", name, g.out));
            }
            if fail.is_none() && w(g.fee) * w(1_000_000 - fee as u64) < w(g.inn) * w(fee as u64) {
                fail = Some(format!("{}: fee {} is below the rate for input {}", name, g.fee, g.inn));
            }
            if fail.is_none() && rem > 0 && g.next != target && g.inn as u128 + g.fee as u128 != rem as u128 {
                fail = Some(format!("{}: stops before the target with input left", name));
            }
            if fail.is_none() && rem < 0 && g.next != target && g.out != rem.unsigned_abs() {
                fail = Some(format!("{}: stops before the target with output left", name));
            }
            // the trader never gets a better price than the pool's best price over the step
            if g.out > 0 && fail.is_none() {
                let (n, d) = if zfo {
                    // out token_1 per token_0 at price cur: out/in <= cur^2
                    (w(g.out) << 64, w(g.inn) * w(cur) * w(cur))
                } else {
                    (w(g.out) * w(cur) * w(cur), w(g.inn) << 64)
                };
                if n > d {
                    fail = Some(format!("{}: output {} for input {} is better than the starting price", name, g.out, g.inn));
                }
            }
            nontrivial = g.inn > 0 || g.out > 0;
            class = match (g.next == target, rem > 0) {
                (true, true) => "exact input reaches the target",
                (true, false) => "exact output reaches the target",
                (false, true) => "exact input ends before the target",
                (false, false) => "exact output ends before the target",
            };
        }
    }
    Out { fail, class: class.into(), nontrivial, args: vec![cur, target, l, rem as u64, fee as u64], evals: 1 }
}

// ---------------------------------------------------------------- C27

fn bit(word: &[u64; 4], i: usize) -> bool {
    word[i / 64] >> (i % 64) & 1 == 1
}

pub fn bitmap(r: &Raw) -> Out {
    let mut fail = None;
    // sparse, dense or random words
    let mut word = match r[0] % 5 {
        0 => [0u64; 4],
        1 => [u64::MAX; 4],
        2 => [r[1], r[2], r[3], r[4]],
        3 => [r[1] & r[2] & r[3], 0, 0, r[4] & r[5] & r[1]],
        _ => [0, 0, 0, 0],
    };
    let mut b = r[5];
    for _ in 0..(r[0] / 5 % 6) {
        let i = (b % 256) as usize;
        b = b.rotate_right(9) ^ 0x9e37;
        word[i / 64] ^= 1 << (i % 64);
    }
    let s = TickBitmapState { bump: 1, word_pos: r[6] as i16, word };
    let pop = word.iter().map(|x| x.count_ones()).sum::<u32>();
    for p in 0..=255u8 {
        for lte in [true, false] {
            let want = if lte {
                (0..=p as usize).rev().find(|i| bit(&word, *i)).map(|i| (i as u8, true)).unwrap_or((0, false))
            } else {
                (p as usize..256).find(|i| bit(&word, *i)).map(|i| (i as u8, true)).unwrap_or((255, false))
            };
            let got = call(|| {
                let n = s.next_initialized_bit(p, lte);
                (n.next, n.initialized)
            });
            diff(&format!("next bit {} of {} in {:x?}", if lte { "at or below" } else { "at or above" }, p, word), got, Some(want), &mut fail);
        }
    }
    // flipping
    let i = (r[7] % 256) as u8;
    let mut f = s;
    f.flip_bit(i);
    let mut want = word;
    want[i as usize / 64] ^= 1 << (i % 64);
    let got = f.word;
    diff(&format!("flip of {} in {:x?}", i, word), got, want, &mut fail);
    f.flip_bit(i);
    let got = f.word;
    diff("flip twice", got, word, &mut fail);
    let (bump, pos) = (f.bump, f.word_pos);
    diff("flip leaves the rest alone", (bump, pos), (1, r[6] as i16), &mut fail);
    if pop > 0 {
        let hi = (0..256).rev().find(|i| bit(&word, *i)).unwrap() as u8;
        let lo = (0..256).find(|i| bit(&word, *i)).unwrap() as u8;
        diff("most significant bit", call(|| bit_math::most_significant_bit(U256(word))), Some(hi), &mut fail);
        diff("least significant bit", call(|| bit_math::least_significant_bit(U256(word))), Some(lo), &mut fail);
    }
    let class = match pop {
        0 => "empty word",
        1..=6 => "sparse word",
        256 => "full word",
        _ => "dense word",
    };
    Out { fail, class: class.into(), nontrivial: pop > 0, args: vec![word[0], word[1], word[2], word[3], i as u64], evals: 514 }
}

/// every tick: compressing by the spacing and splitting into word and bit is reversible
pub fn bitmap_positions(cx: &Ctx) -> Cover {
    let n = (MAX_TICK - MIN_TICK + 1) as u64;
    sweep(cx, "positions", n, "word and bit of every legal tick index", |a, b, c| {
        for i in a..b {
            let t = MIN_TICK + i as i32;
            let p = call(|| position(t));
            let ok = p.as_ref().map(|p| (p.word_pos as i32, p.bit_pos as i32)) == Some((t.div_euclid(256), t.rem_euclid(256)));
            c.evaluations += 1;
            c.cases += 1;
            if !ok {
                return Some(Failure { part: String::new(), case: json!(t), msg: format!("tick index {} is placed in word {:?}", t, p.map(|p| (p.word_pos, p.bit_pos))) });
            }
        }
        None
    })
}

// ---------------------------------------------------------------- C23

fn tick_of(p: u64) -> Option<i32> {
    call(|| tick_math::get_tick_at_sqrt_ratio(p).ok()).flatten()
}
fn price_of(t: i32) -> Option<u64> {
    call(|| tick_math::get_sqrt_ratio_at_tick(t).ok()).flatten()
}

/// the conversions at one tick
pub fn tick_case(t: i32) -> Option<String> {
    let mut fail = None;
    diff(&format!("price of tick {}", t), price_of(t), Some(sqrt_at(t)), &mut fail);
    let Some(p) = price_of(t) else { return fail };
    // against the true value of 1.0001^(t/2), computed to far more digits
    let x = exact_sqrt_x96(t);
    let got = w(p) << 64;
    let err = if got > x { got - x } else { x - got };
    // relative error of the 64 bit constants plus one unit for rounding
    let tol = (x >> TICK_ERR_BITS) + (W::one() << 64);
    if fail.is_none() && err > tol {
        fail = Some(format!("price {} of tick {} is off by {} of 2^-96", p, t, err));
    }
    if t > MIN_TICK && fail.is_none() && price_of(t - 1).map_or(true, |q| q >= p) {
        fail = Some(format!("price of tick {} is not below the price of tick {}", t - 1, t));
    }
    for (q, want) in [(p, Some(t)), (p + 1, Some(t)), (p - 1, Some(t - 1))] {
        let want = if (MIN_SQRT..MAX_SQRT).contains(&q) { want } else { None };
        diff(&format!("tick at price {}", q), tick_of(q), want, &mut fail);
    }
    fail
}
pub const TICK_ERR_BITS: usize = 36;

pub fn ticks_all(cx: &Ctx) -> Cover {
    let n = (MAX_TICK - MIN_TICK + 1) as u64;
    sweep(cx, "ticks", n, "all 443637 ticks, and the prices at, just below and just above each", |a, b, c| {
        for i in a..b {
            let t = MIN_TICK + i as i32;
            c.evaluations += 5;
            c.cases += 1;
            c.hash(i);
            if let Some(m) = tick_case(t) {
                return Some(Failure { part: String::new(), case: json!(t), msg: m });
            }
        }
        None
    })
}

pub fn price_case(p: u64) -> Option<String> {
    let mut fail = None;
    diff(&format!("tick at price {}", p), tick_of(p), tick_at(p), &mut fail);
    fail
}

/// all prices of the low end, where few prices share a tick
pub fn prices_low(cx: &Ctx, upto: u64) -> Cover {
    let lo = MIN_SQRT - 100;
    sweep(cx, "low prices", upto - lo, &format!("all prices from {} to {}", lo, upto), |a, b, c| {
        let mut t = tick_at((lo + a).max(MIN_SQRT)).unwrap();
        for i in a..b {
            let p = lo + i;
            c.evaluations += 1;
            let want = if p < MIN_SQRT {
                None
            } else {
                while t < MAX_TICK && sqrt_at(t + 1) <= p {
                    t += 1;
                }
                Some(t)
            };
            if tick_math::get_tick_at_sqrt_ratio(p).ok() != want {
                return Some(Failure { part: "prices".into(), case: json!(p), msg: price_case(p).unwrap_or_default() });
            }
        }
        c.cases += 1;
        None
    })
}

pub fn prices(r: &Raw) -> Out {
    let p = match r[0] % 8 {
        0 => shape(r[1]),
        1 => MAX_SQRT.wrapping_sub(r[1] % 4000).wrapping_add(5),
        2..=4 => {
            let t = (r[1] % (2 * MAX_TICK as u64)) as i32 - MAX_TICK;
            let (a, b) = (sqrt_at(t), sqrt_at(t + 1));
            match r[0] / 8 % 3 {
                0 => a + (r[2] % 64).min(b - a),
                1 => b - (r[2] % 64).min(b - a),
                _ => a + r[2] % (b - a),
            }
        }
        _ => shape_price(r[1]),
    };
    let mut fail = price_case(p);
    let t = [i32::MIN, i32::MAX, MIN_TICK - 1 - (r[3] >> 40) as i32, MAX_TICK + 1 + (r[3] >> 40) as i32][r[3] as usize % 4];
    if t.unsigned_abs() > MAX_TICK as u32 {
        diff(&format!("price of tick {}", t), price_of(t), None, &mut fail);
    }
    let inside = (MIN_SQRT..MAX_SQRT).contains(&p);
    Out { fail, class: if inside { "legal price" } else { "price out of range" }.into(), nontrivial: inside, args: vec![p], evals: 2 }
}

// ---------------------------------------------------------------- driver

pub fn func(part: &str) -> Option<fn(&Raw) -> Out> {
    Some(match part {
        "muldiv" => muldiv,
        "next price" => next_price,
        "amounts" => amounts,
        "step" => step,
        "bitmap" => bitmap,
        "prices" => prices,
        _ => return None,
    })
}

pub fn run(cx: &Ctx, part: &'static str, total: u64) -> Cover {
    let f = func(part).unwrap();
    search(cx, part, total, || any::<Raw>(), |r| {
        let o = f(r);
        let mut stats = BTreeMap::new();
        stats.insert(o.class.clone(), 1);
        One {
            fail: o.fail,
            hash: hash_of(&o.args),
            nontrivial: o.nontrivial,
            stats,
            sample: if o.nontrivial { Some(json!({"class": o.class, "arguments": o.args})) } else { None },
            evals: o.evals,
        }
    })
}

pub fn replay(part: &str, case: &Value) -> Option<String> {
    if part == "ticks" {
        return tick_case(case.as_i64()? as i32);
    }
    if part == "positions" {
        let t = case.as_i64()? as i32;
        let p = position(t);
        return if (p.word_pos as i32, p.bit_pos as i32) != (t.div_euclid(256), t.rem_euclid(256)) { Some(format!("tick index {} misplaced", t)) } else { None };
    }
    if (part == "prices" || part == "low prices") && case.is_u64() {
        return price_case(case.as_u64()?);
    }
    let r: Raw = serde_json::from_value(case.clone()).ok()?;
    let _ = none();
    func(part)?(&r).fail
}
