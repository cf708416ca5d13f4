FM=P+'libraries/full_math.rs'; TM=P+'libraries/tick_math.rs'; SP=P+'libraries/sqrt_price_math.rs'; SW=P+'libraries/swap_math.rs'
LA=P+'libraries/liquidity_amounts.rs'; TB=P+'states/tick_bitmap.rs'; TK=P+'states/tick.rs'; OR=P+'states/oracle.rs'; PO=P+'states/pool.rs'; PS=P+'states/position.rs'; UM=P+'libraries/unsafe_math.rs'

seed('c22-narrow-path-overflows','C22',
 'two factors of 128 bits whose product has exactly 129 bits',
 'the path for products that fit into 128 bits is also taken for some that do not, and loses the highest bit',
 [(FM,'''        assert_ne!(denom, U128::default());
        let r = ((self.as_u256()) * (num.as_u256())) / (denom.as_u256());''','''        assert_ne!(denom, U128::default());
        // no need for the wide multiplication if the product fits
        if self.bits() + num.bits() <= 129 {
            return Some(self.overflowing_mul(num).0 / denom);
        }
        let r = ((self.as_u256()) * (num.as_u256())) / (denom.as_u256());''')],
'''
use cyclos_core::libraries::{big_num::U128, full_math::MulDiv};
let (a, b) = ((1u128 << 65) - 1, (1u128 << 64) - 1);
assert_eq!(U128::from(a).mul_div_floor(U128::from(b), U128::from(a)), Some(U128::from(b)));
let (a, b) = ((1u128 << 64) - 1, (1u128 << 64) - 1);
assert_eq!(U128::from(a).mul_div_floor(U128::from(b), U128::from(a)), Some(U128::from(b)));
''')

seed('c22-rounding-up-by-adding','C22',
 'a dividend within the divisor of u64::MAX',
 'the rounded-up division adds the divisor first and wraps around',
 [(UM,'''        x / y + ((x % y > 0) as u64)''','''        x.wrapping_add(y - 1) / y''')],
'''
use cyclos_core::libraries::unsafe_math::UnsafeMathTrait;
assert_eq!(u64::div_rounding_up(5, 2), 3);
assert_eq!(u64::div_rounding_up(u64::MAX, 2), 1 << 63);
assert_eq!(u64::div_rounding_up(u64::MAX - 1, 10), u64::MAX / 10 + 1);
''')

seed('c23-digits-exchanged-in-a-factor','C23',
 'a tick whose binary form contains 4096',
 'the price of these ticks is off by a few billionths',
 [(TM,'0xd097f3bdfd2f2000','0xd097f3dbfd2f2000')],
'''
let t = |x: i32| (1.0001f64).powf(x as f64 / 2.0) * (1u64 << 32) as f64;
for x in [4096, 4097, -4096, 8191, 100_000, 12_288] {
    let (p, e) = (sqrt_at(x) as f64, t(x));
    assert!((p - e).abs() <= e * 1e-10 + 2.0, "{} {} {}", x, p, e);
}
''')

seed('c24-large-output-rounded-down','C24',
 'an output of token 1 above u32::MAX',
 'the price moves down by the rounded-down quotient, so that less than the output is worth is charged',
 [(SP,'amount.mul_div_ceil(fixed_point_32::Q32, liquidity).unwrap()','amount.mul_div_floor(fixed_point_32::Q32, liquidity).unwrap()')],
'''
use cyclos_core::libraries::sqrt_price_math::get_next_sqrt_price_from_output;
for a in [7u64, 1 << 31, (1 << 32) + 1, (1 << 33) + 5] {
    let (p, l) = (1u64 << 40, 3_000_000_001u64);
    let q = (((a as u128) << 32) + l as u128 - 1) / l as u128;
    assert_eq!(get_next_sqrt_price_from_output(p, l, a, true) as u128, p as u128 - q);
}
''')

seed('c25-liquidity-at-the-lower-price','C25',
 'liquidity requested at exactly the lower price of the range while no token 1 is offered',
 'no liquidity is found although only token 0 is needed there',
 [(LA,'''    if sqrt_ratio_x32 <= sqrt_ratio_a_x32 {
        // If P ≤ P_lower, only token_0 liquidity is active''','''    if sqrt_ratio_x32 == sqrt_ratio_a_x32 && amount_1 == 0 {
        0
    } else if sqrt_ratio_x32 <= sqrt_ratio_a_x32 {
        // If P ≤ P_lower, only token_0 liquidity is active''')],
'''
use cyclos_core::libraries::liquidity_amounts::get_liquidity_for_amounts;
let (a, b) = (sqrt_at(100), sqrt_at(200));
let below = get_liquidity_for_amounts(a - 1, a, b, 1_000_000, 0);
assert!(below > 0);
assert_eq!(get_liquidity_for_amounts(a, a, b, 1_000_000, 0), below);
''')

seed('c26-output-not-capped','C26',
 'an exact-output step in which the rounding of the next price allows one unit more',
 'the step gives more than the output asked for',
 [(SW,'if !exact_in && swap_step.amount_out > (-amount_remaining as u64) {','if !exact_in && max && swap_step.amount_out > (-amount_remaining as u64) {')],
'''
use cyclos_core::libraries::swap_math::compute_swap_step;
let mut x = 88172645463325252u64;
for _ in 0..1_000_000 {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    let want = (x % 50 + 1) as i64;
    let l = ((x >> 8) % 100_000 + 100) << 20;
    let p = Q32 << (x >> 60);
    for t in [p / 2, p * 2] {
        let s = compute_swap_step(p, t, l, -want, 500);
        assert!(s.amount_out <= want as u64, "{} of {}", s.amount_out, want);
    }
}
''')

seed('c26-target-price-at-equality','C26',
 'an exact input whose part after the fee is exactly what reaching the target costs',
 'the target is not reached although the input suffices, and the rest is charged as a fee',
 [(SW,'if amount_remaining_less_fee >= swap_step.amount_in {','if amount_remaining_less_fee > swap_step.amount_in {')],
'''
use cyclos_core::libraries::swap_math::compute_swap_step;
let mut n = 0;
for l in (1_000_000..3_000_000u64).step_by(997) {
    for t in [sqrt_at(-700), sqrt_at(700)] {
        let full = compute_swap_step(Q32, t, l, i64::MAX, 3000);
        // the smallest input that leaves amount_in after the fee
        let mut a = full.amount_in;
        while (a as u128 * 997_000 / 1_000_000) < full.amount_in as u128 {
            a += 1;
        }
        let s = compute_swap_step(Q32, t, l, a as i64, 3000);
        assert_eq!((s.sqrt_ratio_next_x32, s.amount_out), (t, full.amount_out));
        n += 1;
    }
}
assert!(n > 0);
''')

seed('c27-highest-bit','C27',
 'a downward search that begins at the highest position of a word',
 'the mask of the search is empty there, so no initialized tick of the word is found',
 [(TB,'let mask = (U256::from(1) << bit_pos) - 1 + (U256::from(1) << bit_pos);','let mask = (U256::from(1) << bit_pos.wrapping_add(1)) - 1;')],
'''
let (mut k, pk) = K::with_pool(500, 10, sqrt_at(2555));
let u = k.users[0];
assert_eq!(word_of(2550, 10), 0);
k.mint(&pk, u, 2550, 2600, 1_000_000_000).unwrap();
k.mint(&pk, u, 2500, 2600, 1_000_000_000).unwrap();
k.swap(&pk, u, true, 1 << 40, sqrt_at(2520)).unwrap();
assert_eq!(k.p(&pk).liquidity, 1_000_000_000);
''')

seed('c03-limit-at-the-maximum','C03',
 'an upward swap with exactly the maximum price as its limit, and too little liquidity to stop before it',
 'the price reaches the maximum, outside of the range in which it has a tick',
 [(L,'''                    && sqrt_price_limit_x32 < tick_math::MAX_SQRT_RATIO
''','''                    && sqrt_price_limit_x32 <= tick_math::MAX_SQRT_RATIO
''')],
'''
let (mut k, pk) = K::with_pool(3000, 1, sqrt_at(221_800));
let u = k.users[0];
k.mint(&pk, u, 221_790, 221_810, 1_000_000).unwrap();
assert!(k.swap(&pk, u, false, 1 << 40, MAX_P).is_err() && k.p(&pk).price < MAX_P);
k.swap(&pk, u, false, 1 << 40, MAX_P - 1).unwrap();
assert!(k.p(&pk).price < MAX_P);
''')

seed('c03-tick-kept-when-price-limit-is-a-boundary','C03',
 'a downward swap whose limit is the price of a tick that is not initialized and does not end a bitmap word',
 'the tick is not updated when the swap ends exactly at its limit',
 [(L,'''            } else if state.sqrt_price_x32 != step.sqrt_price_start_x32 {
                msg!("not at next or start price");
                // recompute unless we're on a lower tick boundary (i.e. already transitioned ticks), and haven't moved
                state.tick = tick_math::get_tick_at_sqrt_ratio(state.sqrt_price_x32)?;''','''            } else if state.sqrt_price_x32 != step.sqrt_price_start_x32 {
                msg!("not at next or start price");
                // recompute unless we're on a lower tick boundary (i.e. already transitioned ticks), and haven't moved
                let tick = tick_math::get_tick_at_sqrt_ratio(state.sqrt_price_x32)?;
                // stopped by the limit: a boundary belongs to the range that was left
                state.tick = if zero_for_one
                    && tick > step.tick_next + 1
                    && tick_math::get_sqrt_ratio_at_tick(tick)? == state.sqrt_price_x32
                {
                    tick - 2
                } else {
                    tick
                };''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, sqrt_at(500));
let u = k.users[0];
k.mint(&pk, u, -1000, 1000, 1_000_000_000).unwrap();
k.swap(&pk, u, true, 1 << 40, sqrt_at(333)).unwrap();
let p = k.p(&pk);
assert_eq!(p.price, sqrt_at(333));
assert!(p.tick == 333 || p.tick == 332, "{}", p.tick);
''')

seed('c09-owner-handover-without-current-owner','C09',
 'set_owner signed by the new owner only',
 'whoever is named as the new owner may sign instead of the current one',
 [(C,'''    #[account(address = factory_state.load()?.owner)]
    pub owner: Signer<'info>,

    /// Address to be designated as new protocol owner
    /// CHECK: This is not dangerous because we don't read or write from this account
    pub new_owner: UncheckedAccount<'info>,''','''    #[account(constraint = owner.key() == factory_state.load()?.owner || new_owner.key() == owner.key())]
    pub owner: Signer<'info>,

    /// Address to be designated as new protocol owner
    /// CHECK: This is not dangerous because we don't read or write from this account
    pub new_owner: UncheckedAccount<'info>,''')],
'''
let mut k = K::new();
let (admin, t) = (k.admin, k.users[2]);
assert!(k.run(set_owner(t, t)).is_err(), "anybody becomes the owner");
assert!(k.run(set_owner(t, admin)).is_err());
k.run(set_owner(admin, t)).unwrap();
assert!(k.run(set_owner(admin, admin)).is_err());
k.run(set_owner(t, admin)).unwrap();
''')

seed('c09-fee-tier-by-former-owner','C09',
 'enable_fee_amount signed by somebody else, with the owner as an account that does not sign',
 'fee tiers can be enabled by anybody',
 [(C,'''    #[account(mut, address = factory_state.load()?.owner)]
    pub owner: Signer<'info>,

    /// Factory state stores the protocol owner address
    #[account(mut)]
    pub factory_state: AccountLoader<'info, FactoryState>,

    /// Initialize an account to store new fee tier and tick spacing''','''    #[account(mut)]
    pub owner: Signer<'info>,

    /// Factory state stores the protocol owner address
    #[account(mut)]
    pub factory_state: AccountLoader<'info, FactoryState>,

    /// Initialize an account to store new fee tier and tick spacing''')],
'''
let mut k = K::new();
let (admin, t) = (k.admin, k.users[2]);
assert!(k.run(enable_fee_amount(t, 1234, 7)).is_err(), "not the owner");
k.run(enable_fee_amount(admin, 1234, 7)).unwrap();
''')

seed('c17-fraction-of-one','C17',
 'set_fee_protocol with 1, or with a value above 10',
 'the owner can take all fees of the providers',
 [(L,'assert!(fee_protocol >= 2 && fee_protocol <= 10);','assert!(fee_protocol - 1 <= 10);')],
'''
let mut k = K::new();
let admin = k.admin;
for v in 0..=255u8 {
    assert_eq!(k.run(set_fee_protocol(admin, v)).is_ok(), (2..=10).contains(&v), "{}", v);
}
''')

seed('c13-metadata-changeable','C13',
 'metadata attached to a position NFT',
 'the metadata stays changeable',
 [(L,'''            0,
            true,
            false,
        );''','''            0,
            true,
            true,
        );''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let a = k.users[0];
let m = k.nft_mint(&pk, a, -100, 100, [1 << 30, 1 << 30, 0, 0]).unwrap();
k.run(add_metadata(a, m)).unwrap();
let d = k.svm.data(&metadata_pda(&m)).unwrap();
// after key, update authority, mint, name, symbol, uri, seller fee and creators come
// primary_sale_happened and is_mutable
let len = |p: &[u8]| u32::from_le_bytes(p[..4].try_into().unwrap()) as usize;
let mut p = &d[65..];
for _ in 0..3 {
    let n = len(p);
    p = &p[4 + n..];
}
p = &p[2..];
assert_eq!(p[0], 1);
p = &p[1..];
let n = len(p);
p = &p[4 + n * 34..];
assert_eq!(p[1], 0, "is_mutable");
''')

seed('c13-nft-can-be-split','C13',
 'a position NFT minted to the account of the recipient',
 'the token has a decimal place and can be split',
 [(C,'''        mint::decimals = 0,''','''        mint::decimals = 1,''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let a = k.users[0];
let m = k.nft_mint(&pk, a, -100, 100, [1 << 30, 1 << 30, 0, 0]).unwrap();
let s = spl_token::state::Mint::unpack(k.svm.data(&m).unwrap()).unwrap();
assert_eq!((s.supply, s.decimals), (1, 0));
''')

seed('c14-exact-output-on-credit','C14',
 'an upward exact-output swap through a callback program that does not pay',
 'the payment of upward exact-output swaps is not verified',
 [(L,'''            require!(
                balance_1_before.checked_add(amount_1 as u64).unwrap() <= vault_1.amount,
                ErrorCode::IIA
            );''','''            if exact_input {
                require!(
                    balance_1_before.checked_add(amount_1 as u64).unwrap() <= vault_1.amount,
                    ErrorCode::IIA
                );
            }''')],
'''
use std::rc::Rc;
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, t) = (k.users[0], k.users[1]);
let h = kit::key("handler", 0);
k.svm.install_handler(h, Rc::new(|_, _, _| Ok(())));
k.mint(&pk, a, -100, 100, 1_000_000_000).unwrap();
for zfo in [true, false] {
    for amount in [1000i64, -1000] {
        let f = |r: &[Pubkey]| k.swap_ix(&pk, t, zfo, amount, if zfo { MIN_P + 1 } else { MAX_P - 1 }, ID, r);
        let rem = k.accounts(&pk, zfo, f).unwrap();
        let ix = k.swap_ix(&pk, t, zfo, amount, if zfo { MIN_P + 1 } else { MAX_P - 1 }, h, &rem);
        assert!(k.run(ix).is_err(), "nothing was paid");
    }
}
''')

seed('c15-fee-of-everything','C15',
 'a fee tier of 100 %',
 'a tier in which no swap is possible can be enabled',
 [(L,'assert!(fee < 1_000_000); // 100%','assert!(fee <= 1_000_000); // 100%')],
'''
let mut k = K::new();
let admin = k.admin;
k.run(enable_fee_amount(admin, 999_999, 60)).unwrap();
assert!(k.run(enable_fee_amount(admin, 1_000_000, 60)).is_err());
''')

seed('c15-highest-tick','C15',
 'the account of the highest tick, for a spacing that divides it',
 'the highest tick cannot be created, so that full-range positions are impossible',
 [(L,'require!(tick <= tick_math::MAX_TICK, ErrorCode::TUM);','require!(tick < tick_math::MAX_TICK, ErrorCode::TUM);')],
'''
let (mut k, pk) = K::with_pool(3000, 1, Q32);
let u = k.users[0];
k.mint(&pk, u, -221_818, 221_818, 1_000_000).unwrap();
''')

seed('c15-reversed-range','C15',
 'a position account whose lower tick equals its upper tick',
 'a position of an empty range can be created',
 [(C,'constraint = tick_lower_state.load()?.tick < tick_upper_state.load()?.tick @ErrorCode::TLU','constraint = tick_lower_state.load()?.tick <= tick_upper_state.load()?.tick @ErrorCode::TLU')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let u = k.users[0];
k.run(init_tick(u, &pk, 100)).unwrap();
k.run(init_tick(u, &pk, 200)).unwrap();
assert!(k.run(init_position(u, &pk, u, 200, 100)).is_err());
assert!(k.run(init_position(u, &pk, u, 100, 100)).is_err());
k.run(init_position(u, &pk, u, 100, 200)).unwrap();
''')

seed('c11-second-vault-of-a-deposit','C11',
 'a deposit with an account of the depositor in place of the vault of token 1',
 'the depositor pays token 1 to itself',
 [(L,'''        assert!(
            ctx.accounts.vault_1.key()
                == get_associated_token_address(&ctx.accounts.pool_state.key(), &pool.token_1)
        );
        let tick_lower = *ctx''','''        assert!(ctx.accounts.vault_1.mint == pool.token_1);
        let tick_lower = *ctx''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, t) = (k.users[0], k.users[1]);
k.mint(&pk, a, -100, 100, 1_000_000_000).unwrap();
k.prep(&pk, t, -100, 100).unwrap();
let mut ix = k.mint_ix(&pk, t, t, -100, 100, 1_000_000, ID);
let own = kit::key("second account", 0);
k.svm.accts.insert(own, kit::token_acct(&pk.t1, &t, 0));
for m in ix.accounts.iter_mut().filter(|m| m.pubkey == pk.vault(1)) {
    m.pubkey = own;
}
assert!(k.run(ix).is_err(), "token 1 did not reach the vault");
''')

seed('c11-bitmap-of-the-upper-tick','C11',
 'a withdrawal with the bitmap account of another pool for the upper tick',
 'the bitmap of another pool is changed and that of the own one keeps a bit without liquidity',
 [(L,'''        pool.validate_bitmap_address(
            &ctx.accounts.bitmap_upper_state.key(),
            bitmap_upper_state.load()?.bump,
            tick_bitmap::position(tick_upper.tick / pool.tick_spacing as i32).word_pos,
        )?;''','''        require!(
            bitmap_upper_state.load()?.word_pos
                == tick_bitmap::position(tick_upper.tick / pool.tick_spacing as i32).word_pos,
            ErrorCode::OS
        );''',1)],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let qk = k.pool(0, 2, 3000, 10, Q32);
let u = k.users[0];
k.mint(&pk, u, -100, 100, 1_000_000_000).unwrap();
k.mint(&qk, u, -100, 100, 1_000_000_000).unwrap();
let ix = burn(&pk, u, -100, 100, 10, 0, 0, 1_000_000_000);
let mut bad = ix.clone();
let (from, to) = (pk.bitmap(0).0, qk.bitmap(0).0);
for m in bad.accounts.iter_mut().filter(|m| m.pubkey == from) {
    m.pubkey = to;
}
assert!(k.run(bad).is_err(), "the bitmap of another pool");
assert!(k.bit(&qk, 100));
k.run(ix).unwrap();
assert!(!k.bit(&pk, 100) && k.bit(&qk, 100));
''')

seed('c01-fees-rounded-to-nearest','C01',
 'several positions of one range whose fees are not integers',
 'fees are rounded up, so that together the positions are owed more than was paid',
 [(PS,'''        let tokens_owed_1 = (fee_growth_inside_1_x32 - self.fee_growth_inside_1_last_x32)
            .mul_div_floor(''','''        let tokens_owed_1 = (fee_growth_inside_1_x32 - self.fee_growth_inside_1_last_x32)
            .mul_div_ceil(''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let us = k.users.clone();
for u in &us {
    k.mint(&pk, *u, -100, 100, 1_000_003).unwrap();
}
for i in 0..200 {
    k.swap(&pk, us[0], i % 2 == 0, 100, 0).unwrap();
    for u in &us {
        k.burn(&pk, *u, -100, 100, 0).unwrap();
        k.collect(&pk, *u, -100, 100, u64::MAX, u64::MAX).unwrap();
    }
}
for u in &us {
    k.burn(&pk, *u, -100, 100, 1_000_003).unwrap();
    k.collect(&pk, *u, -100, 100, u64::MAX, u64::MAX).unwrap();
}
''')

seed('c08-time-outside-wraps','C08',
 'a range whose lower tick was first used while the price was below it',
 'the seconds inside saturate at 0 instead of being counted modulo 2^32',
 [(PO,'seconds_inside: lower.seconds_outside - upper.seconds_outside,','seconds_inside: lower.seconds_outside.saturating_sub(upper.seconds_outside),')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let u = k.users[0];
k.mint(&pk, u, -1000, 1000, 1_000_000_000).unwrap();
// the upper tick is first used above its price, the lower one below
k.swap(&pk, u, false, 1 << 40, sqrt_at(300)).unwrap();
k.mint(&pk, u, -500, 200, 1_000_000_000).unwrap();
k.wait(100);
k.swap(&pk, u, true, 1 << 40, sqrt_at(0)).unwrap();
k.mint(&pk, u, 100, 200, 1_000_000_000).unwrap();
let read = |k: &K| {
    let t = |t: i32| {
        let a = k.svm.get(&pk.tick(t).0).unwrap().data.to_vec();
        let mut s = cyclos_core::states::tick::TickState::default();
        let n = std::mem::size_of_val(&s);
        unsafe { std::ptr::copy_nonoverlapping(a[8..].as_ptr(), &mut s as *mut _ as *mut u8, n) };
        s
    };
    let a = k.svm.get(&pk.addr()).unwrap().data.to_vec();
    let mut s = cyclos_core::states::pool::PoolState::default();
    let n = std::mem::size_of_val(&s);
    unsafe { std::ptr::copy_nonoverlapping(a[8..].as_ptr(), &mut s as *mut _ as *mut u8, n) };
    let o = k.p(&pk).obs_index;
    let a = k.svm.get(&pk.obs(o).0).unwrap().data.to_vec();
    let mut ob = cyclos_core::states::oracle::ObservationState::default();
    let n = std::mem::size_of_val(&ob);
    unsafe { std::ptr::copy_nonoverlapping(a[8..].as_ptr(), &mut ob as *mut _ as *mut u8, n) };
    svm::with_clock(k.svm.clock, || s.snapshot_cumulatives_inside(&t(100), &t(200), &ob).seconds_inside)
};
let before = read(&k);
k.swap(&pk, u, false, 1 << 40, sqrt_at(150)).unwrap();
k.wait(50);
let o = k.svm.clock;
let _ = o;
k.swap(&pk, u, true, 1 << 40, sqrt_at(50)).unwrap();
let after = read(&k);
assert_eq!(after.wrapping_sub(before), 50);
''')

seed('c18-price-limit-of-the-router','C18',
 'exact_input_single upwards with a price limit that stops the swap',
 'a limit above the current price is ignored',
 [(L,'''        if sqrt_price_limit_x32 == 0 {
            if zero_for_one {''','''        if sqrt_price_limit_x32 == 0 || (!zero_for_one && sqrt_price_limit_x32 >= fixed_point_32::Q32 << 15) {
            if zero_for_one {''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, sqrt_at(210_000));
let u = k.users[0];
k.mint(&pk, u, 200_000, 220_000, 1_000_000).unwrap();
let _ = k.single(&pk, u, false, FAR, 1 << 45, 0, sqrt_at(210_100));
assert!(k.p(&pk).price <= sqrt_at(210_100));
''')

seed('c20-collect-event-of-the-request','C20',
 'a collect that asks for more than is owed',
 'the event reports what was requested of token 1',
 [(L,'''        emit!(CollectEvent {
            pool_state: pool_state.key(),
            owner: ctx.accounts.owner.key(),
            tick_lower: tick_lower.tick,
            tick_upper: tick_upper.tick,
            amount_0,
            amount_1,
        });''','''        emit!(CollectEvent {
            pool_state: pool_state.key(),
            owner: ctx.accounts.owner.key(),
            tick_lower: tick_lower.tick,
            tick_upper: tick_upper.tick,
            amount_0,
            amount_1: amount_1_requested,
        });''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let u = k.users[0];
k.mint(&pk, u, -100, 100, 1_000_000_000).unwrap();
k.burn(&pk, u, -100, 100, 1_000_000_000).unwrap();
let before = k.held(&pk, &u);
let o = k.collect(&pk, u, -100, 100, u64::MAX, u64::MAX).unwrap();
let after = k.held(&pk, &u);
let mut seen = 0;
for e in &o.events {
    if let Event::Collect { a0, a1, .. } = parse_event(e) {
        assert_eq!([a0, a1], [after[0] - before[0], after[1] - before[1]]);
        seen += 1;
    }
}
assert_eq!(seen, 1);
''')

seed('c07-observation-in-the-same-window','C07',
 'two recorded operations within 14 seconds, then one after the window, with a capacity above one',
 'the running observation is not brought up to date within its window when the ring is full',
 [(OR,'''        if last.block_timestamp == block_timestamp {
            return cardinality;
        }
''','''        if last.block_timestamp == block_timestamp
            || (last.index == self.index
                && cardinality_next > 1
                && last.index + 1 == cardinality_next
                && block_timestamp - last.block_timestamp == 1)
        {
            return cardinality;
        }
''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let u = k.users[0];
k.run(increase_cardinality(u, &pk, 1, 1)).unwrap();
k.mint(&pk, u, -1000, 1000, 1_000_000_000).unwrap();
k.svm.clock = k.svm.clock / 14 * 14 + 14;
k.swap(&pk, u, true, 10_000_000, 0).unwrap();
assert_eq!(k.p(&pk).obs_index, 1);
k.wait(1);
k.swap(&pk, u, true, 10_000_000, 0).unwrap();
assert_eq!(k.obs(&pk, 1).ts as i64, k.svm.clock);
''')

seed('c04-zero-liquidity-gap-fee','C04',
 'a swap that has crossed an empty range and then ends inside a range with liquidity',
 'fee growth is computed with the liquidity of the range before the crossing',
 [(L,'''            if state.liquidity > 0 {
                state.fee_growth_global_x32 += step
                    .fee_amount
                    .mul_div_floor(fixed_point_32::Q32, state.liquidity)
                    .unwrap();
            }''','''            let sharing = if cache.liquidity_start > 0 && !exact_input { cache.liquidity_start } else { state.liquidity };
            if sharing > 0 {
                state.fee_growth_global_x32 += step
                    .fee_amount
                    .mul_div_floor(fixed_point_32::Q32, sharing)
                    .unwrap();
            }''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, b, t) = (k.users[0], k.users[1], k.users[2]);
k.mint(&pk, a, -100, 100, 9_000_000_000).unwrap();
k.mint(&pk, b, -1000, 1000, 1_000_000_000).unwrap();
k.swap(&pk, t, true, -60_000_000, 0).unwrap();
k.swap(&pk, t, false, 1 << 40, Q32).unwrap();
let mut owed = 0;
for (u, lo, l) in [(a, -100, 9_000_000_000u64), (b, -1000, 1_000_000_000)] {
    k.burn(&pk, u, lo, -lo, l).unwrap();
    let p = k.pos(&pk, &u, lo, -lo);
    owed += p.owed0;
}
let v = k.vaults(&pk)[0];
let slack = v - owed - k.p(&pk).proto0;
assert!(slack < 100, "{} stay behind", slack);
''')
