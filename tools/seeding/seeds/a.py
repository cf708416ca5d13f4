seed('c02-dust-swap-on-boundary','C02',
 'a swap that stops exactly on an initialized tick while moving down, then a swap so small that it does not move the price',
 'the tick is recomputed from the price although the tick below was already entered, so the pool claims to be in a range whose liquidity it has removed',
 [(L,'''            } else if state.sqrt_price_x32 != step.sqrt_price_start_x32 {
                msg!("not at next or start price");''','''            } else {
                msg!("not at next price");''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, sqrt_at(5));
let u = k.users[0];
k.mint(&pk, u, -100, 100, 1_000_000_000_000).unwrap();
k.mint(&pk, u, 0, 100, 500_000_000_000).unwrap();
// stops exactly on tick 0, which is left downwards
k.swap(&pk, u, true, 1 << 40, sqrt_at(0)).unwrap();
assert_eq!((k.p(&pk).price, k.p(&pk).tick, k.p(&pk).liquidity), (sqrt_at(0), -1, 1_000_000_000_000));
// too small to move the price
k.swap(&pk, u, true, 1, 0).unwrap();
let p = k.p(&pk);
let expect = if p.tick >= 0 { 1_500_000_000_000 } else { 1_000_000_000_000u64 };
assert_eq!(p.liquidity, expect, "tick {}", p.tick);
''')

seed('c02-same-bit-two-words','C02',
 'a position whose two new boundary ticks lie a multiple of 256 spacings apart, in different bitmap words',
 'the upper tick is not marked in its bitmap word, so swaps run past it without crossing it',
 [(L,'''            let bit_pos = ((tick_lower.tick / pool_state.tick_spacing as i32) % 256) as u8; // rightmost 8 bits
            bitmap_lower.load_mut()?.flip_bit(bit_pos);
        }
        if flipped_upper {
            let bit_pos = ((tick_upper.tick / pool_state.tick_spacing as i32) % 256) as u8;
            if bitmap_lower''','''            bitmap_lower.load_mut()?.flip_bit(bit_pos_lower);
        }
        // never toggle one bit twice
        if flipped_upper && !(flipped_lower && bit_pos == bit_pos_lower) {
            if bitmap_lower'''),
  (L,'''        if flipped_lower {
            bitmap_lower''','''        // rightmost 8 bits
        let bit_pos_lower = ((tick_lower.tick / pool_state.tick_spacing as i32) % 256) as u8;
        let bit_pos = ((tick_upper.tick / pool_state.tick_spacing as i32) % 256) as u8;
        if flipped_lower {
            bitmap_lower''')],
'''
let (mut k, pk) = K::with_pool(500, 10, Q32);
let u = k.users[0];
k.mint(&pk, u, -30, 100, 1_000_000).unwrap();
assert!(k.bit(&pk, -30) && k.bit(&pk, 100));
k.mint(&pk, u, 0, 2560, 1_000_000).unwrap();
assert!(k.bit(&pk, 0));
assert!(k.bit(&pk, 2560), "the upper tick is not in the bitmap");
k.swap(&pk, u, false, 1 << 30, sqrt_at(2600)).unwrap();
assert_eq!(k.p(&pk).liquidity, 0);
''')

seed('c06-stale-growth-on-upward-cross','C06',
 'a swap of token 1 that earns fees in one range and then crosses an initialized tick upwards into another',
 'the crossed tick records the fee growth from before the swap, so positions beyond it are credited with fees that were earned below it',
 [(L,'''                        if zero_for_one {
                            pool.fee_growth_global_1_x32
                        } else {
                            state.fee_growth_global_x32
                        },''','''                        pool.fee_growth_global_1_x32,''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, sqrt_at(5));
let (a, b, t) = (k.users[0], k.users[1], k.users[2]);
k.mint(&pk, a, -100, 50, 1_000_000_000_000).unwrap();
k.mint(&pk, b, 50, 200, 1_000_000_000_000).unwrap();
let before = k.vaults(&pk);
k.swap(&pk, t, false, 1 << 40, sqrt_at(100)).unwrap();
let paid = k.vaults(&pk)[1] - before[1];
k.burn(&pk, a, -100, 50, 0).unwrap();
k.burn(&pk, b, 50, 200, 0).unwrap();
let (oa, ob) = (k.pos(&pk, &a, -100, 50).owed1, k.pos(&pk, &b, 50, 200).owed1);
let fees = paid * 3 / 1000;
println!("paid {paid} fees {fees} owed {oa} {ob}");
assert!(oa > 0 && ob > 0);
assert!(oa + ob <= fees * 2 / 3 + 2, "more fees credited than were paid");
''')

seed('c06-dust-keeps-old-snapshot','C06',
 'a position so small that its fees round to zero, then topped up before the next fee update',
 'the fee growth snapshot is kept until there is something to credit, so liquidity added later is paid fees earned before it was there',
 [(P+'states/position.rs','''        self.fee_growth_inside_0_last_x32 = fee_growth_inside_0_x32;
        self.fee_growth_inside_1_last_x32 = fee_growth_inside_1_x32;
        if tokens_owed_0 > 0 || tokens_owed_1 > 0 {
''','''        if tokens_owed_0 > 0 || tokens_owed_1 > 0 || self.liquidity == liquidity_delta as u64 {
            self.fee_growth_inside_0_last_x32 = fee_growth_inside_0_x32;
            self.fee_growth_inside_1_last_x32 = fee_growth_inside_1_x32;
''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, b, t) = (k.users[0], k.users[1], k.users[2]);
k.mint(&pk, a, -100, 100, 1_000_000_000_000).unwrap();
k.mint(&pk, b, -100, 100, 10).unwrap();
k.swap(&pk, t, true, 1_000_000_000, 0).unwrap();
k.mint(&pk, b, -100, 100, 1_000_000_000_000).unwrap();
k.burn(&pk, b, -100, 100, 0).unwrap();
let o = k.pos(&pk, &b, -100, 100);
assert_eq!((o.owed0, o.owed1), (0, 0), "fees from before the deposit");
''')

seed('c07-oracle-uses-liquidity-after-swap','C07',
 'a swap that crosses an initialized tick and writes an observation',
 'the observation weighs the elapsed time with the liquidity after the swap instead of the liquidity that was in range during that time',
 [(L,'''                pool.tick,
                cache.liquidity_start,''','''                pool.tick,
                state.liquidity,''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let u = k.users[0];
k.mint(&pk, u, -100, 100, 3_000_000_000).unwrap();
k.mint(&pk, u, -1000, 1000, 1_000_000_000).unwrap();
let i = k.p(&pk).obs_index;
let before = k.obs(&pk, i);
k.wait(1000);
let liq = k.p(&pk).liquidity;
k.swap(&pk, u, true, 1 << 40, sqrt_at(-500)).unwrap();
assert!(k.p(&pk).liquidity != liq);
let p = k.p(&pk);
let o = k.obs(&pk, p.obs_index);
let dt = (o.ts - before.ts) as u64;
assert!(dt > 0);
assert_eq!(o.spl_cum - before.spl_cum, (dt << 32) / liq);
''')

seed('c07-timestamp-wrap','C07',
 'an observation whose interval contains the wrap of the 32 bit timestamp',
 'the interval counts as empty, so the accumulators stop for it',
 [(P+'states/oracle.rs','let delta = block_timestamp - self.block_timestamp;','let delta = block_timestamp.saturating_sub(self.block_timestamp);')],
'''
use cyclos_core::states::oracle::ObservationState;
let mut o = ObservationState::default();
o.block_timestamp = u32::MAX - 9;
o.initialized = true;
let n = o.transform(10, -7, 3);
assert_eq!({ n.block_timestamp }, 10);
assert_eq!({ n.tick_cumulative }, -7 * 20);
assert_eq!({ n.seconds_per_liquidity_cumulative_x32 }, (20u64 << 32) / 3);
''')

seed('c07-index-of-second-new-observation','C07',
 'growing the observation array by two or more slots in one instruction, then enough observations to reach the second of them',
 'the second new slot carries the index of the first, so the pool records a wrong observation index once it is written',
 [(L,'''            observation_state.index = pool_state.observation_cardinality_next + i as u16;''','''            observation_state.index = pool_state.observation_cardinality_next;''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let u = k.users[0];
k.run(increase_cardinality(u, &pk, 1, 3)).unwrap();
for i in 0..4 {
    assert_eq!(k.obs(&pk, i).index, i);
}
k.mint(&pk, u, -1000, 1000, 1_000_000_000).unwrap();
for i in 1..8i64 {
    k.wait(60);
    let zfo = i % 2 == 0;
    k.swap(&pk, u, zfo, 20_000_000, 0).unwrap();
    let p = k.p(&pk);
    let o = k.obs(&pk, p.obs_index);
    assert_eq!(o.ts as i64, k.svm.clock, "the latest observation is not the one just written");
    assert_eq!(o.index, p.obs_index);
}
''')

seed('c08-snapshot-at-upper-tick','C08',
 'a range snapshot taken while the current tick equals the upper tick of the range',
 'the snapshot is taken as if the range were active, although the price has left it',
 [(P+'states/pool.rs','} else if self.tick < upper.tick {','} else if self.tick <= upper.tick {')],
'''
use cyclos_core::states::{oracle::ObservationState, pool::PoolState, tick::TickState};
let mut p = PoolState::default();
p.tick = 100;
p.liquidity = 1000;
let mut lo = TickState::default();
lo.tick = -100;
lo.tick_cumulative_outside = 500;
lo.seconds_per_liquidity_outside_x32 = 7000;
lo.seconds_outside = 40;
let mut hi = TickState::default();
hi.tick = 100;
hi.tick_cumulative_outside = 900;
hi.seconds_per_liquidity_outside_x32 = 9000;
hi.seconds_outside = 90;
let mut o = ObservationState::default();
o.block_timestamp = 1000;
o.tick_cumulative = 5000;
o.seconds_per_liquidity_cumulative_x32 = 1 << 34;
svm::init();
let s = svm::with_clock(1100, || p.snapshot_cumulatives_inside(&lo, &hi, &o));
assert_eq!((s.tick_cumulative_inside, s.seconds_per_liquidity_inside_x32, s.seconds_inside), (400, 2000, 50));
''')

seed('c10-empty-token-account','C10',
 'a former holder of a position NFT whose emptied token account for it still exists',
 'owning an empty token account of the NFT is enough to withdraw from the position',
 [(P+'access_control.rs','''        token_account.amount == 1
            && (token_account.owner == signer.key()''','''        (token_account.owner == signer.key()'''),
  ],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, b) = (k.users[0], k.users[1]);
let m = k.nft_mint(&pk, a, -100, 100, [1 << 30, 1 << 30, 0, 0]).unwrap();
let to = ata(&b, &m);
k.svm.accts.insert(to, kit::token_acct(&m, &b, 0));
k.token_ix(spl_token::instruction::transfer(&SPL_TOKEN, &ata(&a, &m), &to, &a, &[], 1).unwrap());
let r = k.nft_dec(&pk, a, &m, 1000);
assert!(r.is_err(), "a former holder withdrew");
k.nft_dec(&pk, b, &m, 1000).unwrap();
let r = k.nft_collect(&pk, a, &m, 1, 1);
assert!(r.is_err(), "a former holder collected");
''')

seed('c10-delegate-without-allowance','C10',
 'a token account with a delegate that was approved for an amount of zero',
 'a delegate without any allowance can withdraw from the position',
 [(P+'access_control.rs','''                || (token_account.delegate.contains(&signer.key())
                    && token_account.delegated_amount > 0)),''','''                || token_account.delegate.contains(&signer.key())),''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, b) = (k.users[0], k.users[1]);
let m = k.nft_mint(&pk, a, -100, 100, [1 << 30, 1 << 30, 0, 0]).unwrap();
let acct = ata(&a, &m);
let t = k.tok(&pk, &b, -100, 100);
k.token_ix(spl_token::instruction::approve(&SPL_TOKEN, &acct, &b, &a, &[], 0).unwrap());
let ix = decrease_liquidity(&pk, &t, b, acct, m, 1000, 0, 0, FAR);
assert!(k.run(ix).is_err(), "withdrawn without an allowance");
k.token_ix(spl_token::instruction::approve(&SPL_TOKEN, &acct, &b, &a, &[], 1).unwrap());
k.run(decrease_liquidity(&pk, &t, b, acct, m, 1000, 0, 0, FAR)).unwrap();
''')

seed('c10-collect-with-another-nft','C10',
 'someone who holds some position NFT calls collect with it for another position',
 'the NFT shown is not compared with the position, so its holder collects what another position is owed',
 [(C,'''    #[account(
        constraint = nft_account.mint == tokenized_position_state.load()?.mint
    )]
    pub nft_account: Box<Account<'info, TokenAccount>>,''','''    #[account(
        constraint = nft_account.amount == 1
    )]
    pub nft_account: Box<Account<'info, TokenAccount>>,''',1)],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, b, t) = (k.users[0], k.users[1], k.users[2]);
let m = k.nft_mint(&pk, a, -100, 100, [1 << 30, 1 << 30, 0, 0]).unwrap();
let own = k.nft_mint(&pk, b, -200, 200, [1 << 20, 1 << 20, 0, 0]).unwrap();
k.swap(&pk, t, true, 10_000_000, 0).unwrap();
let acc = k.tok(&pk, &b, -100, 100);
let ix = collect_tokenized(&pk, &acc, b, ata(&b, &own), m, 1, 0);
assert!(k.run(ix).is_err(), "collected with another NFT");
k.nft_collect(&pk, a, &m, u64::MAX, u64::MAX).unwrap();
''')

seed('c11-uninitialized-bitmap-not-verified','C11',
 'a swap that is given an account that does not exist in place of a bitmap with initialized ticks',
 'the address of a bitmap is verified only when the account exists, so a trader hides ticks by naming any empty address',
 [(L,'''                // ensure this is a valid PDA, even if account is not initialized
                assert!(
                    bitmap_account.key()
                        == Pubkey::find_program_address(
                            &[
                                BITMAP_SEED.as_bytes(),
                                pool.token_0.as_ref(),
                                pool.token_1.as_ref(),
                                &pool.fee.to_be_bytes(),
                                &word_pos.to_be_bytes(),
                            ],
                            &cyclos_core::id()
                        )
                        .0
                );

''',''),
 (L,'''                    msg!("bitmap loaded");
''','''                    msg!("bitmap loaded");
                    pool.validate_bitmap_address(
                        &bitmap_account.key(),
                        bitmap_state.bump,
                        word_pos,
                    )?;
''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, sqrt_at(5));
let (a, t) = (k.users[0], k.users[2]);
k.mint(&pk, a, 0, 100, 1_000_000_000).unwrap();
k.mint(&pk, a, 200, 1000, 1_000_000_000).unwrap();
k.mint(&pk, a, -1000, 1000, 1_000_000).unwrap();
let rem = [key_of(1), pk.obs(0).0];
let ix = k.swap_ix(&pk, t, false, 1 << 40, sqrt_at(150), ID, &rem);
assert!(k.run(ix).is_err(), "accepted an address that is not the bitmap's");
k.swap(&pk, t, false, 1 << 40, sqrt_at(150)).unwrap();
fn key_of(n: u64) -> Pubkey {
    kit::key("nobody", n)
}
''')

seed('c11-another-tick-in-a-swap','C11',
 'a swap that is given the account of another initialized tick of the pool in place of the one it crosses',
 'the tick account is verified against the tick it says it is, so the swap crosses whichever tick the trader names',
 [(L,'''                        tick_state.bump,
                        step.tick_next,
                    )?;''','''                        tick_state.bump,
                        tick_state.tick,
                    )?;''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, sqrt_at(5));
let (a, t) = (k.users[0], k.users[2]);
k.mint(&pk, a, -1000, 100, 1_000_000_000).unwrap();
k.mint(&pk, a, -1000, 2000, 1_000_000_000).unwrap();
let good = k.accounts(&pk, false, |r| k.swap_ix(&pk, t, false, 1 << 40, sqrt_at(150), ID, r)).unwrap();
let i = good.iter().position(|x| *x == pk.tick(100).0).unwrap();
let mut bad = good.clone();
bad[i] = pk.tick(2000).0;
let ix = k.swap_ix(&pk, t, false, 1 << 40, sqrt_at(150), ID, &bad);
assert!(k.run(ix).is_err(), "crossed another tick than the one reached");
let ix = k.swap_ix(&pk, t, false, 1 << 40, sqrt_at(150), ID, &good);
k.run(ix).unwrap();
''')

seed('c14-collect-nothing-keeps-the-lock','C14',
 'a collect that has nothing to pay out',
 'the pool stays locked after it, so every later operation on the pool fails for everybody',
 [(L,'''        pool_state.load_mut()?.unlocked = true;
        Ok(())
    }

    // ---------------------------------------------------------------------
    // 4. Swap''','''        // without a transfer nobody else has run in between
        if amount_0 > 0 || amount_1 > 0 {
            pool_state.load_mut()?.unlocked = true;
        }
        Ok(())
    }

    // ---------------------------------------------------------------------
    // 4. Swap''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, t) = (k.users[0], k.users[2]);
k.mint(&pk, a, -100, 100, 1_000_000_000).unwrap();
k.collect(&pk, a, -100, 100, u64::MAX, u64::MAX).unwrap();
assert!(k.p(&pk).unlocked);
k.swap(&pk, t, false, 1000, 0).unwrap();
''')

seed('c14-one-sided-payment','C14',
 'a deposit that owes both tokens, made through a callback program that pays the first and not the second',
 'only one of the two payments is verified, so liquidity is obtained without paying for its token 1 part',
 [(L,'''        if amount_1 > 0 {
            require!(
                balance_1_before.checked_add(amount_1).unwrap()''','''        else if amount_1 > 0 {
            require!(
                balance_1_before.checked_add(amount_1).unwrap()'''),
  ],
'''
use std::rc::Rc;
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, b) = (k.users[0], k.users[1]);
let h = kit::key("handler", 0);
k.svm.install_handler(
    h,
    Rc::new(|_, infos, data| {
        let owed = u64::from_le_bytes(data[8..16].try_into().unwrap());
        let ix = spl_token::instruction::transfer(&SPL_TOKEN, infos[1].key, infos[3].key, infos[0].key, &[], owed)?;
        solana_program::program::invoke(&ix, infos)
    }),
);
k.mint(&pk, a, -100, 100, 1_000_000_000).unwrap();
k.prep(&pk, b, -100, 100).unwrap();
let ix = k.mint_ix(&pk, b, b, -100, 100, 1_000_000_000, h);
assert!(k.run(ix).is_err(), "token 1 was not paid");
// below the price only token 1 is owed: not paying it fails as well
k.prep(&pk, b, -200, -100).unwrap();
let ix = k.mint_ix(&pk, b, b, -200, -100, 1_000_000_000, h);
assert!(k.run(ix).is_err());
// and above it the payment of token 0 is complete
k.prep(&pk, b, 100, 200).unwrap();
let ix = k.mint_ix(&pk, b, b, 100, 200, 1_000_000_000, h);
k.run(ix).unwrap();
''')

seed('c17-protocol-fee-on-the-wrong-side','C17',
 'a swap with an exact output',
 'the protocol share is booked in the token that was specified instead of the token the fee was paid in',
 [(L,'''            pool.fee_growth_global_0_x32 = state.fee_growth_global_x32;
            if state.protocol_fee > 0 {
                pool.protocol_fees_token_0 += state.protocol_fee;
            }
        } else {
            pool.fee_growth_global_1_x32 = state.fee_growth_global_x32;
            if state.protocol_fee > 0 {
                pool.protocol_fees_token_1 += state.protocol_fee;
            }
        }
''','''            pool.fee_growth_global_0_x32 = state.fee_growth_global_x32;
        } else {
            pool.fee_growth_global_1_x32 = state.fee_growth_global_x32;
        }
        if state.protocol_fee > 0 {
            // the fee is paid in the specified token
            if zero_for_one == exact_input {
                pool.protocol_fees_token_0 += state.protocol_fee;
            } else {
                pool.protocol_fees_token_1 += state.protocol_fee;
            }
        }
''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, t) = (k.users[0], k.users[2]);
k.mint(&pk, a, -100, 100, 1_000_000_000_000).unwrap();
k.swap(&pk, t, true, 1_000_000, 0).unwrap();
let p = k.p(&pk);
assert!(p.proto0 > 0 && p.proto1 == 0);
k.swap(&pk, t, true, -1_000_000, 0).unwrap();
let q = k.p(&pk);
assert!(q.proto0 > p.proto0, "no share of the fee of an exact output swap");
assert_eq!(q.proto1, 0, "a share in the token that was paid out");
''')
