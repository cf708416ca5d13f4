seed('c18-minimum-ignored-for-unused-token','C18',
 'adding liquidity to a range that the price has left, so that one of the tokens is not used, with a minimum for that token',
 'the minimum for a token is skipped when none of it was taken, so the deposit goes in at a price the caller ruled out',
 [(L,'''    require!(
        amount_0 >= amount_0_min && amount_1 >= amount_1_min,
        ErrorCode::PriceSlippageCheck
    );

    Ok((liquidity, amount_0, amount_1))''','''    // a token that the range does not use has no price to slip
    require!(
        (amount_0 == 0 || amount_0 >= amount_0_min)
            && (amount_1 == 0 || amount_1 >= amount_1_min),
        ErrorCode::PriceSlippageCheck
    );

    Ok((liquidity, amount_0, amount_1))''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, sqrt_at(5));
let (a, t) = (k.users[0], k.users[2]);
k.mint(&pk, t, -1000, 1000, 1_000_000_000_000).unwrap();
k.nft_mint(&pk, a, 0, 100, [1 << 30, 1 << 30, 1 << 20, 1 << 20]).unwrap();
// the price leaves the range before the deposit
k.swap(&pk, t, true, 1 << 40, sqrt_at(-50)).unwrap();
let r = k.nft_mint(&pk, a, 0, 100, [1 << 30, 1 << 30, 1 << 20, 1 << 20]);
assert!(r.is_err(), "less of token 1 than asked for");
k.nft_mint(&pk, a, 0, 100, [1 << 30, 1 << 30, 1 << 20, 0]).unwrap();
''')

seed('c18-deadline-of-the-same-second','C18',
 'an instruction that is executed in the second after its deadline',
 'an expired instruction is still accepted for one more second',
 [(P+'access_control.rs','Clock::get()?.unix_timestamp <= deadline','Clock::get()?.unix_timestamp - 1 <= deadline')],
'''
let (mut k, pk) = K::with_pool(3000, 10, sqrt_at(5));
let (a, t) = (k.users[0], k.users[2]);
k.mint(&pk, a, -1000, 1000, 1_000_000_000_000).unwrap();
let now = k.svm.clock;
k.single(&pk, t, true, now, 1_000_000, 0, 0).unwrap();
assert!(k.single(&pk, t, true, now - 2, 1_000_000, 0, 0).is_err());
assert!(k.single(&pk, t, true, now - 1, 1_000_000, 0, 0).is_err(), "executed after its deadline");
''')

seed('c19-hop-without-output','C19',
 'a route whose intermediate hop gives an output of zero',
 'the route ends silently at a hop without output and the minimum is compared with zero, instead of failing',
 [(L,'''            if i < additional_accounts_per_pool.len() - 1 {
                // reach''','''            if amount_in_internal == 0 {
                // nothing left to route
                break;
            }

            if i < additional_accounts_per_pool.len() - 1 {
                // reach''')],
'''
let mut k = K::new();
let p1 = k.pool(0, 1, 3000, 10, sqrt_at(-2000));
let p2 = k.pool(1, 2, 3000, 10, sqrt_at(5));
let (a, t) = (k.users[0], k.users[2]);
k.mint(&p1, a, -4000, 4000, 1_000_000_000_000).unwrap();
k.mint(&p2, a, -1000, 1000, 1_000_000_000_000).unwrap();
let t_in = ata(&t, &p1.t0);
// one unit of token 0 buys nothing of token 1
let h1 = k.hop(&p1, t, true, 1).unwrap();
let h2 = k.hop(&p2, t, true, 10).unwrap();
let r = k.run(exact_input(t, t_in, &[h1.clone(), h2.clone()], FAR, 1, 0));
assert!(r.is_err(), "a hop with an input of zero is no swap");
let h1 = k.hop(&p1, t, true, 1_000_000).unwrap();
k.run(exact_input(t, t_in, &[h1, h2], FAR, 1_000_000, 0)).unwrap();
''')

seed('c19-accounts-of-the-first-hop','C19',
 'a route of three pools where the hops need different numbers of accounts',
 'the accounts to skip are those of the first hop for every hop, so longer routes read the wrong accounts',
 [(L,'for _j in 0..additional_accounts_per_pool[i] {','for _j in 0..additional_accounts_per_pool[i / 2] {')],
'''
let mut k = K::new();
let p1 = k.pool(0, 1, 3000, 10, sqrt_at(5));
let p2 = k.pool(1, 2, 3000, 10, sqrt_at(5));
let p3 = k.pool(0, 2, 500, 10, sqrt_at(5));
let (a, t) = (k.users[0], k.users[2]);
for p in [&p1, &p2, &p3] {
    k.mint(p, a, -3000, 3000, 1_000_000_000_000).unwrap();
}
k.mint(&p2, a, -100, 0, 10_000).unwrap();
k.wait(100);
let amount = 10_000_000_000;
let h1 = k.hop(&p1, t, true, amount).unwrap();
let h2 = k.hop(&p2, t, true, amount * 98 / 100).unwrap();
let h3 = k.hop(&p3, t, false, amount * 96 / 100).unwrap();
assert!(h2.rem.len() > h1.rem.len());
k.run(exact_input(t, ata(&t, &p1.t0), &[h1, h2, h3], FAR, amount as u64, 0)).unwrap();
''')

seed('c20-swap-event-start-liquidity','C20',
 'a swap that crosses an initialized tick',
 'the event reports the liquidity before the swap instead of the liquidity after it',
 [(L,'''            sqrt_price_x32: state.sqrt_price_x32,
            liquidity: state.liquidity,
            tick: state.tick''','''            sqrt_price_x32: state.sqrt_price_x32,
            liquidity: cache.liquidity_start,
            tick: state.tick''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let u = k.users[0];
k.mint(&pk, u, -100, 100, 3_000_000_000).unwrap();
k.mint(&pk, u, -1000, 1000, 1_000_000_000).unwrap();
let o = k.swap(&pk, u, true, 1 << 40, sqrt_at(-500)).unwrap();
let p = k.p(&pk);
let mut seen = 0;
for e in &o.events {
    if let Event::Swap { liquidity, .. } = parse_event(e) {
        assert_eq!(liquidity, p.liquidity);
        seen += 1;
    }
}
assert_eq!(seen, 1);
''')

seed('c20-decrease-event-of-everything-owed','C20',
 'liquidity removed from a position NFT that has earned fees since its last update',
 'the event reports the fees together with the amount removed',
 [(L,'''        emit!(DecreaseLiquidityEvent {
            token_id: tokenized_position.mint,
            liquidity,
            amount_0,
            amount_1
        });''','''        emit!(DecreaseLiquidityEvent {
            token_id: tokenized_position.mint,
            liquidity,
            amount_0: updated_core_position.tokens_owed_0 - core_position_before.tokens_owed_0,
            amount_1
        });''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, t) = (k.users[0], k.users[2]);
let m = k.nft_mint(&pk, a, -100, 100, [1 << 40, 1 << 40, 0, 0]).unwrap();
let l = k.nft(&m).liquidity;
k.swap(&pk, t, true, 100_000_000, 0).unwrap();
let before = k.nft(&m).owed0;
let o = k.nft_dec(&pk, a, &m, l / 2).unwrap();
let fees_and_half = k.nft(&m).owed0 - before;
for e in &o.events {
    if let Event::DecLiq { a0, .. } = parse_event(e) {
        assert!(a0 + 100_000 < fees_and_half, "fees reported as removed");
    }
}
''')

seed('c12-collected-again-after-removal','C12',
 'collecting twice from a position NFT after all of its liquidity was removed',
 'what was paid is deducted from an NFT only while it has liquidity, so it collects the same amount again from the other holders of its range',
 [(L,'''        tokenized_position.tokens_owed_0 = tokens_owed_0 - amount_0;
        tokenized_position.tokens_owed_1 = tokens_owed_1 - amount_1;
''','''        if tokenized_position.liquidity > 0 {
            tokenized_position.tokens_owed_0 = tokens_owed_0 - amount_0;
            tokenized_position.tokens_owed_1 = tokens_owed_1 - amount_1;
        }
''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, b) = (k.users[0], k.users[1]);
let m = k.nft_mint(&pk, a, -100, 100, [1 << 30, 1 << 30, 0, 0]).unwrap();
let n = k.nft_mint(&pk, b, -100, 100, [1 << 30, 1 << 30, 0, 0]).unwrap();
let l = k.nft(&m).liquidity;
k.nft_dec(&pk, a, &m, l).unwrap();
k.nft_collect(&pk, a, &m, u64::MAX, u64::MAX).unwrap();
k.nft_dec(&pk, b, &n, l).unwrap();
let before = k.held(&pk, &a);
let _ = k.nft_collect(&pk, a, &m, u64::MAX, u64::MAX);
assert_eq!(k.held(&pk, &a), before, "paid twice");
let before = k.held(&pk, &b);
k.nft_collect(&pk, b, &n, u64::MAX, u64::MAX).unwrap();
assert!(k.held(&pk, &b)[0] > before[0]);
''')

seed('c12-fees-for-new-liquidity','C12',
 'liquidity added to a position NFT after its range earned fees',
 'the added liquidity counts in the fees earned before it was there, taken from the other NFTs of the range',
 [(L,'''        // Update tokenized position metadata
        let mut position = ctx.accounts.tokenized_position_state.load_mut()?;
''','''        // Update tokenized position metadata
        let mut position = ctx.accounts.tokenized_position_state.load_mut()?;
        position.liquidity += liquidity;
'''),
  (L,'''        position.fee_growth_inside_1_last_x32 = fee_growth_inside_1_last_x32;
        position.liquidity += liquidity;
''','''        position.fee_growth_inside_1_last_x32 = fee_growth_inside_1_last_x32;
''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, b, t) = (k.users[0], k.users[1], k.users[2]);
let m = k.nft_mint(&pk, a, -100, 100, [1 << 20, 1 << 20, 0, 0]).unwrap();
k.nft_mint(&pk, b, -100, 100, [1 << 40, 1 << 40, 0, 0]).unwrap();
k.swap(&pk, t, true, 1 << 36, 0).unwrap();
k.nft_inc(&pk, a, &m, [1 << 40, 1 << 40, 0, 0]).unwrap();
let n = k.nft(&m);
assert!(n.owed0 < 1000, "fees for liquidity that was not there: {}", n.owed0);
''')

seed('c13-mint-authority-kept','C13',
 'metadata added to a position NFT',
 'the mint authority stays with the program account instead of being removed',
 [(L,'''            AuthorityType::MintTokens,
            None,''','''            AuthorityType::MintTokens,
            Some(ctx.accounts.factory_state.key()),''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let a = k.users[0];
let m = k.nft_mint(&pk, a, -100, 100, [1 << 30, 1 << 30, 0, 0]).unwrap();
k.run(add_metadata(a, m)).unwrap();
let s = spl_token::state::Mint::unpack(k.svm.data(&m).unwrap()).unwrap();
assert_eq!((s.supply, s.mint_authority), (1, COption::None));
''')

seed('c15-lowest-bitmap-word','C15',
 'a tick spacing for which the lowest usable tick lies in a bitmap word that rounding towards zero leaves out',
 'the lowest bitmap word of a pool cannot be created, so the lowest valid ticks cannot be used',
 [(L,'let min_word_pos = ((tick_math::MIN_TICK / pool_state.tick_spacing as i32) >> 8) as i16;','let min_word_pos = (tick_math::MIN_TICK / (pool_state.tick_spacing as i32 * 256)) as i16;')],
'''
let (mut k, pk) = K::with_pool(3000, 60, Q32);
let u = k.users[0];
assert_eq!(word_of(-221760, 60), -15);
k.run(init_bitmap(u, &pk, -14)).unwrap();
k.run(init_bitmap(u, &pk, -15)).unwrap();
assert!(k.run(init_bitmap(u, &pk, -16)).is_err());
k.mint(&pk, u, -221760, 221760, 1_000_000).unwrap();
''')

seed('c15-tokens-in-either-order','C15',
 'a pool created with its two tokens in descending order',
 'two pools exist for one pair and fee, one for each order of the tokens',
 [(C,'constraint = token_0.key() < token_1.key()','constraint = token_0.key() != token_1.key()')],
'''
let (mut k, pk) = K::with_pool(3000, 60, Q32);
let u = k.users[0];
let rev = PoolKey { t0: pk.t1, t1: pk.t0, fee: pk.fee };
assert!(k.run(create_pool(u, &rev, Q32)).is_err(), "a second pool for the same pair and fee");
''')

seed('c16-close-tick-with-opposite-references','C16',
 'a tick above the price that is the upper boundary of one position and the lower boundary of another with the same liquidity',
 'a tick whose net liquidity is zero can be closed although positions refer to it, and their liquidity cannot be removed any more',
 [(P+'states/tick.rs','''            && self.liquidity_gross == 0
            && self.fee''','''            && self.fee''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, b) = (k.users[0], k.users[1]);
k.mint(&pk, a, -100, 50, 1_000_000_000).unwrap();
k.mint(&pk, b, 50, 200, 1_000_000_000).unwrap();
assert_eq!((k.tick(&pk, 50).net, k.tick(&pk, 50).gross), (0, 2_000_000_000));
assert!(k.run(close_tick(pk.tick(50).0, b)).is_err(), "closed a tick that is in use");
k.burn(&pk, a, -100, 50, 1_000_000_000).unwrap();
k.burn(&pk, b, 50, 200, 1_000_000_000).unwrap();
k.run(close_tick(pk.tick(50).0, b)).unwrap();
''')

seed('c16-one-tick-cleared','C16',
 'a position that is the only user of both of its ticks is emptied, and its upper tick is used again while it is above the price',
 'only one of the two abandoned ticks is cleared, so the other cannot be closed and its next user starts from old growth',
 [(L,'''            tick_lower.clear();
        }
        if flipped_upper {
            tick_upper.clear();''','''            tick_lower.clear();
        } else if flipped_upper {
            tick_upper.clear();''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, b) = (k.users[0], k.users[1]);
k.mint(&pk, a, -1000, 1000, 1_000_000_000).unwrap();
k.swap(&pk, b, false, 10_000_000, 0).unwrap();
k.mint(&pk, b, -100, -50, 1_000_000_000).unwrap();
k.burn(&pk, b, -100, -50, 1_000_000_000).unwrap();
k.run(close_tick(pk.tick(-100).0, b)).unwrap();
k.run(close_tick(pk.tick(-50).0, b)).expect("a tick that nobody uses");
''')

seed('c09-protocol-fees-without-signature','C09',
 'collect_protocol with the address of the owner, but not its signature',
 'the owner is compared but need not sign, so anybody collects the protocol fees',
 [(C,'''    #[account(address = factory_state.load()?.owner)]
    pub owner: Signer<'info>,

    /// Factory state stores the protocol owner address
    #[account(mut)]
    pub factory_state: AccountLoader<'info, FactoryState>,

    /// Pool state stores''','''    /// CHECK: Compared with the factory owner
    #[account(address = factory_state.load()?.owner)]
    pub owner: UncheckedAccount<'info>,

    /// Factory state stores the protocol owner address
    #[account(mut)]
    pub factory_state: AccountLoader<'info, FactoryState>,

    /// Pool state stores''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, t) = (k.users[0], k.users[2]);
k.mint(&pk, a, -1000, 1000, 1_000_000_000).unwrap();
k.swap(&pk, t, true, 10_000_000, 0).unwrap();
assert!(k.p(&pk).proto0 > 0);
let admin = k.admin;
let (r0, r1) = (ata(&t, &pk.t0), ata(&t, &pk.t1));
let mut ix = collect_protocol(admin, &pk, r0, r1, 1, 0);
for m in ix.accounts.iter_mut().filter(|m| m.pubkey == admin) {
    m.is_signer = false;
}
assert!(k.run(ix).is_err(), "collected without the owner's signature");
k.run(collect_protocol(admin, &pk, r0, r1, 1, 0)).unwrap();
''')

seed('c04-no-upper-clamp','C04',
 'a swap up to the end of the price range in a pool whose last bitmap word ends above the maximum tick',
 'the last step is not stopped at the maximum tick, so a swap into the last word fails although the price limit is valid',
 [(L,'''            } else if step.tick_next > tick_math::MAX_TICK {
                step.tick_next = tick_math::MAX_TICK;
            }''','''            }''')],
'''
let (mut k, pk) = K::with_pool(3000, 60, sqrt_at(5));
let (a, t) = (k.users[0], k.users[2]);
k.mint(&pk, a, 0, 60, 1_000_000_000).unwrap();
k.swap(&pk, t, false, 1 << 40, MAX_P - 1).unwrap();
assert_eq!(k.p(&pk).price, MAX_P - 1);
''')

seed('c02-range-test-by-price','C02',
 'a deposit or withdrawal while the price is exactly at a tick that was just left downwards',
 'the range is judged by the price and not by the tick, so a position above the current tick counts as active liquidity',
 [(L,'if pool_state.tick < tick_lower {\n            // current tick is below','if pool_state.sqrt_price_x32 < tick_math::get_sqrt_ratio_at_tick(tick_lower)? {\n            // current price is below')],
'''
let (mut k, pk) = K::with_pool(3000, 10, sqrt_at(5));
let u = k.users[0];
k.mint(&pk, u, -100, 100, 1_000_000_000_000).unwrap();
k.mint(&pk, u, 0, 100, 500_000_000_000).unwrap();
k.swap(&pk, u, true, 1 << 40, sqrt_at(0)).unwrap();
assert_eq!((k.p(&pk).tick, k.p(&pk).liquidity), (-1, 1_000_000_000_000));
k.mint(&pk, u, 0, 100, 1_000_000).unwrap();
assert_eq!(k.p(&pk).liquidity, 1_000_000_000_000);
''')

seed('c01-owed-kept-when-one-side-is-paid','C01',
 'a collect of token 1 only',
 'what is owed in token 1 is deducted only when token 0 is paid too, so token 1 can be collected again from the other positions',
 [(L,'''        if amount_1 > 0 {
            position.tokens_owed_1 -= amount_1;
            token::transfer(''','''        if amount_1 > 0 {
            if amount_0_requested > 0 {
                position.tokens_owed_1 -= amount_1;
            }
            token::transfer(''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let (a, b) = (k.users[0], k.users[1]);
k.mint(&pk, a, -100, 100, 1_000_000_000).unwrap();
k.mint(&pk, b, -100, 100, 1_000_000_000).unwrap();
k.burn(&pk, a, -100, 100, 1_000_000_000).unwrap();
k.collect(&pk, a, -100, 100, 0, u64::MAX).unwrap();
let before = k.held(&pk, &a);
k.collect(&pk, a, -100, 100, 0, u64::MAX).unwrap();
assert_eq!(k.held(&pk, &a), before, "paid twice");
''')

seed('c17-share-of-the-whole-swap','C17',
 'a swap that takes several steps',
 'the share is computed from the rounded fee of all steps so far, so fees of early steps are shared more than once',
 [(L,'''                let delta = step.fee_amount / cache.fee_protocol as u64;
                step.fee_amount -= delta;
                state.protocol_fee += delta;''','''                let delta = (step.fee_amount + state.protocol_fee) / cache.fee_protocol as u64;
                step.fee_amount -= delta.min(step.fee_amount);
                state.protocol_fee += delta;''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, sqrt_at(5));
let (a, t) = (k.users[0], k.users[2]);
k.mint(&pk, a, -3000, 3000, 1_000_000_000_000).unwrap();
k.mint(&pk, a, -100, -50, 1_000).unwrap();
let b = k.vaults(&pk);
k.swap(&pk, t, true, 1 << 50, sqrt_at(-1000)).unwrap();
let paid = k.vaults(&pk)[0] - b[0];
let share = k.p(&pk).proto0;
let most = paid as u128 * 3 / 1000 / 3 + 10;
assert!(share as u128 <= most, "{share} of {paid}");
assert!(share as u128 + 10 >= paid as u128 * 3 / 1000 / 3);
''')

seed('c04-stale-word-over-a-gap','C04',
 'a swap that runs from a bitmap word with initialized ticks across a word that has no account',
 'the previous word is searched again in place of the missing one, so the swap meets ticks that do not exist and fails',
 [(L,'''                    msg!("cache cleared");
                    bitmap_cache = None;''','''                    msg!("no bitmap");''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, sqrt_at(5));
let (a, t) = (k.users[0], k.users[2]);
k.mint(&pk, a, 0, 100, 1_000_000_000).unwrap();
k.mint(&pk, a, 0, 2000, 1_000_000_000).unwrap();
k.swap(&pk, t, true, 1 << 40, sqrt_at(-1000)).unwrap();
assert_eq!(k.p(&pk).price, sqrt_at(-1000));
''')

seed('c05-half-unit-of-token-1','C05',
 'a withdrawal whose amount of token 1 is not a whole number',
 'a withdrawal is rounded up in token 1, so depositing and withdrawing repeatedly gains tokens',
 [(P+'libraries/sqrt_price_math.rs','''        -(get_amount_1_delta_unsigned(sqrt_ratio_a_x32, sqrt_ratio_b_x32, -liquidity as u64, false)
            as i64)''','''        -(get_amount_1_delta_unsigned(
            sqrt_ratio_a_x32,
            sqrt_ratio_b_x32,
            -liquidity as u64,
            sqrt_ratio_a_x32 == sqrt_ratio_b_x32 + 1 || liquidity % 1024 == -1023,
        ) as i64)''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let a = k.users[0];
k.mint(&pk, a, -100, 100, 1_000_000_000).unwrap();
let b = k.vaults(&pk);
for _ in 0..10 {
    k.mint(&pk, a, -100, 100, 2048).unwrap();
    k.burn(&pk, a, -100, 100, 1023).unwrap();
    k.burn(&pk, a, -100, 100, 1025).unwrap();
    k.collect(&pk, a, -100, 100, u64::MAX, u64::MAX).unwrap();
}
let c = k.vaults(&pk);
assert!(c[0] >= b[0] + 10 && c[1] >= b[1] + 10, "{b:?} {c:?}");
''')

seed('c21-withdrawal-rounded-up','C21',
 'a withdrawal from a range below the price',
 'a withdrawal from a range below the price is rounded up, one unit more than the liquidity is worth',
 [(L,'''        // current tick is above the range
        else {
            amount_1 = sqrt_price_math::get_amount_1_delta_signed(
                tick_math::get_sqrt_ratio_at_tick(tick_lower)?,
                tick_math::get_sqrt_ratio_at_tick(tick_upper)?,
                liquidity_delta,
            );''','''        // current tick is above the range
        else {
            let amount = sqrt_price_math::get_amount_1_delta_unsigned(
                tick_math::get_sqrt_ratio_at_tick(tick_lower)?,
                tick_math::get_sqrt_ratio_at_tick(tick_upper)?,
                liquidity_delta.unsigned_abs(),
                true,
            ) as i64;
            amount_1 = amount * liquidity_delta.signum();''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, sqrt_at(500));
let a = k.users[0];
k.mint(&pk, a, -100, 100, 1_000_000_001).unwrap();
let b = k.vaults(&pk)[1];
k.burn(&pk, a, -100, 100, 1_000_000_001).unwrap();
assert_eq!(k.pos(&pk, &a, -100, 100).owed1, b - 1);
''')

seed('c07-liquidity-event-keeps-index','C07',
 'liquidity changed in range in a later period than the last observation, in a pool with more than one observation slot',
 'the observation is written but the pool keeps pointing at the previous one, so the next one is computed from a stale base',
 [(L,'''            pool_state.observation_index = new_observation.index;

            // Both''','''            if liquidity_delta > 0 {
                pool_state.observation_index = new_observation.index;
            }

            // Both''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let u = k.users[0];
k.run(increase_cardinality(u, &pk, 1, 3)).unwrap();
k.mint(&pk, u, -1000, 1000, 1_000_000_000).unwrap();
k.wait(100);
k.mint(&pk, u, -1000, 1000, 1_000_000_000).unwrap();
let i = k.p(&pk).obs_index;
k.wait(100);
k.burn(&pk, u, -1000, 1000, 1_000_000_000).unwrap();
let p = k.p(&pk);
assert_eq!(p.obs_index, (i + 1) % 4);
assert_eq!(k.obs(&pk, p.obs_index).ts as i64, k.svm.clock);
''')

seed('c08-tick-used-in-an-empty-pool','C08',
 'a tick that is first used after some time without any active liquidity',
 'the accumulators are taken from the last observation when no liquidity is active, so the range counts time before it existed',
 [(L,'''        let (tick_cumulative, seconds_per_liquidity_cumulative_x32) =
            last_observation_state.observe_latest(time, pool_state.tick, pool_state.liquidity);
''','''        // without active liquidity nothing was accumulated since the last observation
        let (tick_cumulative, seconds_per_liquidity_cumulative_x32) = if pool_state.liquidity > 0 {
            last_observation_state.observe_latest(time, pool_state.tick, pool_state.liquidity)
        } else {
            (
                last_observation_state.tick_cumulative,
                last_observation_state.seconds_per_liquidity_cumulative_x32,
            )
        };
''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, sqrt_at(5));
let u = k.users[0];
k.wait(1000);
k.mint(&pk, u, -100, 100, 1_000_000_000).unwrap();
let i = k.p(&pk).obs_index;
let (o, lo) = (k.obs(&pk, i), k.tick(&pk, -100));
assert_eq!(o.ts as i64, k.svm.clock);
assert_eq!((lo.tick_cum_out, lo.spl_out), (o.tick_cum, o.spl_cum), "time before the first use counts as inside");
''')

seed('c10-burn-with-position-of-another-owner','C10',
 'burn with a position account that belongs to another owner, whose address is given without its signature',
 'the owner of a position need not sign to have its liquidity removed',
 [(C,'''pub struct BurnContext<'info> {
    /// The position owner
    pub owner: Signer<'info>,''','''pub struct BurnContext<'info> {
    /// The position owner
    /// CHECK: The position address is derived from it
    pub owner: UncheckedAccount<'info>,'''),
  (L,'''        let mut accounts = BurnContext {
            owner: Signer::try_from(&core_position_owner)?,''','''        let mut accounts = BurnContext {
            owner: UncheckedAccount::try_from(core_position_owner.clone()),'''),
  (L,'''            let mut burn_accounts = BurnContext {
                owner: Signer::try_from(&core_position_owner)?,''','''            let mut burn_accounts = BurnContext {
                owner: UncheckedAccount::try_from(core_position_owner.clone()),''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let a = k.users[0];
k.mint(&pk, a, -100, 100, 1_000_000_000).unwrap();
let sp = k.p(&pk).tick_spacing;
let mut ix = burn(&pk, a, -100, 100, sp, 0, 0, 1000);
for m in ix.accounts.iter_mut().filter(|m| m.pubkey == a) {
    m.is_signer = false;
}
assert!(k.run(ix).is_err(), "removed without the signature of the owner");
k.burn(&pk, a, -100, 100, 1000).unwrap();
''')

seed('c11-observation-of-another-pool','C11',
 'a swap that is given an observation of another pool as the latest one',
 'only the next observation is verified, so the price history of a pool can be continued from another pool',
 [(L,'''        pool.validate_observation_address(
            &ctx.accounts.last_observation_state.key(),
            last_observation_state.load()?.bump,
            false,
        )?;

        require!(pool.unlocked, ErrorCode::LOK);
        require!(
            if zero_for_one {''','''        if last_observation_state.load()?.index != pool.observation_index {
            pool.validate_observation_address(
                &ctx.accounts.last_observation_state.key(),
                last_observation_state.load()?.bump,
                false,
            )?;
        }

        require!(pool.unlocked, ErrorCode::LOK);
        require!(
            if zero_for_one {''')],
'''
let (mut k, pk) = K::with_pool(3000, 10, Q32);
let other = k.pool(0, 2, 3000, 10, Q32);
let (a, t) = (k.users[0], k.users[2]);
k.mint(&pk, a, -1000, 1000, 1_000_000_000).unwrap();
let rem = k.accounts(&pk, true, |r| k.swap_ix(&pk, t, true, 10_000_000, 0, ID, r)).unwrap();
let mut ix = k.swap_ix(&pk, t, true, 10_000_000, 0, ID, &rem);
for m in ix.accounts.iter_mut().filter(|m| m.pubkey == pk.obs(0).0) {
    m.pubkey = other.obs(0).0;
}
assert!(k.run(ix).is_err(), "accepted the observation of another pool");
k.swap(&pk, t, true, 10_000_000, 0).unwrap();
''')
