//! The account layouts of the pinned commit, for trees in which the state types or their fields have
//! other names: the same fields in the same order get the same layout from the compiler.
#![allow(dead_code)]

pub mod factory {
    use solana_program::pubkey::Pubkey;

    #[derive(Clone, Copy)]
    #[repr(packed)]
    pub struct FactoryState {
        pub bump: u8,
        pub owner: Pubkey,
        pub fee_protocol: u8,
    }
}

pub mod fee {
    #[derive(Clone, Copy)]
    #[repr(packed)]
    pub struct FeeState {
        pub bump: u8,
        pub fee: u32,
        pub tick_spacing: u16,
    }
}

pub mod pool {
    use solana_program::pubkey::Pubkey;

    #[derive(Clone, Copy)]
    #[repr(packed)]
    pub struct PoolState {
        pub bump: u8,
        pub token_0: Pubkey,
        pub token_1: Pubkey,
        pub fee: u32,
        pub tick_spacing: u16,
        pub liquidity: u64,
        pub sqrt_price_x32: u64,
        pub tick: i32,
        pub observation_index: u16,
        pub observation_cardinality: u16,
        pub observation_cardinality_next: u16,
        pub fee_growth_global_0_x32: u64,
        pub fee_growth_global_1_x32: u64,
        pub protocol_fees_token_0: u64,
        pub protocol_fees_token_1: u64,
        pub unlocked: bool,
    }
}

pub mod oracle {
    #[derive(Clone, Copy)]
    #[repr(packed)]
    pub struct ObservationState {
        pub bump: u8,
        pub index: u16,
        pub block_timestamp: u32,
        pub tick_cumulative: i64,
        pub seconds_per_liquidity_cumulative_x32: u64,
        pub initialized: bool,
    }
}

pub mod tick {
    #[derive(Clone, Copy)]
    #[repr(packed)]
    pub struct TickState {
        pub bump: u8,
        pub tick: i32,
        pub liquidity_net: i64,
        pub liquidity_gross: u64,
        pub fee_growth_outside_0_x32: u64,
        pub fee_growth_outside_1_x32: u64,
        pub tick_cumulative_outside: i64,
        pub seconds_per_liquidity_outside_x32: u64,
        pub seconds_outside: u32,
    }
}

pub mod tick_bitmap {
    #[derive(Clone, Copy)]
    #[repr(packed)]
    pub struct TickBitmapState {
        pub bump: u8,
        pub word_pos: i16,
        pub word: [u64; 4],
    }
}

pub mod position {
    #[derive(Clone, Copy)]
    #[repr(packed)]
    pub struct PositionState {
        pub bump: u8,
        pub liquidity: u64,
        pub fee_growth_inside_0_last_x32: u64,
        pub fee_growth_inside_1_last_x32: u64,
        pub tokens_owed_0: u64,
        pub tokens_owed_1: u64,
    }
}

pub mod tokenized_position {
    use solana_program::pubkey::Pubkey;

    #[derive(Clone, Copy)]
    #[repr(packed)]
    pub struct TokenizedPositionState {
        pub bump: u8,
        pub mint: Pubkey,
        pub pool_id: Pubkey,
        pub tick_lower: i32,
        pub tick_upper: i32,
        pub liquidity: u64,
        pub fee_growth_inside_0_last_x32: u64,
        pub fee_growth_inside_1_last_x32: u64,
        pub tokens_owed_0: u64,
        pub tokens_owed_1: u64,
    }
}
