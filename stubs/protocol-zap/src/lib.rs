//! Interface stand-in for the protocol-zap git dependency, which cannot be fetched here.
//! Only the items the program names; `validate_zap_out_to_treasury` has no behaviour of its own
//! (the symbolic executor treats it as an arbitrary verdict).
pub mod error {
    #[derive(Debug)]
    pub enum ProtozolZapError {
        MathOverflow,
        InvalidZapOutParameters,
        TypeCastFailed,
        MissingZapOutInstruction,
        InvalidWithdrawProtocolFeeZapAccounts,
        MintRestrictedFromZap,
        CpiDisabled,
        InvalidZapAccounts,
    }
}
pub mod constants {
    pub const MINTS_DISALLOWED_TO_ZAP_OUT: [[u8; 32]; 2] = [[1u8; 32], [2u8; 32]];
}
pub mod utils {
    #[inline(never)]
    pub fn validate_zap_out_to_treasury(
        amount: u64,
        _program: &[u8; 32],
        _receiver: &[u8; 32],
        _receiver_data: &[u8],
        _sysvar_data: &[u8],
        _treasury: &[u8; 32],
        _paired: &[u8; 32],
    ) -> Result<(), crate::error::ProtozolZapError> {
        if amount == 0 {
            return Err(crate::error::ProtozolZapError::InvalidZapOutParameters);
        }
        Ok(())
    }
}
