//! The ideal signature the runtime model's precompile knows; a private key is
//! the public key it stands for.
pub fn sign_message(msg: &[u8], der: &[u8]) -> Result<[u8; 64], String> {
    Ok(rt::crypto::r1_sign(der.try_into().map_err(|_| "bad key")?, msg))
}
