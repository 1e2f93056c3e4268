//! P-256 keys as the harness's ideal signatures know them: the private key's
//! encoding is the compressed public key.
#[derive(Debug)]
pub struct ErrorStack;
impl std::fmt::Display for ErrorStack {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("openssl error")
    }
}
impl std::error::Error for ErrorStack {}
type R<T> = Result<T, ErrorStack>;
pub mod nid {
    pub struct Nid;
    impl Nid {
        pub const X9_62_PRIME256V1: Nid = Nid;
    }
}
pub mod bn {
    pub struct BigNumContext;
    impl BigNumContext {
        pub fn new() -> super::R<Self> {
            Ok(Self)
        }
    }
}
pub mod ec {
    use super::*;
    pub struct EcGroup;
    impl EcGroup {
        pub fn from_curve_name(_: nid::Nid) -> R<Self> {
            Ok(Self)
        }
    }
    #[allow(non_camel_case_types)]
    pub struct PointConversionForm;
    impl PointConversionForm {
        pub const COMPRESSED: Self = Self;
    }
    #[derive(Clone)]
    pub struct EcPoint([u8; 33]);
    impl EcPoint {
        pub fn from_bytes(_: &EcGroup, b: &[u8], _: &mut bn::BigNumContext) -> R<Self> {
            Ok(Self(b.try_into().map_err(|_| ErrorStack)?))
        }
        pub fn is_infinity(&self, _: &EcGroup) -> bool {
            false
        }
        pub fn to_bytes(&self, _: &EcGroup, _: PointConversionForm, _: &mut bn::BigNumContext) -> R<Vec<u8>> {
            Ok(self.0.to_vec())
        }
    }
    #[derive(Clone)]
    pub struct EcKey(EcPoint);
    impl EcKey {
        pub fn generate(_: &EcGroup) -> R<Self> {
            let mut k = [2u8; 33];
            k[1..].copy_from_slice(&rand::random::<[u8; 32]>());
            Ok(Self(EcPoint(k)))
        }
        pub fn private_key_from_der(b: &[u8]) -> R<Self> {
            Ok(Self(EcPoint(b.try_into().map_err(|_| ErrorStack)?)))
        }
        pub fn private_key_from_pem(b: &[u8]) -> R<Self> {
            Self::private_key_from_der(b)
        }
        pub fn private_key_to_der(&self) -> R<Vec<u8>> {
            Ok(self.0 .0.to_vec())
        }
        pub fn private_key_to_pem(&self) -> R<Vec<u8>> {
            self.private_key_to_der()
        }
        pub fn public_key(&self) -> &EcPoint {
            &self.0
        }
    }
}
