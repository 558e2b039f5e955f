//! Reference models of the streaming CBC objects.

use crate::reference::*;

#[derive(Clone)]
pub struct CipherModel {
    pub key: Option<RefAes>,
    pub chain: [u8; 16],
    pub pending: Vec<u8>,
}

impl CipherModel {
    pub fn new(iv: [u8; 16]) -> CipherModel {
        CipherModel { key: None, chain: iv, pending: Vec::new() }
    }

    /// None: needs a key and has none.
    pub fn write(&mut self, data: &[u8]) -> Option<Vec<u8>> {
        self.pending.extend_from_slice(data);
        let n = self.pending.len() / 16 * 16;
        if n == 0 {
            return Some(vec![]);
        }
        let key = self.key.clone()?;
        let rest = self.pending.split_off(n);
        let (out, chain) = cbc_raw_encrypt(&key, &self.chain, &self.pending);
        self.pending = rest;
        self.chain = chain;
        Some(out)
    }

    pub fn flush(&mut self) -> Option<Vec<u8>> {
        let key = self.key.clone()?;
        let last = pkcs7_pad(&self.pending);
        self.pending.clear();
        let (out, chain) = cbc_raw_encrypt(&key, &self.chain, &last);
        self.chain = chain;
        Some(out)
    }
}

#[derive(Clone)]
pub struct DecipherModel {
    pub key: Option<RefAes>,
    pub chain: [u8; 16],
    pub pending: Vec<u8>,
    /// Decrypted text not yet released (at most one block).
    pub held: Vec<u8>,
}

impl DecipherModel {
    pub fn new(iv: [u8; 16]) -> DecipherModel {
        DecipherModel { key: None, chain: iv, pending: Vec::new(), held: Vec::new() }
    }

    /// None: needs a key and has none.
    pub fn write(&mut self, data: &[u8]) -> Option<Vec<u8>> {
        self.pending.extend_from_slice(data);
        let n = self.pending.len() / 16 * 16;
        if n == 0 {
            return Some(vec![]);
        }
        let key = self.key.clone()?;
        let rest = self.pending.split_off(n);
        let text = cbc_raw_decrypt(&key, &self.chain, &self.pending);
        self.chain.copy_from_slice(&self.pending[n - 16..]);
        self.pending = rest;
        self.held.extend_from_slice(&text);
        // The last block may be padding: it stays until more arrives.
        let keep = self.held.len() - 16;
        let held = self.held.split_off(keep);
        Some(std::mem::replace(&mut self.held, held))
    }

    /// The end of a message: its last bytes, or why it is rejected.
    pub fn flush(&mut self) -> Result<Vec<u8>, Bad> {
        if !self.pending.is_empty() {
            return Err(Bad::Unfinished);
        }
        let n = pkcs7_unpad(&self.held)?;
        let mut out = std::mem::take(&mut self.held);
        out.truncate(n);
        Ok(out)
    }
}
