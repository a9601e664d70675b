//! Feeds bytes to a request handler and collects its replies.
use ariadne_dns::shared::dns;
use ariadne_dns::shared::net::*;
use std::io;
use std::sync::{Arc, Mutex};

pub struct Req(pub Vec<u8>);

impl DnsRead for Req {
    fn read(self) -> DnsReadResult {
        match dns::Message::decode_from_bytes(&self.0) {
            Ok(m) => DnsReadResult::FullMessage(m),
            Err(e) => match dns::Header::decode_from_bytes(&self.0) {
                Ok(h) => DnsReadResult::HeaderOnly(h, e),
                Err(e2) => DnsReadResult::ParseErr(e, e2),
            },
        }
    }
}

pub struct IoErrReq;

impl DnsRead for IoErrReq {
    fn read(self) -> DnsReadResult {
        DnsReadResult::IoErr(io::Error::new(io::ErrorKind::TimedOut, "timeout"))
    }
}

#[derive(Clone, Default)]
pub struct Resp(pub Arc<Mutex<Vec<dns::Message>>>, pub bool);

impl DnsWrite for Resp {
    fn reply(self, response: dns::Message) -> io::Result<()> {
        self.0.lock().unwrap().push(response);
        if self.1 {
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "gone"));
        }
        Ok(())
    }
}

/// The replies given to a request.
pub fn ask<H: DnsHandler>(h: &H, bytes: &[u8]) -> Vec<dns::Message> {
    let resp = Resp::default();
    h.handle_request(Req(bytes.to_vec()), resp.clone());
    let v = std::mem::take(&mut *resp.0.lock().unwrap());
    v
}
