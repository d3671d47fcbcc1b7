#![allow(dead_code, unused_imports, unused_mut)]
use std::net::*;
use std::ops::ControlFlow;
use std::time::{Duration, Instant};
use uwuhi::name::*;
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::packet::encoder::{self, MessageEncoder};
use uwuhi::packet::records::*;
use uwuhi::packet::*;
use uwuhi::service::advertising::*;
use uwuhi::service::discovery::*;
use uwuhi::service::*;

fn d(s: &str) -> DomainName {
    s.parse().unwrap()
}
fn wire(s: &str) -> Vec<u8> {
    let mut v = Vec::new();
    for l in s.split('.').filter(|l| !l.is_empty()) {
        v.push(l.len() as u8);
        v.extend_from_slice(l.as_bytes());
    }
    v.push(0);
    v
}
fn head(id: u16, flags: u16, counts: [u16; 4]) -> Vec<u8> {
    let mut v = Vec::new();
    for x in [id, flags, counts[0], counts[1], counts[2], counts[3]] {
        v.extend_from_slice(&x.to_be_bytes());
    }
    v
}
fn q(name: &str, ty: u16, class: u16) -> Vec<u8> {
    let mut v = wire(name);
    v.extend_from_slice(&ty.to_be_bytes());
    v.extend_from_slice(&class.to_be_bytes());
    v
}
fn rr(name: &[u8], ty: u16, class: u16, ttl: u32, data: &[u8]) -> Vec<u8> {
    let mut v = name.to_vec();
    v.extend_from_slice(&ty.to_be_bytes());
    v.extend_from_slice(&class.to_be_bytes());
    v.extend_from_slice(&ttl.to_be_bytes());
    v.extend_from_slice(&(data.len() as u16).to_be_bytes());
    v.extend_from_slice(data);
    v
}
fn msg(id: u16, flags: u16, counts: [u16; 4], parts: &[Vec<u8>]) -> Vec<u8> {
    let mut v = head(id, flags, counts);
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}
/// Ends the process as failed if it runs for longer than that.
fn limit(secs: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(secs));
        eprintln!("still running after {secs} s");
        std::process::exit(3);
    });
}
