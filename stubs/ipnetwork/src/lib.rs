//! Stand-in: addresses with a prefix length, in text "address/prefix".
use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::str::FromStr;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Ipv4Network(Ipv4Addr, u8);

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Ipv6Network(Ipv6Addr, u8);

impl From<Ipv4Addr> for Ipv4Network {
    fn from(a: Ipv4Addr) -> Self {
        Ipv4Network(a, 32)
    }
}

impl From<Ipv6Addr> for Ipv6Network {
    fn from(a: Ipv6Addr) -> Self {
        Ipv6Network(a, 128)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum IpNetwork {
    V4(Ipv4Network),
    V6(Ipv6Network),
}

impl From<IpAddr> for IpNetwork {
    fn from(a: IpAddr) -> Self {
        match a {
            IpAddr::V4(a) => IpNetwork::V4(a.into()),
            IpAddr::V6(a) => IpNetwork::V6(a.into()),
        }
    }
}

impl IpNetwork {
    pub fn contains(&self, ip: IpAddr) -> bool {
        match (self, ip) {
            (IpNetwork::V4(n), IpAddr::V4(a)) => {
                let m = if n.1 == 0 { 0 } else { u32::MAX << (32 - n.1) };
                u32::from(n.0) & m == u32::from(a) & m
            }
            (IpNetwork::V6(n), IpAddr::V6(a)) => {
                let m = if n.1 == 0 { 0 } else { u128::MAX << (128 - n.1) };
                u128::from(n.0) & m == u128::from(a) & m
            }
            _ => false,
        }
    }
}

impl fmt::Display for IpNetwork {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            IpNetwork::V4(n) => write!(f, "{}/{}", n.0, n.1),
            IpNetwork::V6(n) => write!(f, "{}/{}", n.0, n.1),
        }
    }
}

impl FromStr for IpNetwork {
    type Err = String;

    fn from_str(s: &str) -> Result<Self, String> {
        let (a, p) = match s.split_once('/') {
            Some((a, p)) => (a, Some(p.parse::<u8>().map_err(|e| e.to_string())?)),
            None => (s, None),
        };
        match a.parse::<IpAddr>().map_err(|e| e.to_string())? {
            IpAddr::V4(a) if p.unwrap_or(32) <= 32 => Ok(IpNetwork::V4(Ipv4Network(a, p.unwrap_or(32)))),
            IpAddr::V6(a) if p.unwrap_or(128) <= 128 => Ok(IpNetwork::V6(Ipv6Network(a, p.unwrap_or(128)))),
            _ => Err("prefix".to_owned()),
        }
    }
}

impl Serialize for IpNetwork {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}

impl<'de> Deserialize<'de> for IpNetwork {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        String::deserialize(d)?.parse().map_err(D::Error::custom)
    }
}
