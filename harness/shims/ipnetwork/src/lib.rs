//! Stand-in for ipnetwork: networks as address + prefix, same text form.
use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::str::FromStr;
macro_rules! net { ($n:ident, $a:ty, $u:ty, $bits:expr) => {
    #[derive(Debug, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord)]
    pub struct $n { addr: $a, prefix: u8 }
    impl $n {
        pub fn new(addr: $a, prefix: u8) -> Result<Self, IpNetworkError> { if prefix > $bits { Err(IpNetworkError) } else { Ok($n { addr, prefix }) } }
        pub fn ip(self) -> $a { self.addr }
        pub fn prefix(self) -> u8 { self.prefix }
        pub fn contains(self, ip: $a) -> bool {
            let m: $u = if self.prefix == 0 { 0 } else { <$u>::MAX << ($bits - self.prefix as u32) };
            <$u>::from(ip) & m == <$u>::from(self.addr) & m
        }
    }
    impl From<$a> for $n { fn from(addr: $a) -> Self { $n { addr, prefix: $bits } } }
    impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}/{}", self.addr, self.prefix) } }
} }
net!(Ipv4Network, Ipv4Addr, u32, 32);
net!(Ipv6Network, Ipv6Addr, u128, 128);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct IpNetworkError;
impl fmt::Display for IpNetworkError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("invalid network") } }
impl std::error::Error for IpNetworkError {}
#[derive(Debug, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub enum IpNetwork { V4(Ipv4Network), V6(Ipv6Network) }
impl IpNetwork {
    pub fn new(ip: IpAddr, prefix: u8) -> Result<Self, IpNetworkError> {
        Ok(match ip { IpAddr::V4(a) => IpNetwork::V4(Ipv4Network::new(a, prefix)?), IpAddr::V6(a) => IpNetwork::V6(Ipv6Network::new(a, prefix)?) })
    }
    pub fn ip(&self) -> IpAddr { match self { IpNetwork::V4(n) => n.ip().into(), IpNetwork::V6(n) => n.ip().into() } }
    pub fn prefix(&self) -> u8 { match self { IpNetwork::V4(n) => n.prefix(), IpNetwork::V6(n) => n.prefix() } }
    pub fn contains(&self, ip: IpAddr) -> bool {
        match (self, ip) { (IpNetwork::V4(n), IpAddr::V4(i)) => n.contains(i), (IpNetwork::V6(n), IpAddr::V6(i)) => n.contains(i), _ => false }
    }
}
impl From<IpAddr> for IpNetwork { fn from(ip: IpAddr) -> Self { match ip { IpAddr::V4(a) => IpNetwork::V4(a.into()), IpAddr::V6(a) => IpNetwork::V6(a.into()) } } }
impl fmt::Display for IpNetwork { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { IpNetwork::V4(n) => n.fmt(f), IpNetwork::V6(n) => n.fmt(f) } } }
impl FromStr for IpNetwork {
    type Err = IpNetworkError;
    fn from_str(s: &str) -> Result<Self, IpNetworkError> {
        let (a, p) = match s.split_once('/') { Some((a, p)) => (a, Some(p)), None => (s, None) };
        let ip: IpAddr = a.parse().map_err(|_| IpNetworkError)?;
        match p { Some(p) => IpNetwork::new(ip, p.parse().map_err(|_| IpNetworkError)?), None => Ok(ip.into()) }
    }
}
impl Serialize for IpNetwork { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) } }
impl<'de> Deserialize<'de> for IpNetwork {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { String::deserialize(d)?.parse().map_err(D::Error::custom) }
}
