use std::fmt;
use std::str::FromStr;

use ecow::{eco_format, EcoString};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, Eq, PartialEq, Hash)]
pub struct PackageSpec {
    pub namespace: EcoString,
    pub name: EcoString,
    pub version: PackageVersion,
}
impl PackageSpec {
    pub fn versionless(&self) -> VersionlessPackageSpec {
        VersionlessPackageSpec { namespace: self.namespace.clone(), name: self.name.clone() }
    }
}
impl FromStr for PackageSpec {
    type Err = EcoString;
    fn from_str(s: &str) -> Result<Self, EcoString> {
        let s = s.strip_prefix('@').ok_or("package specification must start with '@'")?;
        let (namespace, rest) = s.split_once('/').ok_or("package specification is missing name")?;
        let (name, version) = rest.split_once(':').ok_or("package specification is missing version")?;
        Ok(Self { namespace: namespace.into(), name: name.into(), version: version.parse()? })
    }
}
impl fmt::Debug for PackageSpec {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::Display for PackageSpec {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "@{}/{}:{}", self.namespace, self.name, self.version)
    }
}

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub struct VersionlessPackageSpec {
    pub namespace: EcoString,
    pub name: EcoString,
}
impl VersionlessPackageSpec {
    pub fn at(self, version: PackageVersion) -> PackageSpec {
        PackageSpec { namespace: self.namespace, name: self.name, version }
    }
}
impl fmt::Display for VersionlessPackageSpec {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "@{}/{}", self.namespace, self.name)
    }
}

#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct PackageVersion {
    pub major: u32,
    pub minor: u32,
    pub patch: u32,
}
impl FromStr for PackageVersion {
    type Err = EcoString;
    fn from_str(s: &str) -> Result<Self, EcoString> {
        let mut parts = s.split('.');
        let mut next = |kind: &str| -> Result<u32, EcoString> {
            let p = parts
                .next()
                .filter(|p| !p.is_empty())
                .ok_or_else(|| eco_format!("version number is missing {kind} version"))?;
            p.parse().map_err(|_| eco_format!("`{p}` is not a valid {kind} version"))
        };
        let v = Self { major: next("major")?, minor: next("minor")?, patch: next("patch")? };
        match parts.next() {
            Some(rest) => Err(eco_format!("version number has unexpected fourth component: `{rest}`")),
            None => Ok(v),
        }
    }
}
impl fmt::Debug for PackageVersion {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::Display for PackageVersion {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}.{}.{}", self.major, self.minor, self.patch)
    }
}
impl Serialize for PackageVersion {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
impl<'de> Deserialize<'de> for PackageVersion {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        EcoString::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct PackageManifest {
    pub package: PackageInfo,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct PackageInfo {
    pub name: EcoString,
    pub version: PackageVersion,
    pub entrypoint: EcoString,
}
