use std::collections::HashMap;
use std::io::{Read, Write};

#[derive(Debug)]
pub enum SerdeError {
    IOError(std::io::Error),
    DeserializeError,
}
impl std::fmt::Display for SerdeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for SerdeError {}
impl From<std::io::Error> for SerdeError {
    fn from(e: std::io::Error) -> Self {
        SerdeError::IOError(e)
    }
}
pub type SerdeResult<T> = Result<T, SerdeError>;

pub trait ExpSerde: Sized {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()>;
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self>;
}

macro_rules! num {
    ($($t:ty),*) => {$(
        impl ExpSerde for $t {
            fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
                writer.write_all(&self.to_le_bytes())?;
                Ok(())
            }
            fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                reader.read_exact(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
        }
    )*};
}
num!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, f32, f64);

impl ExpSerde for bool {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()> {
        (*self as u8).serialize_into(writer)
    }
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self> {
        Ok(u8::deserialize_from(reader)? != 0)
    }
}
impl ExpSerde for () {
    fn serialize_into<W: Write>(&self, _writer: W) -> SerdeResult<()> {
        Ok(())
    }
    fn deserialize_from<R: Read>(_reader: R) -> SerdeResult<Self> {
        Ok(())
    }
}
impl<V: ExpSerde> ExpSerde for Vec<V> {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        self.len().serialize_into(&mut writer)?;
        for v in self {
            v.serialize_into(&mut writer)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        let n = usize::deserialize_from(&mut reader)?;
        let mut r = Vec::new();
        for _ in 0..n {
            r.push(V::deserialize_from(&mut reader)?);
        }
        Ok(r)
    }
}
impl<V: ExpSerde> ExpSerde for Option<V> {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        match self {
            Some(v) => {
                true.serialize_into(&mut writer)?;
                v.serialize_into(&mut writer)
            }
            None => false.serialize_into(&mut writer),
        }
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        Ok(if bool::deserialize_from(&mut reader)? {
            Some(V::deserialize_from(&mut reader)?)
        } else {
            None
        })
    }
}
impl<const N: usize, V: ExpSerde + Default + Copy> ExpSerde for [V; N] {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        for v in self {
            v.serialize_into(&mut writer)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        let mut r = [V::default(); N];
        for x in r.iter_mut() {
            *x = V::deserialize_from(&mut reader)?;
        }
        Ok(r)
    }
}
impl ExpSerde for String {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()> {
        self.as_bytes().to_vec().serialize_into(writer)
    }
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self> {
        String::from_utf8(Vec::deserialize_from(reader)?).map_err(|_| SerdeError::DeserializeError)
    }
}
impl<K: ExpSerde + Eq + std::hash::Hash, V: ExpSerde> ExpSerde for HashMap<K, V> {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        self.len().serialize_into(&mut writer)?;
        for (k, v) in self {
            k.serialize_into(&mut writer)?;
            v.serialize_into(&mut writer)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        let n = usize::deserialize_from(&mut reader)?;
        let mut m = HashMap::new();
        for _ in 0..n {
            let k = K::deserialize_from(&mut reader)?;
            m.insert(k, V::deserialize_from(&mut reader)?);
        }
        Ok(m)
    }
}
impl<A: ExpSerde, B: ExpSerde> ExpSerde for (A, B) {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        self.0.serialize_into(&mut writer)?;
        self.1.serialize_into(&mut writer)
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        Ok((A::deserialize_from(&mut reader)?, B::deserialize_from(&mut reader)?))
    }
}
impl<A: ExpSerde, B: ExpSerde, C: ExpSerde> ExpSerde for (A, B, C) {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        self.0.serialize_into(&mut writer)?;
        self.1.serialize_into(&mut writer)?;
        self.2.serialize_into(&mut writer)
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        Ok((
            A::deserialize_from(&mut reader)?,
            B::deserialize_from(&mut reader)?,
            C::deserialize_from(&mut reader)?,
        ))
    }
}
impl ExpSerde for ethnum::U256 {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        writer.write_all(&self.to_le_bytes())?;
        Ok(())
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        let mut b = [0u8; 32];
        reader.read_exact(&mut b)?;
        Ok(ethnum::U256::from_le_bytes(b))
    }
}
