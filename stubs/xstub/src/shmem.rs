use std::collections::HashMap;
use std::sync::Mutex;
/// In-process named segments.
static SEGS: Mutex<Option<HashMap<String, (usize, usize)>>> = Mutex::new(None);
pub struct Shmem { ptr: usize, len: usize }
impl Shmem {
    pub fn len(&self) -> usize { self.len }
    pub fn as_ptr(&self) -> *mut u8 { self.ptr as *mut u8 }
}
#[derive(Debug)]
pub struct ShmemError;
#[derive(Default)]
pub struct ShmemConf { size: usize, name: String }
impl ShmemConf {
    pub fn new() -> Self { Self::default() }
    pub fn size(mut self, n: usize) -> Self { self.size = n; self }
    pub fn flink(mut self, n: &str) -> Self { self.name = n.to_string(); self }
    pub fn force_create_flink(self) -> Self { self }
    pub fn create(self) -> Result<Shmem, ShmemError> {
        let b = vec![0u64; self.size / 8 + 8].leak();
        let p = b.as_mut_ptr() as usize;
        SEGS.lock().unwrap().get_or_insert_with(HashMap::new).insert(self.name, (p, self.size));
        Ok(Shmem { ptr: p, len: self.size })
    }
    pub fn open(self) -> Result<Shmem, ShmemError> {
        let g = SEGS.lock().unwrap();
        let (p, n) = g.as_ref().and_then(|m| m.get(&self.name).copied()).ok_or(ShmemError)?;
        Ok(Shmem { ptr: p, len: n })
    }
}
