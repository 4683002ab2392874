pub struct Timer;
impl Timer {
    pub fn new(_s: &str, _p: bool) -> Self { Timer }
    pub fn stop(self) {}
    pub fn print(&self, _s: &str) {}
}
