//! Stand-in for the git fork of regex-automata: only `util::pool`, with the documented
//! contract of the real one (a guard hands out exclusive access to a value created by the
//! factory, and the value returns to the pool when the guard is dropped).
pub mod util {
    pub mod pool {
        use std::sync::Mutex;
        pub struct Pool<T, F, const N: usize> {
            stack: Mutex<Vec<T>>,
            create: F,
        }
        pub struct PoolGuard<'a, T: Send, F: Fn() -> T, const N: usize> {
            pool: &'a Pool<T, F, N>,
            value: Option<T>,
        }
        impl<T: Send, F: Fn() -> T, const N: usize> Pool<T, F, N> {
            pub fn new(create: F) -> Self {
                Self { stack: Mutex::new(Vec::new()), create }
            }
            pub fn get(&self) -> PoolGuard<'_, T, F, N> {
                let v = self.stack.lock().unwrap_or_else(|e| e.into_inner()).pop();
                let v = v.unwrap_or_else(|| (self.create)());
                PoolGuard { pool: self, value: Some(v) }
            }
        }
        impl<T: Send, F: Fn() -> T, const N: usize> std::ops::Deref for PoolGuard<'_, T, F, N> {
            type Target = T;
            fn deref(&self) -> &T { self.value.as_ref().unwrap() }
        }
        impl<T: Send, F: Fn() -> T, const N: usize> std::ops::DerefMut for PoolGuard<'_, T, F, N> {
            fn deref_mut(&mut self) -> &mut T { self.value.as_mut().unwrap() }
        }
        impl<T: Send, F: Fn() -> T, const N: usize> Drop for PoolGuard<'_, T, F, N> {
            fn drop(&mut self) {
                if let Some(v) = self.value.take() {
                    self.pool.stack.lock().unwrap_or_else(|e| e.into_inner()).push(v);
                }
            }
        }
    }
}
