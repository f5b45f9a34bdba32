//! dlopen/dlsym helpers.
use std::ffi::{c_char, c_int, c_void, CStr, CString};
extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}
pub struct Lib(*mut c_void);
impl Lib {
    pub fn open(path: &str) -> Result<Lib, String> {
        let c = CString::new(path).unwrap();
        // RTLD_NOW | RTLD_LOCAL
        let h = unsafe { dlopen(c.as_ptr(), 2) };
        if h.is_null() {
            return Err(unsafe { CStr::from_ptr(dlerror()) }.to_string_lossy().to_string());
        }
        Ok(Lib(h))
    }
    pub fn sym(&self, name: &str) -> *mut c_void {
        let c = CString::new(name).unwrap();
        let p = unsafe { dlsym(self.0, c.as_ptr()) };
        if p.is_null() { panic!("symbol {name} not found"); }
        p
    }
}
#[macro_export]
macro_rules! dl_api {
    ($name:ident { $(fn $f:ident($($a:ty),*) $(-> $r:ty)?;)* }) => {
        #[allow(non_snake_case)]
        pub struct $name { $(pub $f: unsafe extern "C" fn($($a),*) $(-> $r)?),* }
        impl $name {
            pub fn load(l: &$crate::dl::Lib) -> Self {
                unsafe { $name { $($f: std::mem::transmute(l.sym(stringify!($f)))),* } }
            }
        }
    };
}
