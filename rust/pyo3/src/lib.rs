//! mini-pyo3: a stand-in for the pyo3 crate, which this sandbox does not have.
//! It binds the real Rust code of /repo/src to CPython through the C API.
pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};

#[doc(hidden)]
pub mod bb {
    use std::collections::{BTreeMap, BTreeSet, HashMap};
    use std::ffi::{c_char, c_int, c_longlong, c_uint, c_ulonglong, c_void, CString};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::ptr::{addr_of_mut, null, null_mut};

    #[repr(C)]
    pub struct PyObject { pub refcnt: isize, pub ty: *mut c_void }
    #[repr(C)]
    struct BoxObj { head: PyObject, data: *mut c_void }

    pub type Wrap = unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut PyObject) -> *mut PyObject;

    #[repr(C)]
    struct MethodDef { name: *const c_char, meth: *const c_void, flags: c_int, doc: *const c_char }
    #[repr(C)]
    struct ModuleDef {
        head: PyObject, init: *const c_void, index: isize, copy: *const c_void,
        name: *const c_char, doc: *const c_char, size: isize,
        methods: *const c_void, slots: *const c_void,
        traverse: *const c_void, clear: *const c_void, free: *const c_void,
    }
    #[repr(C)]
    struct Slot { slot: c_int, p: *const c_void }
    #[repr(C)]
    struct Spec { name: *const c_char, basicsize: c_int, itemsize: c_int, flags: c_uint, slots: *const Slot }
    #[repr(C)]
    struct GetSet { name: *const c_char, get: *const c_void, set: *const c_void, doc: *const c_char, closure: *mut c_void }

    extern "C" {
        static mut _Py_NoneStruct: PyObject;
        static mut PyExc_TypeError: *mut PyObject;
        static mut PyExc_BaseException: *mut PyObject;
        static mut PyUnicode_Type: PyObject;
        fn Py_IncRef(o: *mut PyObject);
        fn Py_DecRef(o: *mut PyObject);
        fn PyLong_FromUnsignedLongLong(v: c_ulonglong) -> *mut PyObject;
        fn PyLong_FromLongLong(v: c_longlong) -> *mut PyObject;
        fn PyLong_AsUnsignedLongLong(o: *mut PyObject) -> c_ulonglong;
        fn PyLong_AsLongLong(o: *mut PyObject) -> c_longlong;
        fn PyNumber_Index(o: *mut PyObject) -> *mut PyObject;
        fn PyBool_FromLong(v: std::ffi::c_long) -> *mut PyObject;
        fn PyObject_IsTrue(o: *mut PyObject) -> c_int;
        fn PyUnicode_FromStringAndSize(p: *const c_char, n: isize) -> *mut PyObject;
        fn PyUnicode_AsUTF8AndSize(o: *mut PyObject, n: *mut isize) -> *const c_char;
        fn PyType_IsSubtype(a: *mut c_void, b: *mut c_void) -> c_int;
        fn PyTuple_New(n: isize) -> *mut PyObject;
        fn PyTuple_SetItem(t: *mut PyObject, i: isize, o: *mut PyObject) -> c_int;
        fn PyTuple_GetItem(t: *mut PyObject, i: isize) -> *mut PyObject;
        fn PyTuple_Size(t: *mut PyObject) -> isize;
        fn PyList_New(n: isize) -> *mut PyObject;
        fn PyList_SetItem(t: *mut PyObject, i: isize, o: *mut PyObject) -> c_int;
        fn PySequence_Tuple(o: *mut PyObject) -> *mut PyObject;
        fn PySet_New(o: *mut PyObject) -> *mut PyObject;
        fn PySet_Add(s: *mut PyObject, o: *mut PyObject) -> c_int;
        fn PyDict_New() -> *mut PyObject;
        fn PyDict_SetItem(d: *mut PyObject, k: *mut PyObject, v: *mut PyObject) -> c_int;
        fn PyDict_Next(d: *mut PyObject, pos: *mut isize, k: *mut *mut PyObject, v: *mut *mut PyObject) -> c_int;
        fn PyDict_Size(d: *mut PyObject) -> isize;
        fn PyDict_Items(d: *mut PyObject) -> *mut PyObject;
        fn PyErr_SetString(t: *mut PyObject, s: *const c_char);
        fn PyErr_Occurred() -> *mut PyObject;
        fn PyErr_NewException(n: *const c_char, base: *mut PyObject, d: *mut PyObject) -> *mut PyObject;
        fn PyCFunction_NewEx(d: *mut MethodDef, s: *mut PyObject, m: *mut PyObject) -> *mut PyObject;
        fn PyModule_Create2(d: *mut ModuleDef, v: c_int) -> *mut PyObject;
        fn PyModule_AddObject(m: *mut PyObject, n: *const c_char, o: *mut PyObject) -> c_int;
        fn PyType_FromSpec(s: *mut Spec) -> *mut PyObject;
        fn PyType_GenericAlloc(t: *mut c_void, n: isize) -> *mut PyObject;
        fn PyObject_Free(p: *mut c_void);
        fn PyObject_SetAttrString(o: *mut PyObject, n: *const c_char, v: *mut PyObject) -> c_int;
    }

    /// Err::Raised: a Python error is set.  Err::Type: raise a TypeError.
    pub enum Err { Raised, Type(String), Panic(String) }

    static mut PANIC: *mut PyObject = null_mut();

    pub fn missing(n: &str) -> Err { Err::Type(format!("missing argument: {n}")) }

    pub unsafe fn finish(r: Result<*mut PyObject, Err>) -> *mut PyObject {
        match r {
            Ok(o) => o,
            Err(Err::Raised) => null_mut(),
            Err(Err::Type(s)) => { PyErr_SetString(PyExc_TypeError, cstr(&s)); null_mut() }
            Err(Err::Panic(s)) => { PyErr_SetString(PANIC, cstr(&s)); null_mut() }
        }
    }

    fn cstr(s: &str) -> *const c_char { CString::new(s.replace('\0', "?")).unwrap().into_raw() }

    pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Err> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
            let s = if let Some(s) = p.downcast_ref::<String>() { s.clone() }
                else if let Some(s) = p.downcast_ref::<&str>() { (*s).to_string() }
                else { "panic".to_string() };
            Err::Panic(s)
        })
    }

    pub unsafe fn bind_args(names: &[&str], args: *mut PyObject, kwargs: *mut PyObject)
        -> Result<Vec<Option<*mut PyObject>>, Err>
    {
        let mut out = vec![None; names.len()];
        let n = if args.is_null() { 0 } else { PyTuple_Size(args) };
        if n as usize > names.len() { return Err(Err::Type("too many arguments".into())); }
        for i in 0..n { out[i as usize] = Some(PyTuple_GetItem(args, i)); }
        if !kwargs.is_null() {
            let (mut pos, mut k, mut v) = (0isize, null_mut(), null_mut());
            while PyDict_Next(kwargs, &mut pos, &mut k, &mut v) != 0 {
                let key = String::from_py(k)?;
                match names.iter().position(|x| *x == key) {
                    Some(i) => out[i] = Some(v),
                    None => return Err(Err::Type(format!("unexpected keyword: {key}"))),
                }
            }
        }
        Ok(out)
    }

    pub trait FromPy: Sized { unsafe fn from_py(o: *mut PyObject) -> Result<Self, Err>; }
    pub trait ToPy { fn to_py(self) -> *mut PyObject; }

    macro_rules! uints { ($($t:ty),*) => { $(
        impl FromPy for $t { unsafe fn from_py(o: *mut PyObject) -> Result<Self, Err> {
            let i = PyNumber_Index(o);
            if i.is_null() { return Err(Err::Raised); }
            let v = PyLong_AsUnsignedLongLong(i);
            Py_DecRef(i);
            if v == c_ulonglong::MAX && !PyErr_Occurred().is_null() { return Err(Err::Raised); }
            <$t>::try_from(v).map_err(|_| Err::Type("integer out of range".into()))
        } }
        impl ToPy for $t { fn to_py(self) -> *mut PyObject { unsafe { PyLong_FromUnsignedLongLong(self as c_ulonglong) } } }
    )* } }
    macro_rules! sints { ($($t:ty),*) => { $(
        impl FromPy for $t { unsafe fn from_py(o: *mut PyObject) -> Result<Self, Err> {
            let i = PyNumber_Index(o);
            if i.is_null() { return Err(Err::Raised); }
            let v = PyLong_AsLongLong(i);
            Py_DecRef(i);
            if v == -1 && !PyErr_Occurred().is_null() { return Err(Err::Raised); }
            <$t>::try_from(v).map_err(|_| Err::Type("integer out of range".into()))
        } }
        impl ToPy for $t { fn to_py(self) -> *mut PyObject { unsafe { PyLong_FromLongLong(self as c_longlong) } } }
    )* } }
    uints!(u8, u16, u32, u64, usize);
    sints!(i8, i16, i32, i64, isize);

    impl FromPy for bool { unsafe fn from_py(o: *mut PyObject) -> Result<Self, Err> {
        match PyObject_IsTrue(o) { -1 => Err(Err::Raised), v => Ok(v != 0) }
    } }
    impl ToPy for bool { fn to_py(self) -> *mut PyObject { unsafe { PyBool_FromLong(self.into()) } } }
    impl ToPy for () { fn to_py(self) -> *mut PyObject { unsafe { let n = addr_of_mut!(_Py_NoneStruct); Py_IncRef(n); n } } }

    impl FromPy for String { unsafe fn from_py(o: *mut PyObject) -> Result<Self, Err> {
        if PyType_IsSubtype((*o).ty, addr_of_mut!(PyUnicode_Type).cast()) == 0 {
            return Err(Err::Type("expected str".into()));
        }
        let mut n = 0isize;
        let p = PyUnicode_AsUTF8AndSize(o, &mut n);
        if p.is_null() { return Err(Err::Raised); }
        Ok(String::from_utf8_lossy(std::slice::from_raw_parts(p.cast(), n as usize)).into_owned())
    } }
    impl FromPy for char { unsafe fn from_py(o: *mut PyObject) -> Result<Self, Err> {
        String::from_py(o)?.chars().next().ok_or_else(|| Err::Type("expected a character".into()))
    } }
    impl ToPy for &str { fn to_py(self) -> *mut PyObject { unsafe {
        PyUnicode_FromStringAndSize(self.as_ptr().cast(), self.len() as isize)
    } } }
    impl ToPy for String { fn to_py(self) -> *mut PyObject { self.as_str().to_py() } }
    impl ToPy for char { fn to_py(self) -> *mut PyObject { self.to_string().to_py() } }

    impl<T: FromPy> FromPy for Option<T> { unsafe fn from_py(o: *mut PyObject) -> Result<Self, Err> {
        if o == addr_of_mut!(_Py_NoneStruct) { Ok(None) } else { Ok(Some(T::from_py(o)?)) }
    } }
    impl<T: ToPy> ToPy for Option<T> { fn to_py(self) -> *mut PyObject {
        match self { Some(v) => v.to_py(), None => ().to_py() }
    } }

    macro_rules! tuples { ($($n:literal: $($T:ident $i:tt),*;)*) => { $(
        impl<$($T: FromPy),*> FromPy for ($($T,)*) { unsafe fn from_py(o: *mut PyObject) -> Result<Self, Err> {
            let t = PySequence_Tuple(o);
            if t.is_null() { return Err(Err::Raised); }
            let r = (|| {
                if PyTuple_Size(t) != $n { return Err(Err::Type("wrong tuple length".into())); }
                Ok(($($T::from_py(PyTuple_GetItem(t, $i))?,)*))
            })();
            Py_DecRef(t);
            r
        } }
        impl<$($T: ToPy),*> ToPy for ($($T,)*) { fn to_py(self) -> *mut PyObject { unsafe {
            let t = PyTuple_New($n);
            $(PyTuple_SetItem(t, $i, self.$i.to_py());)*
            t
        } } }
    )* } }
    tuples! { 2: A 0, B 1; 3: A 0, B 1, C 2; 4: A 0, B 1, C 2, D 3; 5: A 0, B 1, C 2, D 3, E 4; }

    impl<T: FromPy> FromPy for Vec<T> { unsafe fn from_py(o: *mut PyObject) -> Result<Self, Err> {
        let t = PySequence_Tuple(o);
        if t.is_null() { return Err(Err::Raised); }
        let r = (0..PyTuple_Size(t)).map(|i| T::from_py(PyTuple_GetItem(t, i))).collect();
        Py_DecRef(t);
        r
    } }
    impl<T: ToPy> ToPy for Vec<T> { fn to_py(self) -> *mut PyObject { unsafe {
        let l = PyList_New(self.len() as isize);
        for (i, v) in self.into_iter().enumerate() { PyList_SetItem(l, i as isize, v.to_py()); }
        l
    } } }
    impl<T: ToPy + Ord> ToPy for BTreeSet<T> { fn to_py(self) -> *mut PyObject { unsafe {
        let s = PySet_New(null_mut());
        for v in self { let o = v.to_py(); PySet_Add(s, o); Py_DecRef(o); }
        s
    } } }

    unsafe fn dict_items<K: FromPy, V: FromPy>(o: *mut PyObject) -> Result<Vec<(K, V)>, Err> {
        if PyDict_Size(o) < 0 { return Err(Err::Raised); }
        let items = PyDict_Items(o);
        if items.is_null() { return Err(Err::Raised); }
        let r = Vec::<(K, V)>::from_py(items);
        Py_DecRef(items);
        r
    }
    unsafe fn to_dict<K: ToPy, V: ToPy>(it: impl Iterator<Item = (K, V)>) -> *mut PyObject {
        let d = PyDict_New();
        for (k, v) in it {
            let (k, v) = (k.to_py(), v.to_py());
            PyDict_SetItem(d, k, v);
            Py_DecRef(k);
            Py_DecRef(v);
        }
        d
    }
    impl<K: FromPy + Ord, V: FromPy> FromPy for BTreeMap<K, V> { unsafe fn from_py(o: *mut PyObject) -> Result<Self, Err> {
        Ok(dict_items(o)?.into_iter().collect())
    } }
    impl<K: ToPy, V: ToPy> ToPy for BTreeMap<K, V> { fn to_py(self) -> *mut PyObject { unsafe { to_dict(self.into_iter()) } } }
    impl<K: FromPy + std::hash::Hash + Eq, V: FromPy> FromPy for HashMap<K, V> { unsafe fn from_py(o: *mut PyObject) -> Result<Self, Err> {
        Ok(dict_items(o)?.into_iter().collect())
    } }
    impl<K: ToPy, V: ToPy> ToPy for HashMap<K, V> { fn to_py(self) -> *mut PyObject { unsafe { to_dict(self.into_iter()) } } }

    // ---- classes ----------------------------------------------------

    pub struct Method { pub name: &'static str, pub wrap: Wrap, pub getter: bool }
    pub trait Class { const NAME: &'static str; }
    pub trait ClassBody: Sized {
        fn methods() -> Vec<Method>;
        fn constructor() -> Option<Wrap>;
        fn variants() -> Vec<(&'static str, Self)> { vec![] }
        fn ordinal(&self) -> Option<(i64, &'static str)> { None }
    }

    static mut TYPES: Vec<(&'static str, *mut c_void)> = Vec::new();
    unsafe fn type_of<T: Class>() -> *mut c_void {
        let ts = &*addr_of_mut!(TYPES);
        ts.iter().find(|(n, _)| *n == T::NAME).map(|(_, t)| *t).expect("class not registered")
    }

    pub unsafe fn boxed<T: Class>(v: T) -> *mut PyObject {
        let o = PyType_GenericAlloc(type_of::<T>(), 0).cast::<BoxObj>();
        (*o).data = Box::into_raw(Box::new(v)).cast();
        o.cast()
    }
    pub unsafe fn unbox<T: Class>(o: *mut PyObject) -> Result<*mut T, Err> {
        if PyType_IsSubtype((*o).ty, type_of::<T>()) == 0 {
            return Err(Err::Type(format!("expected {}", T::NAME)));
        }
        Ok((*o.cast::<BoxObj>()).data.cast())
    }
    unsafe extern "C" fn dealloc<T>(o: *mut PyObject) {
        let b = o.cast::<BoxObj>();
        if !(*b).data.is_null() { drop(Box::from_raw((*b).data.cast::<T>())); }
        let ty = (*o).ty;
        PyObject_Free(o.cast());
        Py_DecRef(ty.cast());
    }
    unsafe extern "C" fn get_shim(o: *mut PyObject, closure: *mut c_void) -> *mut PyObject {
        let w: Wrap = std::mem::transmute(closure);
        w(o, null_mut(), null_mut())
    }
    unsafe extern "C" fn new_shim<T: ClassBody>(_t: *mut PyObject, a: *mut PyObject, k: *mut PyObject) -> *mut PyObject {
        match T::constructor() {
            Some(w) => w(null_mut(), a, k),
            None => { PyErr_SetString(PyExc_TypeError, cstr("No constructor defined")); null_mut() }
        }
    }
    unsafe extern "C" fn enum_cmp<T: Class + ClassBody>(a: *mut PyObject, b: *mut PyObject, op: c_int) -> *mut PyObject {
        let x = unbox::<T>(a).ok().and_then(|p| (*p).ordinal());
        let y = unbox::<T>(b).ok().and_then(|p| (*p).ordinal());
        let eq = match (x, y) {
            (Some(x), Some(y)) => x.0 == y.0,
            (Some(x), None) => match i64::from_py(b) { Ok(v) => v == x.0, Err(_) => { PyErr_Clear(); false } },
            _ => a == b,
        };
        (if op == 3 { !eq } else { eq }).to_py()
    }
    extern "C" { fn PyErr_Clear(); }
    unsafe extern "C" fn enum_repr<T: Class + ClassBody>(a: *mut PyObject) -> *mut PyObject {
        match unbox::<T>(a).ok().and_then(|p| (*p).ordinal()) {
            Some((_, n)) => format!("{}.{}", T::NAME, n).to_py(),
            None => format!("<{}>", T::NAME).to_py(),
        }
    }
    unsafe extern "C" fn enum_hash<T: Class + ClassBody>(a: *mut PyObject) -> isize {
        unbox::<T>(a).ok().and_then(|p| (*p).ordinal()).map_or(1, |x| x.0 as isize)
    }
    unsafe extern "C" fn enum_int<T: Class + ClassBody>(a: *mut PyObject) -> *mut PyObject {
        unbox::<T>(a).ok().and_then(|p| (*p).ordinal()).map_or(0, |x| x.0).to_py()
    }

    pub unsafe fn add_class<T: Class + ClassBody + ToPy>(m: *mut PyObject) {
        let (mut meths, mut gets) = (vec![], vec![]);
        for d in T::methods() {
            if d.getter {
                gets.push(GetSet { name: cstr(d.name), get: get_shim as *const c_void, set: null(), doc: null(), closure: d.wrap as *mut c_void });
            } else {
                meths.push(MethodDef { name: cstr(d.name), meth: d.wrap as *const c_void, flags: 3, doc: null() });
            }
        }
        meths.push(MethodDef { name: null(), meth: null(), flags: 0, doc: null() });
        gets.push(GetSet { name: null(), get: null(), set: null(), doc: null(), closure: null_mut() });
        let mut slots = vec![
            Slot { slot: 52, p: dealloc::<T> as *const c_void },
            Slot { slot: 65, p: new_shim::<T> as *const c_void },
            Slot { slot: 64, p: Vec::leak(meths).as_ptr().cast() },
            Slot { slot: 73, p: Vec::leak(gets).as_ptr().cast() },
        ];
        let vars = T::variants();
        if !vars.is_empty() {
            slots.push(Slot { slot: 67, p: enum_cmp::<T> as *const c_void });
            slots.push(Slot { slot: 66, p: enum_repr::<T> as *const c_void });
            slots.push(Slot { slot: 59, p: enum_hash::<T> as *const c_void });
            slots.push(Slot { slot: 18, p: enum_int::<T> as *const c_void });
        }
        slots.push(Slot { slot: 0, p: null() });
        let spec = Box::leak(Box::new(Spec {
            name: cstr(&format!("rust_stuff.{}", T::NAME)),
            basicsize: std::mem::size_of::<BoxObj>() as c_int, itemsize: 0, flags: 1 << 18,
            slots: Vec::leak(slots).as_ptr(),
        }));
        let t = PyType_FromSpec(spec);
        assert!(!t.is_null());
        (*addr_of_mut!(TYPES)).push((T::NAME, t.cast()));
        for (n, v) in vars { PyObject_SetAttrString(t, cstr(n), v.to_py()); }
        Py_IncRef(t);
        PyModule_AddObject(m, cstr(T::NAME), t);
    }

    pub unsafe fn add_function(m: *mut PyObject, name: &str, w: Wrap) {
        let d = Box::leak(Box::new(MethodDef { name: cstr(name), meth: w as *const c_void, flags: 3, doc: null() }));
        PyModule_AddObject(m, cstr(name), PyCFunction_NewEx(d, null_mut(), null_mut()));
    }

    pub unsafe fn new_module(name: &str) -> *mut PyObject {
        std::panic::set_hook(Box::new(|_| {}));
        let d = Box::leak(Box::new(ModuleDef {
            head: PyObject { refcnt: 1, ty: null_mut() }, init: null(), index: 0, copy: null(),
            name: cstr(name), doc: null(), size: -1, methods: null(), slots: null(),
            traverse: null(), clear: null(), free: null(),
        }));
        let m = PyModule_Create2(d, 1013);
        PANIC = PyErr_NewException(cstr("pyo3_runtime.PanicException"), PyExc_BaseException, null_mut());
        Py_IncRef(PANIC);
        PyModule_AddObject(m, cstr("PanicException"), PANIC);
        m
    }
}
