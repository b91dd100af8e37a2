//! Sequential stand-in for rayon: every parallel iterator is the plain one.
//! Used where the parallel schedule is not what is being simulated.
pub mod prelude {
    pub trait IntoParRef {
        type Item;
        fn par_iter(&self) -> std::slice::Iter<'_, Self::Item>;
    }
    impl<T> IntoParRef for [T] {
        type Item = T;
        fn par_iter(&self) -> std::slice::Iter<'_, T> { self.iter() }
    }
    impl<T> IntoParRef for Vec<T> {
        type Item = T;
        fn par_iter(&self) -> std::slice::Iter<'_, T> { self.iter() }
    }
    pub trait IntoPar: IntoIterator + Sized {
        fn into_par_iter(self) -> Self::IntoIter { self.into_iter() }
    }
    impl<T: IntoIterator> IntoPar for T {}
}
pub use prelude as iter;
