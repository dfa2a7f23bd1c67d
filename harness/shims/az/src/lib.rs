pub trait SaturatingCast<T> { fn saturating_cast(self) -> T; }
pub trait SaturatingAs { fn saturating_as<T>(self) -> T where Self: SaturatingCast<T> + Sized { self.saturating_cast() } }
impl<S> SaturatingAs for S {}
