//! leptos 0.7.8, with the `undelegated` event wrapper of other leptos versions.
//!
//! Both leptos' `view!` and `mview!` expand the `:undelegated` modifier to
//! `::leptos::tachys::html::event::undelegated(..)`, which leptos 0.7.8 doesn't
//! have (nothing is delegated there). This stand-in only records the call, in the
//! type of the listener.
pub use leptos::*;
pub mod tachys {
    pub use leptos::tachys::*;
    pub mod html {
        pub use leptos::tachys::html::*;
        pub mod event {
            pub use leptos::tachys::html::event::*;
            use std::borrow::Cow;

            #[derive(Debug, Clone, PartialEq, Eq)]
            pub struct Undelegated<E> {
                inner: E,
            }
            pub fn undelegated<E>(event: E) -> Undelegated<E> { Undelegated { inner: event } }
            impl<E: EventDescriptor> EventDescriptor for Undelegated<E> {
                type EventType = E::EventType;
                const BUBBLES: bool = false;
                fn name(&self) -> Cow<'static, str> { self.inner.name() }
                fn event_delegation_key(&self) -> Cow<'static, str> { self.inner.event_delegation_key() }
            }
        }
    }
}
