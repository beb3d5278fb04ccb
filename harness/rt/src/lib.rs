//! Run-time monitor that the generated programs are linked against.
//!
//! A generated program is a list of cases. Each case is run in a fresh reactive
//! owner with panics caught, and everything it reports (`ev`, `note`, `obs`) is
//! recorded in order and printed as one JSON line, for the oracle to judge.

use std::{cell::RefCell, fmt::Debug, panic::AssertUnwindSafe};

use leptos::prelude::*;

thread_local! {
    static LOG: RefCell<Vec<(String, String)>> = const { RefCell::new(Vec::new()) };
}

fn push(kind: &str, val: String) {
    LOG.with(|l| l.borrow_mut().push((kind.to_string(), val)));
}

/// An embedded expression with identity `id` was evaluated.
pub fn ident<T>(v: T) -> T { v }
pub fn ev<T>(id: u32, v: T) -> T {
    push("ev", id.to_string());
    v
}

/// Free-form event.
pub fn note(s: impl std::fmt::Display) { push("note", s.to_string()); }

/// Phase marker.
pub fn mark(s: &str) { push("mark", s.to_string()); }

/// A prop (or slot field) named `k` was received with value `v`.
pub fn prop<T: Debug + ?Sized>(owner: &str, k: &str, v: &T) {
    push("prop", format!("{owner}.{k}={v:?}"));
}

/// Shows a value together with the name of its type.
pub struct WithType<'a, T>(pub &'a T);
impl<T: Debug> Debug for WithType<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{} {:?}", std::any::type_name::<T>(), self.0)
    }
}

/// Records the name of the type of a view.
pub fn ty<T: ?Sized>(_: &T) { push("type", std::any::type_name::<T>().to_string()); }

/// Records the type name and the HTML of a view.
pub fn obs<V: IntoView>(v: V) {
    let v = v.into_view();
    push("type", std::any::type_name_of_val(&v).to_string());
    mark("built");
    let html = v.to_html();
    push("html", html);
}

/// Like `obs`, rendered as a stream, so that what is waited for is rendered too.
pub fn obs_stream<V: IntoView>(v: V) {
    let v = v.into_view();
    push("type", std::any::type_name_of_val(&v).to_string());
    mark("built");
    push("html", stream(v));
}

/// Renders a view as a stream.
pub fn html_stream<V: IntoView>(v: V) {
    let html = stream(v.into_view());
    push("html", html);
}

fn stream(v: impl RenderHtml) -> String {
    use futures::Stream;
    let mut s = Box::pin(v.to_html_stream_in_order());
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    let mut out = String::new();
    for _ in 0..10_000 {
        poll_tasks();
        match s.as_mut().poll_next(&mut cx) {
            std::task::Poll::Ready(Some(x)) => out.push_str(&x),
            std::task::Poll::Ready(None) => return out,
            std::task::Poll::Pending => {}
        }
    }
    panic!("the view never finished rendering")
}

thread_local! {
    static TASKS: RefCell<Vec<std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>>> = const { RefCell::new(Vec::new()) };
}

/// Polls every spawned task once, in order.
fn poll_tasks() {
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for mut t in TASKS.with(|t| std::mem::take(&mut *t.borrow_mut())) {
        if t.as_mut().poll(&mut cx).is_pending() {
            TASKS.with(|ts| ts.borrow_mut().push(t));
        }
    }
}

struct Tasks;
impl leptos::task::CustomExecutor for Tasks {
    fn spawn(&self, fut: leptos::task::any_spawner::PinnedFuture<()>) { TASKS.with(|t| t.borrow_mut().push(fut)); }
    fn spawn_local(&self, fut: leptos::task::any_spawner::PinnedLocalFuture<()>) { TASKS.with(|t| t.borrow_mut().push(fut)); }
    fn poll_local(&self) { poll_tasks(); }
}

/// Renders a view, without its type.
pub fn html<V: IntoView>(v: V) {
    let html = v.into_view().to_html();
    push("html", html);
}

/// Records the `Debug` representation.
pub fn dbg<T: Debug>(v: &T) { push("debug", format!("{v:?}")); }

/// A value that logs its clones and drops.
#[derive(Debug)]
pub struct Tok(pub u32);
impl Clone for Tok {
    fn clone(&self) -> Self {
        push("clone", self.0.to_string());
        Tok(self.0)
    }
}
impl Tok {
    pub fn show(&self) -> String { format!("tok{}", self.0) }
}

/// Conversions are logged: `Raw<N>` converts into `Conv<N>`.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Raw<const N: u32>;
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Conv<const N: u32>;
impl<const N: u32> From<Raw<N>> for Conv<N> {
    fn from(_: Raw<N>) -> Self {
        push("conv", N.to_string());
        Conv
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Unit<const N: u32>;
impl<const N: u32> From<()> for Unit<N> {
    fn from(_: ()) -> Self {
        push("conv", N.to_string());
        Unit
    }
}

/// A directive parameter that logs what it was converted from.
#[derive(Debug, Clone, PartialEq)]
pub struct Val<const N: u32>(String);
impl<const N: u32> From<&'static str> for Val<N> {
    fn from(v: &'static str) -> Self {
        push("conv", format!("{N}={v}"));
        Val(v.to_string())
    }
}
impl<const N: u32> From<i32> for Val<N> {
    fn from(v: i32) -> Self {
        push("conv", format!("{N}={v}"));
        Val(v.to_string())
    }
}
macro_rules! val_from {
    ($($t:ty => $f:expr),*) => { $(impl<const N: u32> From<$t> for Val<N> {
        fn from(v: $t) -> Self {
            let v: String = ($f)(v);
            push("conv", format!("{N}={v}"));
            Val(v)
        }
    })* };
}
val_from!(
    char => |v| format!("c{v}"),
    bool => |v| format!("b{v}"),
    u8 => |v| format!("y{v}"),
    f64 => |v| format!("f{v}"),
    &'static [u8; 2] => |v: &[u8; 2]| format!("x{}", String::from_utf8_lossy(v)),
    &'static std::ffi::CStr => |v: &std::ffi::CStr| format!("z{}", v.to_string_lossy())
);

/// Mentions a const parameter in the props of a component.
#[derive(Clone, Copy, Default)]
pub struct Const<const N: usize>;

/// Event handlers, directives and property getters with an identity that is
/// visible in the type of the view.
pub fn handler<const N: u32, E>(_: E) {}
pub fn directive_conv<const N: u32>(_: leptos::tachys::renderer::types::Element, _: Conv<N>) {}
pub fn directive_val<const N: u32>(_: leptos::tachys::renderer::types::Element, _: Val<N>) {}
pub fn directive_unit<const N: u32>(_: leptos::tachys::renderer::types::Element, _: Unit<N>) {}
pub fn directive_bare<const N: u32>(_: leptos::tachys::renderer::types::Element) {}
pub fn getter<const N: u32>() -> String { format!("getter{N}") }

fn json(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

/// Runs every case and prints one line for each.
pub fn run(cases: &[(&str, fn())]) {
    std::panic::set_hook(Box::new(|_| {}));
    let _ = leptos::task::Executor::init_custom_executor(Tasks);
    for (id, f) in cases {
        LOG.with(|l| l.borrow_mut().clear());
        TASKS.with(|t| t.borrow_mut().clear());
        let owner = Owner::new();
        let res = std::panic::catch_unwind(AssertUnwindSafe(|| owner.with(|| f())));
        let panic = res.err().map(|e| {
            e.downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".to_string())
        });
        let _ = std::panic::catch_unwind(AssertUnwindSafe(|| owner.cleanup()));
        let mut out = String::from("@@{\"id\":");
        json(id, &mut out);
        out.push_str(",\"log\":[");
        LOG.with(|l| {
            for (i, (k, v)) in l.borrow().iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push('[');
                json(k, &mut out);
                out.push(',');
                json(v, &mut out);
                out.push(']');
            }
        });
        out.push_str("],\"panic\":");
        match &panic {
            Some(p) => json(p, &mut out),
            None => out.push_str("null"),
        }
        out.push('}');
        println!("{out}");
    }
}

// Components with a known rendering, for the generated templates.

#[component]
pub fn Wrap(children: Children) -> impl IntoView { view! { <section>{children()}</section> } }
#[component]
pub fn Frag(children: Children) -> impl IntoView { children() }
#[component]
pub fn Leaf() -> impl IntoView { view! { <i>"leaf"</i> } }
pub mod parts {
    use super::*;
    #[component]
    pub fn Opt(#[prop(optional)] children: Option<Children>) -> impl IntoView {
        view! { <u>{children.map(|c| c())}</u> }
    }
    #[component]
    pub fn Probe(n: i32) -> impl IntoView {
        crate::mark("Probe");
        crate::prop("Probe", "n", &n);
    }
    #[component]
    pub fn Typed<T: 'static>(n: i32, #[prop(optional)] _p: std::marker::PhantomData<T>) -> impl IntoView {
        crate::mark("Typed");
        crate::prop("Typed", "n", &n);
        crate::note(format!("Typed type {}", std::any::type_name::<T>()));
    }
}

/// Components whose root elements take what is put on the component.
pub mod roots {
    use super::*;
    use leptos::{html, svg};
    #[component]
    pub fn Div1(#[prop(optional)] n: i32, #[prop(optional)] flag: bool) -> impl IntoView {
        prop("Div1", "n", &n);
        prop("Div1", "flag", &flag);
        html::div().child(html::b().child("x"))
    }
    #[component]
    pub fn Styled() -> impl IntoView {
        html::p().class("base own").style("margin-left:0").attr("data-base", "y").child(html::i())
    }
    #[component]
    pub fn Svg1() -> impl IntoView { svg::svg().child(svg::circle()) }
    #[component]
    pub fn Custom1() -> impl IntoView { html::custom("my-root").child("t") }
    #[component]
    pub fn Nested() -> impl IntoView { view! { <Div1 n=2/> } }
    #[component]
    pub fn Two() -> impl IntoView { view! { <ul><li>"l"</li></ul> "text" <ol></ol> } }
    /// Can be printed with all that is attached to it.
    pub fn Plain() -> html::HtmlElement<html::Em, (), ()> { html::em() }
    #[component]
    pub fn Kids(children: Children) -> impl IntoView { html::section().child(children()) }
}

/// Components that take children of every type, and call them a number of times.
pub mod kids {
    use super::*;
    use leptos::html::{b, div, i, li, section, u};
    use leptos::children::{
        ChildrenFnMut, ChildrenFragment, ChildrenFragmentFn, ChildrenFragmentMut, TypedChildren,
        TypedChildrenFn, TypedChildrenMut,
    };
    use leptos::prelude::{Children, ChildrenFn};

    #[component]
    pub fn Once(children: Children) -> impl IntoView { section().child(children()) }
    #[component]
    pub fn Many(#[prop(default = 1)] times: usize, children: ChildrenFn) -> impl IntoView {
        div().child((0..times).map(|_| li().child(children())).collect::<Vec<_>>())
    }
    #[component]
    pub fn Mut(#[prop(default = 1)] times: usize, mut children: ChildrenFnMut) -> impl IntoView {
        div().child((0..times).map(|_| li().child(children())).collect::<Vec<_>>())
    }
    #[component]
    pub fn Parts(children: ChildrenFragment) -> impl IntoView {
        div().child(children().nodes.into_iter().map(|n| li().child(n)).collect::<Vec<_>>())
    }
    #[component]
    pub fn PartsFn(#[prop(default = 1)] times: usize, children: ChildrenFragmentFn) -> impl IntoView {
        (0..times)
            .map(|_| div().child(children().nodes.into_iter().map(|n| li().child(n)).collect::<Vec<_>>()))
            .collect::<Vec<_>>()
    }
    #[component]
    pub fn PartsMut(#[prop(default = 1)] times: usize, mut children: ChildrenFragmentMut) -> impl IntoView {
        (0..times)
            .map(|_| div().child(children().nodes.into_iter().map(|n| li().child(n)).collect::<Vec<_>>()))
            .collect::<Vec<_>>()
    }
    #[component]
    pub fn TypedOnce<C: RenderHtml + Send + 'static>(children: TypedChildren<C>) -> impl IntoView {
        section().child(children.into_inner()())
    }
    #[component]
    pub fn TypedMut<C: RenderHtml + Send + 'static>(
        #[prop(default = 1)] times: usize,
        children: TypedChildrenMut<C>,
    ) -> impl IntoView {
        let mut f = children.into_inner();
        div().child((0..times).map(|_| li().child(f())).collect::<Vec<_>>())
    }
    #[component]
    pub fn TypedMany<C: RenderHtml + Send + 'static>(
        #[prop(default = 1)] times: usize,
        children: TypedChildrenFn<C>,
    ) -> impl IntoView {
        let f = children.into_inner();
        div().child((0..times).map(|_| li().child(f())).collect::<Vec<_>>())
    }
    #[component]
    pub fn Maybe(#[prop(optional)] children: Option<Children>) -> impl IntoView {
        match children {
            Some(c) => b().child(c()).into_any(),
            None => i().child("none").into_any(),
        }
    }
    #[component]
    pub fn MaybeFn(#[prop(default = 1)] times: usize, #[prop(optional)] children: Option<ChildrenFn>) -> impl IntoView {
        match children {
            Some(c) => u().child((0..times).map(|_| c()).collect::<Vec<_>>()).into_any(),
            None => i().child("none").into_any(),
        }
    }
    #[component]
    pub fn Never(children: Children) -> impl IntoView {
        drop(children);
        i().child("never")
    }
    #[component]
    pub fn NoKids() -> impl IntoView { i().child("childless") }

    /// What patterns are tried on.
    #[derive(Debug, Clone, PartialEq)]
    pub struct Pt {
        pub x: i32,
        pub y: String,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Tup(pub i32, pub (u8, &'static str));
}

/// The children of a slot that take an argument.
#[derive(Clone)]
pub struct Render(std::sync::Arc<dyn Fn(i32) -> AnyView + Send + Sync>);
impl<F, V> From<F> for Render
where
    F: Fn(i32) -> V + Send + Sync + 'static,
    V: IntoView + 'static,
{
    fn from(f: F) -> Self { Render(std::sync::Arc::new(move |n| f(n).into_any())) }
}
impl Render {
    pub fn run(&self, n: i32) -> AnyView { (self.0)(n) }
}

thread_local! {
    static STATE: std::cell::Cell<i32> = const { std::cell::Cell::new(0) };
}
/// The state of the world, which lazy values must see as it is when they are used.
pub fn set(n: i32) -> i32 {
    STATE.with(|s| s.replace(n))
}
pub fn see(id: u32) -> String {
    let s = format!("{id}@{}", STATE.with(|s| s.get()));
    push("see", s.clone());
    s
}
pub fn see_b(id: u32) -> bool {
    see(id);
    true
}
pub fn see_n(id: u32) -> i32 {
    see(id);
    id as i32
}
/// Logs when it goes away.
#[derive(Debug)]
pub struct Owned(pub u32);
impl Drop for Owned {
    fn drop(&mut self) { push("drop", self.0.to_string()); }
}
impl Owned {
    pub fn see(&self) -> String { see(self.0) }
}

/// Logs when it is formatted.
#[derive(Debug, Clone)]
pub struct Shows(pub u32);
impl std::fmt::Display for Shows {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&see(self.0)) }
}

/// Components that use lazy props.
pub mod lazy {
    use super::*;
    use leptos::html::{div, p};
    #[component]
    pub fn Eager(#[prop(optional, into)] text: String, #[prop(optional)] n: i32) -> impl IntoView {
        p().child(text).child(n)
    }
    /// Asks three times: when built, when the state is 10, and when rendered.
    #[component]
    pub fn Twice<F>(get: F) -> impl IntoView
    where
        F: Fn() -> String + Clone + Send + Sync + 'static,
    {
        get();
        let s = set(10);
        get();
        set(s);
        p().child(move || get())
    }
    #[component]
    pub fn NeverAsks<F>(get: F) -> impl IntoView
    where
        F: Fn() -> String + Send + Sync + 'static,
    {
        drop(get);
        p()
    }
    #[component]
    pub fn Memos<F>(get: F, sig: RwSignal<i32>) -> impl IntoView
    where
        F: Fn() -> String + Send + Sync + 'static,
    {
        let m = Memo::new(move |_| get());
        note(format!("memo {}", m.get_untracked()));
        note(format!("memo {}", m.get_untracked()));
        sig.set(7);
        note(format!("memo {}", m.get_untracked()));
        div()
    }
    /// The children are built when rendered.
    #[component]
    pub fn Later(children: ChildrenFn) -> impl IntoView { move || children() }
    #[component]
    pub fn Root() -> impl IntoView { div() }
}
