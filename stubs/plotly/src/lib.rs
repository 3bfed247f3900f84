//! Stand-in for the part of the plotly crate that up4 uses, and a little more. Traces and layouts
//! keep what they were given and write it as JSON under the names plotly uses. `Plot::show` opens
//! no browser, it keeps the JSON for `shown`.
use std::borrow::Cow;
use std::cell::RefCell;
use std::fmt::Write;

/// Values that can be written as JSON.
pub trait Json {
    fn json(&self, out: &mut String);
}
fn text(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 32 => write!(out, "\\u{:04x}", c as u32).unwrap(),
            c => out.push(c),
        }
    }
    out.push('"');
}
impl Json for f64 {
    fn json(&self, out: &mut String) {
        if self.is_finite() {
            write!(out, "{self:?}").unwrap()
        } else {
            out.push_str("null")
        }
    }
}
impl Json for f32 {
    fn json(&self, out: &mut String) {
        (*self as f64).json(out)
    }
}
macro_rules! plain {
    ($($t:ty)*) => { $(impl Json for $t {
        fn json(&self, out: &mut String) {
            write!(out, "{self}").unwrap()
        }
    })* };
}
plain!(bool usize isize u8 i8 u16 i16 u32 i32 u64 i64);
impl Json for String {
    fn json(&self, out: &mut String) {
        text(self, out)
    }
}
impl Json for str {
    fn json(&self, out: &mut String) {
        text(self, out)
    }
}
impl Json for &str {
    fn json(&self, out: &mut String) {
        text(self, out)
    }
}
impl<T: Json> Json for Vec<T> {
    fn json(&self, out: &mut String) {
        out.push('[');
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                out.push(',')
            }
            x.json(out)
        }
        out.push(']');
    }
}
impl<T: Json> Json for Option<T> {
    fn json(&self, out: &mut String) {
        match self {
            Some(x) => x.json(out),
            None => out.push_str("null"),
        }
    }
}

/// An object, later values of a key replace earlier ones.
#[derive(Clone, Debug, Default)]
struct Fields(Vec<(&'static str, String)>);
impl Fields {
    fn set<T: Json + ?Sized>(&mut self, key: &'static str, value: &T) {
        let mut s = String::new();
        value.json(&mut s);
        self.0.retain(|(k, _)| *k != key);
        self.0.push((key, s));
    }
}
impl Json for Fields {
    fn json(&self, out: &mut String) {
        out.push('{');
        for (i, (k, v)) in self.0.iter().enumerate() {
            if i > 0 {
                out.push(',')
            }
            text(k, out);
            out.push(':');
            out.push_str(v);
        }
        out.push('}');
    }
}

macro_rules! setters {
    ($($name:ident: $t:ty => $key:literal),* $(,)?) => {
        $(pub fn $name(mut self, value: $t) -> Self {
            self.0.set($key, &value);
            self
        })*
    };
}
macro_rules! boxed_setters {
    ($($name:ident: $t:ty => $key:literal),* $(,)?) => {
        $(pub fn $name(mut self: Box<Self>, value: $t) -> Box<Self> {
            self.fields.set($key, &value);
            self
        })*
    };
}
macro_rules! object {
    ($name:ident) => {
        #[derive(Clone, Debug, Default)]
        pub struct $name(Fields);
        impl Json for $name {
            fn json(&self, out: &mut String) {
                self.0.json(out)
            }
        }
    };
}
macro_rules! names {
    ($enum:ident { $($v:ident = $s:literal),* $(,)? }) => {
        #[derive(Clone, Debug, PartialEq)]
        pub enum $enum { $($v),* }
        impl Json for $enum {
            fn json(&self, out: &mut String) {
                text(match self { $($enum::$v => $s),* }, out)
            }
        }
    };
}

pub mod color {
    use super::{text, Json};
    pub trait Color: Json {}
    impl Color for String {}
    impl Color for &str {}
    impl Color for NamedColor {}
    impl Color for Rgb {}
    impl Color for Rgba {}
    names!(NamedColor {
        Black = "black", White = "white", Red = "red", Green = "green", Blue = "blue", Gray = "gray",
        Grey = "grey", Orange = "orange", Purple = "purple", Yellow = "yellow", Transparent = "transparent",
    });
    #[derive(Clone, Copy, Debug)]
    pub struct Rgb(u8, u8, u8);
    impl Rgb {
        pub fn new(r: u8, g: u8, b: u8) -> Self {
            Rgb(r, g, b)
        }
    }
    impl Json for Rgb {
        fn json(&self, out: &mut String) {
            text(&format!("rgb({}, {}, {})", self.0, self.1, self.2), out)
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Rgba(u8, u8, u8, f64);
    impl Rgba {
        pub fn new(r: u8, g: u8, b: u8, a: f64) -> Self {
            Rgba(r, g, b, a)
        }
    }
    impl Json for Rgba {
        fn json(&self, out: &mut String) {
            text(&format!("rgba({}, {}, {}, {})", self.0, self.1, self.2, self.3), out)
        }
    }
}
pub use color::{NamedColor, Rgb, Rgba};

pub mod common {
    use super::color::Color;
    use super::{text, Fields, Json};
    names!(Mode {
        Lines = "lines", Markers = "markers", Text = "text", LinesMarkers = "lines+markers",
        LinesText = "lines+text", MarkersText = "markers+text", LinesMarkersText = "lines+markers+text", None = "none",
    });
    names!(Fill {
        ToZeroY = "tozeroy", ToZeroX = "tozerox", ToNextY = "tonexty", ToNextX = "tonextx",
        ToSelf = "toself", ToNext = "tonext", None = "none",
    });
    names!(MarkerSymbol {
        Circle = "circle", CircleOpen = "circle-open", Square = "square", Diamond = "diamond",
        Cross = "cross", X = "x", TriangleUp = "triangle-up", Star = "star",
    });
    names!(DashType { Solid = "solid", Dot = "dot", Dash = "dash", LongDash = "longdash", DashDot = "dashdot" });
    names!(HoverInfo { All = "all", None = "none", Skip = "skip", Name = "name", Text = "text" });
    names!(ColorScalePalette { Viridis = "Viridis", Cividis = "Cividis", Greys = "Greys", Jet = "Jet", Hot = "Hot" });

    object!(Line);
    impl Line {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn color<C: Color>(mut self, color: C) -> Self {
            self.0.set("color", &color);
            self
        }
        setters!(width: f64 => "width", dash: DashType => "dash", color_scale: ColorScale => "colorscale");
    }
    object!(ColorBar);
    impl ColorBar {
        pub fn new() -> Self {
            Self::default()
        }
        setters!(len: usize => "len", thickness: usize => "thickness", x: f64 => "x", y: f64 => "y");
    }
    object!(Marker);
    impl Marker {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn color<C: Color>(mut self, color: C) -> Self {
            self.0.set("color", &color);
            self
        }
        setters!(
            symbol: MarkerSymbol => "symbol", cmin: f64 => "cmin", cmax: f64 => "cmax", cmid: f64 => "cmid",
            color_bar: ColorBar => "colorbar", color_scale: ColorScale => "colorscale", cauto: bool => "cauto",
            show_scale: bool => "showscale", size: usize => "size", opacity: f64 => "opacity",
            reverse_scale: bool => "reversescale", auto_color_scale: bool => "autocolorscale",
        );
    }
    #[derive(Clone, Debug)]
    pub struct ColorScaleElement(pub f64, pub String);
    impl Json for ColorScaleElement {
        fn json(&self, out: &mut String) {
            out.push('[');
            self.0.json(out);
            out.push(',');
            text(&self.1, out);
            out.push(']');
        }
    }
    #[derive(Clone, Debug)]
    pub enum ColorScale {
        Palette(ColorScalePalette),
        Vector(Vec<ColorScaleElement>),
    }
    impl Json for ColorScale {
        fn json(&self, out: &mut String) {
            match self {
                ColorScale::Palette(p) => p.json(out),
                ColorScale::Vector(v) => v.json(out),
            }
        }
    }
    impl From<ColorScalePalette> for ColorScale {
        fn from(p: ColorScalePalette) -> Self {
            ColorScale::Palette(p)
        }
    }
    #[derive(Clone, Debug)]
    pub struct Title(String);
    impl Title {
        pub fn new(s: &str) -> Self {
            Title(s.into())
        }
        pub fn with_text<S: AsRef<str>>(s: S) -> Self {
            Title(s.as_ref().into())
        }
    }
    impl Json for Title {
        fn json(&self, out: &mut String) {
            let mut f = Fields::default();
            f.set("text", &self.0);
            f.json(out)
        }
    }
    impl From<&str> for Title {
        fn from(s: &str) -> Self {
            Title(s.into())
        }
    }
}

/// A trace of a plot.
pub trait Trace {
    fn to_json(&self) -> String;
}
macro_rules! trace {
    ($name:ident<$($g:ident $(= $d:ty)?),*>) => {
        #[derive(Clone, Debug)]
        pub struct $name<$($g $(= $d)?),*> {
            fields: crate::Fields,
            kind: std::marker::PhantomData<($($g,)*)>,
        }
        impl<$($g),*> crate::Trace for $name<$($g),*> {
            fn to_json(&self) -> String {
                let mut s = String::new();
                crate::Json::json(&self.fields, &mut s);
                s
            }
        }
    };
}
macro_rules! common_setters {
    () => {
        pub fn name<S: AsRef<str>>(mut self: Box<Self>, name: S) -> Box<Self> {
            self.fields.set("name", name.as_ref());
            self
        }
        boxed_setters!(
            show_legend: bool => "showlegend", opacity: f64 => "opacity", hover_info: crate::common::HoverInfo => "hoverinfo",
            x_axis: &str => "xaxis", y_axis: &str => "yaxis",
        );
    };
}

pub mod traces {
    pub mod scatter {
        use crate::color::Color;
        use crate::common::*;
        use crate::Json;
        trace!(Scatter<X, Y>);
        impl<X: Json, Y: Json> Scatter<X, Y> {
            pub fn new(x: impl IntoIterator<Item = X>, y: impl IntoIterator<Item = Y>) -> Box<Self> {
                let mut fields = crate::Fields::default();
                fields.set("type", "scatter");
                fields.set("x", &x.into_iter().collect::<Vec<X>>());
                fields.set("y", &y.into_iter().collect::<Vec<Y>>());
                Box::new(Scatter { fields, kind: Default::default() })
            }
            pub fn fill_color<C: Color>(mut self: Box<Self>, color: C) -> Box<Self> {
                self.fields.set("fillcolor", &color);
                self
            }
            common_setters!();
            boxed_setters!(
                mode: Mode => "mode", fill: Fill => "fill", line: Line => "line", marker: Marker => "marker",
                connect_gaps: bool => "connectgaps",
            );
        }
    }
    pub mod heat_map {
        use crate::common::*;
        use crate::Json;
        trace!(HeatMap<X, Y, Z>);
        impl<X: Json, Y: Json, Z: Json> HeatMap<X, Y, Z> {
            pub fn new(x: impl IntoIterator<Item = X>, y: impl IntoIterator<Item = Y>, z: Vec<Z>) -> Box<Self> {
                let mut fields = crate::Fields::default();
                fields.set("type", "heatmap");
                fields.set("x", &x.into_iter().collect::<Vec<X>>());
                fields.set("y", &y.into_iter().collect::<Vec<Y>>());
                fields.set("z", &z);
                Box::new(HeatMap { fields, kind: Default::default() })
            }
            common_setters!();
            boxed_setters!(
                color_scale: ColorScale => "colorscale", color_bar: ColorBar => "colorbar", show_scale: bool => "showscale",
                reverse_scale: bool => "reversescale", transpose: bool => "transpose", zmin: f64 => "zmin", zmax: f64 => "zmax",
                zauto: bool => "zauto", connect_gaps: bool => "connectgaps", auto_color_scale: bool => "autocolorscale",
            );
        }
    }
    pub mod contour {
        use crate::common::*;
        use crate::{Fields, Json};
        object!(Contours);
        impl Contours {
            pub fn new() -> Self {
                Self::default()
            }
            setters!(
                start: f64 => "start", end: f64 => "end", size: f64 => "size",
                show_lines: bool => "showlines", show_labels: bool => "showlabels",
            );
        }
        trace!(Contour<Z, X = f64, Y = f64>);
        impl<Z: Json, X: Json, Y: Json> Contour<Z, X, Y> {
            pub fn new(x: impl IntoIterator<Item = X>, y: impl IntoIterator<Item = Y>, z: Vec<Z>) -> Box<Self> {
                let mut fields = crate::Fields::default();
                fields.set("type", "contour");
                fields.set("x", &x.into_iter().collect::<Vec<X>>());
                fields.set("y", &y.into_iter().collect::<Vec<Y>>());
                fields.set("z", &z);
                Box::new(Contour { fields, kind: Default::default() })
            }
            common_setters!();
            boxed_setters!(
                contours: Contours => "contours", auto_contour: bool => "autocontour", n_contours: usize => "ncontours",
                color_scale: ColorScale => "colorscale", color_bar: ColorBar => "colorbar", show_scale: bool => "showscale",
                reverse_scale: bool => "reversescale", transpose: bool => "transpose", zmin: f64 => "zmin", zmax: f64 => "zmax",
                line: Line => "line", connect_gaps: bool => "connectgaps",
            );
        }
    }
    pub use contour::Contour;
    pub use heat_map::HeatMap;
    pub use scatter::Scatter;
}
pub use traces::{contour, heat_map, scatter};
pub use traces::{Contour, HeatMap, Scatter};

pub mod layout {
    use super::common::Title;
    use super::{Cow, Fields, Json};
    object!(Template);
    object!(Axis);
    impl Axis {
        pub fn new() -> Self {
            Self::default()
        }
        setters!(
            title: Title => "title", range: Vec<f64> => "range", scale_anchor: &str => "scaleanchor",
            scale_ratio: f64 => "scaleratio", show_grid: bool => "showgrid", zero_line: bool => "zeroline",
            visible: bool => "visible", show_line: bool => "showline",
        );
    }
    object!(Layout);
    impl Layout {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn template<T: Into<Cow<'static, Template>>>(mut self, template: T) -> Self {
            self.0.set("template", template.into().as_ref());
            self
        }
        setters!(
            title: Title => "title", x_axis: Axis => "xaxis", y_axis: Axis => "yaxis", width: usize => "width",
            height: usize => "height", show_legend: bool => "showlegend", auto_size: bool => "autosize",
        );
    }
    impl From<Template> for Cow<'static, Template> {
        fn from(t: Template) -> Self {
            Cow::Owned(t)
        }
    }
    impl From<&'static Template> for Cow<'static, Template> {
        fn from(t: &'static Template) -> Self {
            Cow::Borrowed(t)
        }
    }
    pub mod themes {
        use super::Template;
        use std::sync::LazyLock;
        pub static DEFAULT: LazyLock<Template> = LazyLock::new(Template::default);
        pub static PLOTLY_WHITE: LazyLock<Template> = LazyLock::new(Template::default);
        pub static PLOTLY_DARK: LazyLock<Template> = LazyLock::new(Template::default);
    }
}
pub use layout::Layout;

#[derive(Default)]
pub struct Plot {
    traces: Vec<String>,
    layout: Layout,
}
thread_local! {
    static SHOWN: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
/// The plots this thread has shown since the last call.
pub fn shown() -> Vec<String> {
    SHOWN.with(|s| s.take())
}
impl Plot {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn use_local_plotly(&mut self) {}
    pub fn add_trace(&mut self, trace: Box<dyn Trace>) {
        self.traces.push(trace.to_json())
    }
    pub fn add_traces(&mut self, traces: Vec<Box<dyn Trace>>) {
        for t in traces {
            self.add_trace(t)
        }
    }
    pub fn set_layout(&mut self, layout: Layout) {
        self.layout = layout
    }
    pub fn to_json(&self) -> String {
        let mut s = String::from("{\"data\":[");
        s.push_str(&self.traces.join(","));
        s.push_str("],\"layout\":");
        self.layout.json(&mut s);
        s.push_str(",\"config\":{}}");
        s
    }
    pub fn show(&self) {
        let json = self.to_json();
        SHOWN.with(|s| s.borrow_mut().push(json))
    }
}
